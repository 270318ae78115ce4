// C16: statistics count exactly what happened
#define VCLOCK_IMPL
#include "cl.h"
#include "proto.h"
#include <cachelot/stats.h>
#include <server/memcached/memcached.h>
using namespace cl;

typedef std::map<string, uint64_t> Stats;
static Stats read_stats() {
    Stats s;
    #define ONE_CACHE(t, n, d) s[#n] = (uint64_t)STAT_GET(cache, n);
    #define ONE_MEM(t, n, d) s["mem." #n] = (uint64_t)STAT_GET(mem, n);
    CACHE_STATS(ONE_CACHE) MEMORY_STATS(ONE_MEM)
    return s;
}
// counters of every kind of command: total, and the parts it splits into
static const char * kinds[][4] = {{"cmd_get", "get_hits", "get_misses", 0}, {"cmd_set", "set_new", "set_existing", 0}, {"cmd_add", "add_stored", "add_not_stored", 0}, {"cmd_replace", "replace_stored", "replace_not_stored", 0},
    {"cmd_cas", "cas_stored", "cas_misses", "cas_badval"}, {"cmd_delete", "delete_hits", "delete_misses", 0}, {"cmd_touch", "touch_hits", "touch_misses", 0}, {"cmd_incr", "incr_hits", "incr_misses", 0}, {"cmd_decr", "decr_hits", "decr_misses", 0},
    {"cmd_append", "append_stored", "append_misses", 0}, {"cmd_prepend", "prepend_stored", "prepend_misses", 0}, {"cmd_flush", 0, 0, 0}};
enum { GET, SET, ADD, REPLACE, CAS, DELETE, TOUCH, INCR, DECR, APPEND, PREPEND, FLUSH, KINDS };
static std::set<string> & counters() { static std::set<string> s; if (s.empty()) for (auto & k : kinds) for (auto n : k) if (n) s.insert(n); return s; }

// --------------------------------------------------------------------------------------------- the cache
struct St {
    Sut s; Stats e; uint64_t ev0; bool was_reset = false; Stats first;
    St(size_t pages, size_t page, size_t dict, bool evict) : s((ResetStats(), vclock::reset(), pages), page, dict, evict) { s.c->publish_stats(); first = e = read_stats(); for (auto & c : counters()) if (e[c]) mc::fail("counter %s is %llu at the beginning", c.c_str(), (unsigned long long)e[c]); if (e["mem.limit_maxbytes"] != pages * page) mc::fail("limit_maxbytes is %llu", (unsigned long long)e["mem.limit_maxbytes"]); if (e["mem.page_size"] != page) mc::fail("page_size is %llu", (unsigned long long)e["mem.page_size"]); if (e["curr_items"]) mc::fail("a new cache has items"); }
    // after a command of `kind`: it was executed (or not), `part` is the part counter it belongs to; error: the command failed
    void done(int kind, const char * part, bool executed, bool error) {
        Stats n = read_stats();
        for (auto & c : counters()) {
            uint64_t d = n[c] - e[c]; bool mine = false; for (auto x : kinds[kind]) if (x && c == x) mine = true;
            if (!mine) { if (d) mc::fail("counter %s changed by %lld in a '%s' command", c.c_str(), (long long)d, kinds[kind][0] + 4); continue; }
            if (error) continue;
            uint64_t want = executed && (c == kinds[kind][0] || (part && c == part)) ? 1 : 0;
            if (d != want) mc::fail("counter %s changed by %lld, expected %llu", c.c_str(), (long long)d, (unsigned long long)want);
        }
        if (error) { uint64_t t = n[kinds[kind][0]] - e[kinds[kind][0]], p = 0; for (int i = 1; i < 4; ++i) if (kinds[kind][i]) p += n[kinds[kind][i]] - e[kinds[kind][i]]; if (t != (executed ? 1 : 0) || p) mc::fail("failed '%s' command is counted %llu times, its parts %llu times", kinds[kind][0] + 4, (unsigned long long)t, (unsigned long long)p); }
        e = n; common(n);
    }
    void common(Stats & n) {
        if (was_reset) return;
        if (n["mem.evictions"] != s.evictions) mc::fail("evictions is %llu, %llu items were evicted", (unsigned long long)n["mem.evictions"], (unsigned long long)s.evictions);
        if (n["mem.used_memory"] > n["mem.limit_maxbytes"]) mc::fail("used_memory %llu is above the limit", (unsigned long long)n["mem.used_memory"]);
        uint64_t need = 0; for (auto & x : s.m) need += Sut::overhead(x.first) + x.second.value.size(); if (n["mem.used_memory"] < first["mem.used_memory"] + need) mc::fail("used_memory %llu is below the size of stored items %llu", (unsigned long long)n["mem.used_memory"], (unsigned long long)need);
        // reading statistics changes nothing but the published values
        s.c->publish_stats(); Stats p = read_stats(); for (auto & x : p) if (x.first != "hash_capacity" && x.first != "curr_items" && x.first != "hash_is_expanding" && x.second != n[x.first]) mc::fail("publishing statistics changed %s", x.first.c_str());
        if (p["curr_items"] < s.m.size() || p["curr_items"] > s.m.size() + s.lingering.size()) mc::fail("curr_items is %llu, %zu items are stored and %zu expired", (unsigned long long)p["curr_items"], s.m.size(), s.lingering.size());
        if (p["hash_capacity"] < p["curr_items"] || p["hash_capacity"] < s.dict) mc::fail("hash_capacity is %llu with %llu items, initial size %zu", (unsigned long long)p["hash_capacity"], (unsigned long long)p["curr_items"], s.dict);
        uint64_t gone = p["mem.num_free"] + p["mem.evictions"] + p["mem.num_alloc_errors"]; if (p["mem.num_malloc"] != gone + p["curr_items"]) mc::fail("%llu allocations, %llu freed, %llu evicted, %llu failed but %llu items", (unsigned long long)p["mem.num_malloc"], (unsigned long long)p["mem.num_free"], (unsigned long long)p["mem.evictions"], (unsigned long long)p["mem.num_alloc_errors"], (unsigned long long)p["curr_items"]);
        if (p["mem.total_served"] + p["mem.total_unserved"] < p["mem.total_requested"]) mc::fail("served %llu + unserved %llu < requested %llu", (unsigned long long)p["mem.total_served"], (unsigned long long)p["mem.total_unserved"], (unsigned long long)p["mem.total_requested"]);
        if (p["curr_items"] == 0 && p["mem.used_memory"] != first["mem.used_memory"]) mc::fail("the cache is empty but %llu bytes are used, %llu initially", (unsigned long long)p["mem.used_memory"], (unsigned long long)first["mem.used_memory"]);
        e = p; mc::step();
    }
    // after a reap the model knows what was found
    void set(const Key & k, const string & v, uint32 ttl = 0) { s.reap(); string pre = snapshot(); bool had = false; { had = s.m.count(k.k) != 0; } uint64_t ev = s.evictions; int r = s.set(k, v, 1, ttl); bool still = had && !s.evicted_this_op.count(k.k); done(SET, still ? "set_existing" : "set_new", s.item_created, r < 0); }
    string snapshot() { return string(); }
    void add(const Key & k, const string & v, uint32 ttl = 0) { int r = s.add(k, v, 2, ttl); done(ADD, r == OK ? "add_stored" : "add_not_stored", s.item_created, r < 0); }
    void replace(const Key & k, const string & v) { int r = s.replace(k, v, 3); done(REPLACE, r == OK ? "replace_stored" : "replace_not_stored", s.item_created, r < 0); }
    void cas(const Key & k, const string & v, bool good) { uint64 id = 1ull << 60; if (good) { if (get(k)) id = s.last_id; } int r = s.cas(k, v, id, 4); done(CAS, r == OK ? "cas_stored" : r == NO ? "cas_misses" : "cas_badval", s.item_created, r < 0); }
    void extend(const Key & k, const string & v, bool ap) { int r = s.extend(k, v, ap); done(ap ? APPEND : PREPEND, ap ? (r == OK ? "append_stored" : "append_misses") : (r == OK ? "prepend_stored" : "prepend_misses"), s.item_created, r < 0); }
    void arith(const Key & k, uint64 d, bool up) { int r = s.arith(k, d, up); done(up ? INCR : DECR, up ? (r == OK ? "incr_hits" : "incr_misses") : (r == OK ? "decr_hits" : "decr_misses"), true, r < 0); }
    void del(const Key & k) { bool r = s.del(k); done(DELETE, r ? "delete_hits" : "delete_misses", true, false); }
    void touch(const Key & k, uint32 t) { bool r = s.touch(k, t); done(TOUCH, r ? "touch_hits" : "touch_misses", true, false); }
    bool get(const Key & k) { bool r = s.get(k); done(GET, r ? "get_hits" : "get_misses", true, false); return r; }
    void flush() { s.flush(); done(FLUSH, 0, true, false); }
    void reset() {
        ResetStats(); mc::note("  reset"); Stats n = read_stats(); for (auto & x : n) if (x.second) mc::fail("after a reset %s is %llu", x.first.c_str(), (unsigned long long)x.second); was_reset = true; e = n;
    }
    void empty(const std::vector<Key> & u) { for (auto & k : u) del(k); std::vector<Key> rest; for (auto & x : s.m) rest.push_back(Key{x.first, x.second.hash}); for (auto & k : rest) del(k); flush(); if (!was_reset) { s.c->publish_stats(); if (STAT_GET(cache, curr_items)) mc::fail("%llu items are left after deleting everything", (unsigned long long)STAT_GET(cache, curr_items)); } }
};
static const std::vector<Key> U = {K("a", 5), K("b", 21), K("c", 7)};
static const int OPS = 19;
static void op(St & t, int o, const Key & k, int d, size_t big) {
    switch (o) {
    case 0: t.set(k, std::to_string(d)); break;
    case 1: t.get(k); break;
    case 2: t.del(k); break;
    case 3: t.add(k, std::to_string(30 + d)); break;
    case 4: t.replace(k, "text"); break;
    case 5: t.cas(k, "9", true); break;
    case 6: t.cas(k, "9", false); break;
    case 7: t.extend(k, "1", true); break;
    case 8: t.extend(k, "1", false); break;
    case 9: t.arith(k, 2, true); break;
    case 10: t.arith(k, 2, false); break;
    case 11: t.touch(k, 5); break;
    case 12: t.set(k, fill(big, d)); break;
    case 13: t.set(k, "t", 1); break;
    case 14: vclock::now_s += 2; mc::note("  2 seconds"); break;
    case 15: t.flush(); break;
    case 16: t.set(k, fill(100000, 1)); break;                     // refused
    case 17: t.add(K(string(251, 'x'), 3), "v"); break;            // refused
    case 18: t.extend(k, fill(big, d), true); break;
    }
}
static void histories(size_t pages, size_t page, size_t dict, bool evict, int keys, int depth, int nops, size_t big) {
    St t(pages, page, dict, evict);
    for (int d = 0; d < depth; ++d) { int c = mc::choose(nops * keys); if (c % nops >= 14 && c % nops <= 17 && c % nops != 16 && c / nops > 0) throw mc::Prune(); op(t, c % nops, U[c / nops], d, big); mc::state(mc::hcombine(t.s.hash(), mc::hcombine(t.s.lingering.size(), t.s.evictions))); }
    t.empty(U);
}
// memory is filled so that stores evict, every size mix
static void evictions(bool evict, int depth) {
    St t(4, 256, 16, evict); static const size_t len[] = {1, 40, 90, 180}; int n = 0;
    for (int d = 0; d < depth; ++d) { int c = mc::choose(7); Key k = K("n" + std::to_string(c == 4 ? n / 2 : n), 100 + (c == 4 ? n / 2 : n)); if (c < 4) { t.set(k, fill(len[c], d)); n++; } else if (c == 4) t.del(k); else if (c == 5) t.extend(K("n0", 100), "12345678901234567890", true); else { t.set(K("n0", 100), "7"); t.arith(K("n0", 100), 1000, true); } mc::state(mc::hcombine(t.s.hash(), t.s.evictions)); }
    t.empty({});
}
// memory is full of items of one size (the free rest is as small as can be); then commands of every kind, many of them refused
static void refused(bool evict, int depth) {
    static const size_t dicts[] = {1, 16}; static const size_t len[] = {1, 2, 8, 17, 19, 20, 33, 52, 80, 100, 160, 200}; size_t v = mc::pick(len); St t(4, 256, mc::pick(dicts), evict); int n = 0; auto k = [](int i) { return K("n" + std::to_string(i), 100 + i); };
    auto full = [&](size_t l) { for (int i = 0; i < 60; ++i) { uint64_t ev = t.s.evictions; string x(l, '9'); t.s.add(k(n), x, 2, 0); if (!t.s.m.count(k(n).k) || t.s.evictions != ev) { t.s.del(k(n)); break; } n++; } };
    full(v); for (size_t l : {20, 8, 1}) full(l);
    if (!n) throw mc::Prune(); t.s.c->publish_stats(); t.e = read_stats();
    for (int d = 0; d < depth; ++d) { int c = mc::choose(13 * 2); op(t, c % 13, c / 13 ? k(0) : k(n - 1), d, v + 1); mc::state(mc::hcombine(t.s.hash(), mc::hcombine(t.s.evictions, n))); }
    t.empty({});
}
// the index grows; counters stay exact
static void growing() {
    static const size_t dicts[] = {1, 2, 16, 64}; St t(16, 4096, mc::pick(dicts), mc::flip()); int n = 1 + mc::choose(100), removed = mc::choose(4);
    for (int i = 0; i < n; ++i) { t.set(K("g" + std::to_string(i), 77 * i + 1), std::to_string(i)); if (removed && i % 4 < removed) t.del(K("g" + std::to_string(i / 2), 77 * (i / 2) + 1)); }
    for (int i = 0; i < n; ++i) t.get(K("g" + std::to_string(i), 77 * i + 1)); mc::state(mc::hcombine(n, removed)); t.empty({});
}
// the index grows in the middle of a long history: a command of every kind at every point while it does
static void expansion(bool th) {
    static const int at[] = {1020, 1022, 1023, 1024, 1025, 1026, 1100, 1530, 1536, 1540, 1898, 1900, 1902, 1903, 1904, 1905, 1906, 1910, 2000, 2300}; static const size_t dicts[] = {1024, 2048};
    int n = mc::pick(at); size_t dict = mc::pick(dicts); St t(16, 65536, dict, true); auto k = [](int i) { return K("x" + std::to_string(i), 2654435761u * (i + 1)); };
    for (int i = 0; i < n - 6; ++i) t.s.set(k(i), std::to_string(i));
    t.s.c->publish_stats(); t.e = read_stats(); t.set(k(n - 6), "6");
    for (int i = n - 5; i < n; ++i) t.set(k(i), std::to_string(i));
    for (int d = 0; d < 2; ++d) { int c = mc::choose(th ? 24 : 12) * (th ? 1 : 2); static const int which[] = {0, 511, 900000}; op(t, c % 12, c / 12 ? k(mc::pick(which)) : k(n - 2), d, 10); t.set(k(n + d), "new"); }
    t.flush(); for (int i = 0; i < 6; ++i) t.del(k(i * 171)); mc::state(mc::hcombine(n, t.s.hash()));
}
// the allocator alone, with changes of size in place: used memory covers what is allocated and returns to its initial value
static void allocator(int depth) {
    ResetStats(); memalloc a(4 * 512, 512); const uint64_t start = STAT_GET(mem, used_memory); static const size_t sizes[] = {1, 60, 150, 400}; struct B { void * p; size_t n; }; std::vector<B> live; uint64_t ev = 0, calls = 0;
    auto check = [&] { uint64_t need = 0; for (auto & b : live) need += b.n; uint64_t u = STAT_GET(mem, used_memory); MC_CHECK(u >= start + need && u <= 4 * 512, "used_memory is %llu, %llu bytes are allocated", (unsigned long long)u, (unsigned long long)need); MC_CHECK(!live.empty() || u == start, "used_memory is %llu with nothing allocated, initially %llu", (unsigned long long)u, (unsigned long long)start); MC_CHECK(STAT_GET(mem, evictions) == ev, "evictions is %llu, %llu blocks were evicted", (unsigned long long)STAT_GET(mem, evictions), (unsigned long long)ev); mc::step(); };
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(4 + 4 + 2 + 8); uint64_t h = 7; for (auto & b : live) h = mc::hcombine(h, b.n); mc::state(h);
        if (c < 8) { bool e = c >= 4; size_t n = sizes[c % 4]; void * p = a.alloc_or_evict(n, e, [&](void * x) { ev++; for (size_t i = 0; i < live.size(); ++i) if (live[i].p == x) { live.erase(live.begin() + i); break; } }); mc::note("  alloc %zu evict=%d -> %d", n, e, p != nullptr); if (p) live.push_back(B{p, n}); calls++; }
        else if (live.empty()) throw mc::Prune();
        else if (c < 10) { size_t i = c == 8 ? 0 : live.size() - 1; mc::note("  free #%zu", i); a.free(live[i].p); live.erase(live.begin() + i); }
        else { size_t i = c < 14 ? 0 : live.size() - 1, n = sizes[(c - 10) % 4]; void * p = a.realloc_inplace(live[i].p, n); mc::note("  realloc #%zu %zu -> %zu: %d", i, live[i].n, n, p != nullptr); if (p) live[i].n = n; }
        check();
    }
    while (!live.empty()) { a.free(live.back().p); live.pop_back(); check(); }
    MC_CHECK(STAT_GET(mem, num_malloc) == calls, "num_malloc is %llu after %llu calls", (unsigned long long)STAT_GET(mem, num_malloc), (unsigned long long)calls);
}
// more commands than 8, 16 (thorough: 24) bits can count
static void many(int max_bits) {
    static const int bits_[] = {8, 16, 24}; int bits = mc::pick(bits_), kind = mc::choose(KINDS), hit = mc::choose(2); if (bits > max_bits) throw mc::Prune();
    ResetStats(); vclock::reset(); auto c = cache::Cache::Create(4 * 4096, 4096, 16, true); const slice k("k", 1); const uint32 h = 77; const uint64 n = ((uint64)1 << bits) + 3; Stats before, after;
    auto fresh = [&](const char * v) { auto i = c.create_item(k, h, 1, 0, cache::seconds(0)); i->assign_value(slice(v, 1)); return i; };
    if (hit) c.do_set(fresh("1")); before = read_stats(); const char * part = kind == FLUSH ? 0 : kinds[kind][kind == SET ? (hit ? 2 : 1) : kind == ADD ? (hit ? 2 : 1) : (hit ? 1 : 2)]; uint64 extra_set = 0, extra_del = 0, extra_new = 0;
    for (uint64 i = 0; i < n; ++i) {
        if ((i & 0xFFFF) == 0) mc::step();
        switch (kind) {
        case GET: c.do_get(k, h); break;
        case SET: c.do_set(fresh("2")); if (!hit) { c.do_delete(k, h); extra_del++; } break;
        case ADD: c.do_add(fresh("3")); if (!hit) { c.do_delete(k, h); extra_del++; } break;
        case REPLACE: c.do_replace(fresh("4")); break;
        case CAS: c.do_cas(fresh("5"), hit ? c.do_get(k, h)->timestamp() : 1); break;
        case DELETE: if (hit && i) { c.do_set(fresh("6")); extra_set++; } c.do_delete(k, h); break;
        case TOUCH: c.do_touch(k, h, cache::seconds(0)); break;
        case INCR: c.do_incr(k, h, 1); break; case DECR: c.do_decr(k, h, 1); break;
        case APPEND: c.do_append(fresh("7")); if (hit) { c.do_set(fresh("8")); extra_set++; } break;
        case PREPEND: c.do_prepend(fresh("7")); if (hit) { c.do_set(fresh("8")); extra_set++; } break;
        case FLUSH: c.do_flush_all(); break;
        }
    }
    after = read_stats(); auto is = [&](const char * name, uint64 want) { MC_CHECK(after[name] - before[name] == want, "%s grew by %llu in %llu '%s' commands, expected %llu", name, (unsigned long long)(after[name] - before[name]), (unsigned long long)n, kinds[kind][0] + 4, (unsigned long long)want); };
    is(kinds[kind][0], n); if (part) is(part, n); if (extra_del) { is("cmd_delete", extra_del); is("delete_hits", extra_del); } if (extra_set) is("cmd_set", extra_set); mc::state(mc::hcombine(bits, kind * 2 + hit));
}
static void resetting(int depth) {
    St t(4, 256, 16, true); int at = mc::choose(depth + 1);
    for (int d = 0; d < depth; ++d) { if (d == at) t.reset(); int c = mc::choose(14 * 2); op(t, c % 14, U[c / 14], d, 150); }
    if (at == depth) t.reset(); mc::state(mc::hcombine(t.s.hash(), at)); t.s.get(U[0]); t.s.get(U[1]);
}
// --------------------------------------------------------------------------------------------- the stats command
struct Wire {
    cache::Cache c; proto::Model m; io_buffer in, out; Stats count;
    Wire() : c((ResetStats(), vclock::reset(), cache::Cache::Create(64 * 4096, 4096, 16, true))), in(500, 1 << 20), out(500, 1 << 20) { settings.cache.page_size = 4096; }
    string raw(const string & w) { memcpy(in.begin_write(w.size()), w.data(), w.size()); in.confirm_write(w.size()); memcached::handle_received_data(in, out, c); string r(out.begin_read(), out.non_read()); in.reset(); out.reset(); mc::step(); return r; }
    Stats stats() {
        string r = raw("stats\r\n"); Stats s; size_t at = 0;
        for (;;) { size_t e = r.find("\r\n", at); if (e == string::npos) mc::fail("stats reply is not terminated: '%s'", proto::show(r).c_str()); string l = r.substr(at, e - at); at = e + 2; if (l == "END") break; size_t sp = l.rfind(' '); if (l.compare(0, 5, "STAT ") || sp <= 5) mc::fail("line '%s'", l.c_str()); string v = l.substr(sp + 1); if (v.empty() || v.find_first_not_of("0123456789") != string::npos) mc::fail("line '%s'", l.c_str()); if (!s.emplace(l.substr(5, sp - 5), strtoull(v.c_str(), 0, 10)).second) mc::fail("%s is listed twice", l.c_str()); }
        if (at != r.size()) mc::fail("something follows the stats"); return s;
    }
    void run(proto::Cmd x) {
        string w = m.wire(x); bool er; m.reap(); string pat = m.apply(x, er); string r = raw(w); if (m.match(x, pat, r, 0, "command") != r.size()) mc::fail("'%s' -> '%s'", proto::show(w).c_str(), proto::show(r).c_str()); mc::note("  %s", proto::show(w).c_str());
    }
};
static void wire(int depth, int n) {
    using namespace proto; Wire t; uint64_t h = 3; size_t total = 0;
    auto cnt = [&](const char * a, const char * b) { t.count[a]++; if (b) t.count[b]++; };
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(n); h = mc::hcombine(h, c); string k = c % 2 ? "k" : "j"; bool had = t.m.m.count(k), nr = c >= 22; uint64_t x;
        switch (c / 2) {
        case 0: t.run(proto::get({k})); cnt("cmd_get", had ? "get_hits" : "get_misses"); break;
        case 1: t.run(store(proto::SET, k, "1")); cnt("cmd_set", had ? "set_existing" : "set_new"); break;
        case 2: t.run(store(proto::ADD, k, "a")); cnt("cmd_add", had ? "add_not_stored" : "add_stored"); break;
        case 3: t.run(key_cmd(proto::DELETE, k)); cnt("cmd_delete", had ? "delete_hits" : "delete_misses"); break;
        case 4: { bool e = had && !proto::Model::number(t.m.m[k].v, x); t.run(key_cmd(proto::INCR, k, 3)); if (e) t.count["cmd_incr"]++; else cnt("cmd_incr", had ? "incr_hits" : "incr_misses"); break; }
        case 5: t.run(store(proto::APPEND, k, "2")); cnt("cmd_append", had ? "append_stored" : "append_misses"); break;
        case 6: t.run(proto::get({"k", "j", "none"}, true)); for (auto y : {"k", "j", "none"}) cnt("cmd_get", t.m.m.count(y) ? "get_hits" : "get_misses"); break;
        case 7: { bool good = c % 2 && had && t.m.m[k].id && t.m.seen.count(k) && t.m.seen[k] == t.m.m[k].id; proto::Cmd z = store(proto::CAS, k, "c"); z.bogus_id = !(c % 2); t.run(z); cnt("cmd_cas", !had ? "cas_misses" : good ? "cas_stored" : "cas_badval"); break; }
        case 8: t.run(key_cmd(proto::TOUCH, k, 0)); cnt("cmd_touch", had ? "touch_hits" : "touch_misses"); break;
        case 9: t.run(store(proto::REPLACE, k, "r")); cnt("cmd_replace", had ? "replace_stored" : "replace_not_stored"); break;
        case 10: if (c % 2) { t.run(plain(proto::FLUSH)); t.count["cmd_flush"]++; } else { t.run(store(proto::PREPEND, k, "p")); cnt("cmd_prepend", had ? "prepend_stored" : "prepend_misses"); } break;
        case 11: t.run(store(proto::SET, k, "1", 0, 0, true)); cnt("cmd_set", had ? "set_existing" : "set_new"); break;
        case 12: { bool e = had && !proto::Model::number(t.m.m[k].v, x); t.run(key_cmd(proto::DECR, k, 3)); if (e) t.count["cmd_decr"]++; else cnt("cmd_decr", had ? "decr_hits" : "decr_misses"); break; }
        }
    }
    Stats s = t.stats(), s2 = t.stats(); if (s != s2) mc::fail("reading statistics changes them");
    for (auto & c : counters()) { if (!s.count(c)) mc::fail("the stats command does not list %s", c.c_str()); if (s[c] != t.count[c]) mc::fail("stats command: %s is %llu, expected %llu", c.c_str(), (unsigned long long)s[c], (unsigned long long)t.count[c]); }
    if (s["curr_items"] != t.m.m.size()) mc::fail("stats command: curr_items is %llu, %zu items are stored", (unsigned long long)s["curr_items"], t.m.m.size());
    if (s["evictions"] != 0 || s["limit_maxbytes"] != 64 * 4096 || s["page_size"] != 4096) mc::fail("stats command: evictions %llu limit_maxbytes %llu page_size %llu", (unsigned long long)s["evictions"], (unsigned long long)s["limit_maxbytes"], (unsigned long long)s["page_size"]);
    if (t.m.m.empty() != (s["used_memory"] == 0)) mc::fail("stats command: used_memory is %llu with %zu items", (unsigned long long)s["used_memory"], t.m.m.size());
    mc::state(mc::hcombine(h, t.m.hash()));
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("histories-1key", [=] { histories(16, 4096, 16, true, 1, th ? 5 : 4, OPS, 900); });
    mc::add("histories-2keys", [=] { histories(16, 4096, 2, true, 2, th ? 4 : 3, OPS, 900); });
    mc::add("histories-3keys", [=] { histories(16, 4096, 1, false, 3, th ? 4 : 3, 13, 900); });
    mc::add("small-memory", [=] { histories(4, 256, 2, true, 3, th ? 4 : 3, OPS, 150); });
    mc::add("small-memory-no-evictions", [=] { histories(4, 256, 2, false, 3, th ? 4 : 3, OPS, 150); });
    mc::add("evictions", [=] { evictions(true, th ? 8 : 6); });
    mc::add("no-evictions", [=] { evictions(false, th ? 8 : 6); });
    mc::add("refused", [=] { refused(false, th ? 3 : 2); }); mc::add("refused-evict", [=] { refused(true, th ? 3 : 2); });
    mc::add("growing", growing); mc::add("expansion", [=] { expansion(th); });
    mc::add("allocator", [=] { allocator(th ? 6 : 5); });
    mc::add("many", [=] { many(th ? 24 : 16); }, false, 2, 300);
    mc::add("resetting", [=] { resetting(th ? 4 : 3); });
    mc::add("wire", [=] { wire(th ? 5 : 4, 26); });
    return mc::main_(argc, argv);
}
