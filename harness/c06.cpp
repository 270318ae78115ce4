// C06: items live exactly until their expiration time, wherever the clock advances
#define VCLOCK_IMPL
#include "cl.h"
using namespace cl;

static const uint64 NEVER = ~0ULL;
static const uint64 CLOCK_MAX = 0xFFFFFFFEull;  // the uint32 clock of seconds does not reach further

// the clock ticks once more right before the n-th read made by the current command
static int tick_countdown = 0; static uint64 tick_by = 1;
static void tick_hook() { if (tick_countdown > 0 && --tick_countdown == 0) { vclock::now_s += tick_by; mc::note("      (clock +%llus inside the command)", (unsigned long long)tick_by); } }

struct TItem { string value; uint16 flags; uint64 lo, hi; };    // expires somewhere in [lo, hi]

struct Timed {
    std::unique_ptr<cache::Cache> c; std::map<string, TItem> m; uint64 t0 = 0, t1 = 0; bool uncertain = false;
    Timed() { c.reset(new cache::Cache(cache::Cache::Create(4 * 4096, 4096, 4, true))); }
    static uint64 at(uint64 t, uint32 ttl) { return ttl == 0 || t + ttl > CLOCK_MAX ? NEVER : t + ttl; }
    void begin(int inside) { mc::step(); tick_countdown = inside; t0 = vclock::now_s; }
    void end() { tick_countdown = 0; t1 = vclock::now_s; }
    // the command reported `present`; check it against the model and settle the uncertain cases
    bool settle(const char * op, const Key & k, bool present) {
        auto it = m.find(k.k);
        if (it == m.end()) { if (present) mc::fail("%s '%s': key behaves as present, it was removed, expired or never stored", op, k.k.c_str()); return false; }
        if (t1 < it->second.lo && !present) mc::fail("%s '%s': behaves as absent at %llu, it lives until %llu", op, k.k.c_str(), (unsigned long long)t1, (unsigned long long)it->second.lo);
        if (t0 >= it->second.hi && present) mc::fail("%s '%s': behaves as present at %llu, it expired at %llu", op, k.k.c_str(), (unsigned long long)t0, (unsigned long long)it->second.hi);
        if (!present) m.erase(it);
        return present;
    }
    cache::ItemPtr make(const Key & k, const string & v, uint16 f, uint32 ttl) {
        auto i = c->create_item(slice(k.k.data(), k.k.size()), k.h, v.size(), f, cache::seconds(ttl)); i->assign_value(slice(v.data(), v.size())); return i;
    }
    slice sl(const Key & k) { return slice(k.k.data(), k.k.size()); }
    void store(const Key & k, const string & v, uint16 f, uint32 ttl) { m[k.k] = TItem{v, f, at(t0, ttl), at(t1, ttl)}; }
    void set(const Key & k, const string & v, uint16 f, uint32 ttl, int in = 0) { begin(in); c->do_set(make(k, v, f, ttl)); end(); mc::note("  set '%s' ttl=%u at %llu", k.k.c_str(), ttl, (unsigned long long)t0); store(k, v, f, ttl); }
    void add(const Key & k, const string & v, uint16 f, uint32 ttl, int in = 0) { begin(in); bool r = c->do_add(make(k, v, f, ttl)); end(); mc::note("  add '%s' ttl=%u at %llu -> %d", k.k.c_str(), ttl, (unsigned long long)t0, r); if (!settle("add", k, !r)) store(k, v, f, ttl); }
    void replace(const Key & k, const string & v, uint16 f, uint32 ttl, int in = 0) { begin(in); bool r = c->do_replace(make(k, v, f, ttl)); end(); mc::note("  replace '%s' ttl=%u at %llu -> %d", k.k.c_str(), ttl, (unsigned long long)t0, r); if (settle("replace", k, r)) store(k, v, f, ttl); }
    void cas(const Key & k, const string & v, uint16 f, uint32 ttl, bool good, int in = 0) {
        uint64 id = 0; begin(0); auto i = c->do_get(sl(k), k.h); end(); if (settle("get", k, i != nullptr)) id = i->timestamp() + (good ? 0 : 1); else id = 1;
        begin(in); bool fnd, st; tie(fnd, st) = c->do_cas(make(k, v, f, ttl), id); end(); mc::note("  cas '%s' ttl=%u at %llu -> %d %d", k.k.c_str(), ttl, (unsigned long long)t0, fnd, st);
        if (settle("cas", k, fnd)) { if (st != good) mc::fail("cas '%s': stored=%d", k.k.c_str(), st); if (st) store(k, v, f, ttl); }
    }
    void extend(const Key & k, const string & v, bool app, int in = 0) {
        begin(in); auto i = make(k, v, 0x7777, app ? 1 : 999); bool r = app ? c->do_append(i) : c->do_prepend(i); end(); mc::note("  %s '%s' at %llu -> %d", app ? "append" : "prepend", k.k.c_str(), (unsigned long long)t0, r);
        if (settle("append/prepend", k, r)) { auto & e = m[k.k]; e.value = app ? e.value + v : v + e.value; }
    }
    void arith(const Key & k, uint64 d, bool inc, int in = 0) {
        begin(in); bool fnd = false; uint64 nv = 0; bool bad = false;
        try { if (inc) tie(fnd, nv) = c->do_incr(sl(k), k.h, d); else tie(fnd, nv) = c->do_decr(sl(k), k.h, d); } catch (const system_error &) { bad = true; fnd = true; }
        end(); mc::note("  %s '%s' at %llu -> %d", inc ? "incr" : "decr", k.k.c_str(), (unsigned long long)t0, fnd);
        if (settle(inc ? "incr" : "decr", k, fnd)) { uint64 o; auto & e = m[k.k]; bool num = parse_u64(e.value, o); if (num == bad) mc::fail("incr/decr '%s' of '%s': wrong error report", k.k.c_str(), e.value.c_str()); if (num) e.value = std::to_string((unsigned long long)(inc ? o + d : (o < d ? 0 : o - d))); }
    }
    void del(const Key & k, int in = 0) { begin(in); bool r = c->do_delete(sl(k), k.h); end(); mc::note("  delete '%s' at %llu -> %d", k.k.c_str(), (unsigned long long)t0, r); settle("delete", k, r); m.erase(k.k); }
    void touch(const Key & k, uint32 ttl, int in = 0) { begin(in); bool r = c->do_touch(sl(k), k.h, cache::seconds(ttl)); end(); mc::note("  touch '%s' ttl=%u at %llu -> %d", k.k.c_str(), ttl, (unsigned long long)t0, r); if (settle("touch", k, r)) { m[k.k].lo = at(t0, ttl); m[k.k].hi = at(t1, ttl); } }
    bool get(const Key & k, int in = 0, bool quiet = false) {
        begin(in); auto i = c->do_get(sl(k), k.h); end(); if (!quiet) mc::note("  get '%s' at %llu -> %d", k.k.c_str(), (unsigned long long)t0, i != nullptr);
        bool p = settle("get", k, i != nullptr);
        if (p) { auto & e = m[k.k]; if (i->value().str() != e.value || i->opaque_flags() != e.flags || i->key().str() != k.k) mc::fail("get '%s': contents differ: '%s' instead of '%s'", k.k.c_str(), i->value().str().c_str(), e.value.c_str()); }
        return p;
    }
    uint64 count() { c->publish_stats(); return STAT_GET(cache, curr_items); }
    void flush(int in = 0) {
        begin(in); c->do_flush_all(); end(); mc::note("  flush_all at %llu", (unsigned long long)t0);
        uint64 lo = 0, hi = 0;
        for (auto it = m.begin(); it != m.end();) { if (t0 >= it->second.hi) m.erase(it++); else { hi++; if (t1 < it->second.lo) lo++; ++it; } }
        uint64 n = count();
        if (n < lo || n > hi) mc::fail("flush_all left %llu items, between %llu and %llu are not expired", (unsigned long long)n, (unsigned long long)lo, (unsigned long long)hi);
    }
    void tick(uint64 by) { vclock::now_s += by; mc::note("  clock +%llus", (unsigned long long)by); }
    void record() { uint64 h = 3; for (auto & e : m) { h = mc::hcombine(h, mc::hstr(e.first)); h = mc::hcombine(h, mc::hstr(e.second.value)); h = mc::hcombine(h, e.second.lo == NEVER ? 0 : 1 + (e.second.lo > vclock::now_s ? e.second.lo - vclock::now_s : 0)); } mc::state(h); }
};

static const int N_KEYED = 14;
static void keyed(Timed & t, int c, const Key & k, int in) {
    switch (c) {
    case 0: t.get(k, in); break;
    case 1: t.set(k, "1", 1, 1, in); break;
    case 2: t.set(k, "22", 2, 0, in); break;
    case 3: t.set(k, "333", 3, 2, in); break;
    case 4: t.touch(k, 1, in); break;
    case 5: t.touch(k, 0, in); break;
    case 6: t.extend(k, "4", true, in); break;
    case 7: t.arith(k, 99, true, in); break;
    case 8: t.add(k, "5", 5, 1, in); break;
    case 9: t.replace(k, "6", 6, 2, in); break;
    case 10: t.del(k, in); break;
    case 11: t.extend(k, "7", false, in); break;
    case 12: t.arith(k, 3, false, in); break;
    case 13: t.cas(k, "8", 8, 2, true, in); break;
    }
}
static void finish(Timed & t, const std::vector<Key> & ks) {
    for (auto & k : ks) t.get(k, 0, true);
    for (int i = 0; i < 3; ++i) { t.tick(1); for (auto & k : ks) t.get(k, 0, true); }
    uint64 n = t.count(); if (n != t.m.size()) mc::fail("%llu items stored, %zu expected", (unsigned long long)n, t.m.size());
}
// all sequences; the clock advances between commands
static void between(int depth, int nkeys, int nops, uint32 h0, uint32 h1, uint32 h2, uint64 ns) {
    vclock::reset(); vclock::now_ns = ns; vclock::on_read = tick_hook; tick_countdown = 0;
    Timed t; std::vector<Key> ks{{"a", h0}, {"b", h1}, {"c", h2}};
    t.set(ks[2], "9", 9, 2); t.set(ks[0], "10", 10, 1); t.set(ks[1], "11", 11, 3);
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(nkeys * nops + 3);
        if (c == 0) t.tick(1); else if (c == 1) t.tick(2); else if (c == 2) t.flush(); else keyed(t, (c - 3) % nops, ks[(c - 3) / nops], 0);
        t.record();
    }
    finish(t, ks);
}
// the clock also advances inside one of the commands, before its n-th reading of the time
static void inside(int depth, int nkeys) {
    vclock::reset(); vclock::on_read = tick_hook; tick_countdown = 0;
    int where = mc::choose(depth), nth = 1 + mc::choose(4); tick_by = 1 + mc::choose(2);
    Timed t; std::vector<Key> ks{{"a", 5}, {"b", 5}, {"c", 5}};
    t.set(ks[2], "9", 9, 1); t.set(ks[0], "10", 10, 1); t.set(ks[1], "11", 11, 2);
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(nkeys * N_KEYED + 2); int in = d == where ? nth : 0;
        if (c == 0) t.tick(1); else if (c == 1) t.flush(in); else keyed(t, (c - 2) % N_KEYED, ks[(c - 2) / N_KEYED], in);
        t.record();
    }
    finish(t, ks);
}
// lifetimes of every magnitude at every clock reading
static void magnitudes() {
    vclock::reset();
    static const uint64 starts[] = {0, 1, 2, 1000, 65535, 0x7FFFFFF0ull, 0x7FFFFFFFull, 0x80000000ull, 0xFFFF0000ull, 0xFFFFFFF0ull};
    static const uint32 base[] = {1, 2, 59, 60, 255, 256, 3600, 65535, 65536, 86400, 2592000, 2592001, 16777216, 0x7FFFFFFFu, 0x80000000u, 0x80000001u, 0xFFFFFC17u, 0xFFFFFC16u, 0xFFFFFC18u, 0xFFFFFFF0u, 0xFFFFFFFEu, 0xFFFFFFFFu};
    vclock::now_s = mc::pick(starts); vclock::now_ns = mc::flip() ? 999999999 : 0;
    uint32 T = mc::pick(base);
    int how = mc::choose(9);
    Timed t; Key k{"k", 7}, o{"o", 7};
    uint64 s = vclock::now_s;
    t.set(o, "other", 3, 0);
    switch (how) {
    case 0: t.set(k, "5", 1, T); break;
    case 1: t.set(k, "5", 1, 0); t.touch(k, T); break;
    case 2: t.set(k, "5", 1, T); t.extend(k, "6", true); break;
    case 3: t.set(k, "5", 1, T); t.arith(k, 100, true); break;
    case 4: t.set(k, "5", 1, 1); t.set(k, "6", 1, T); break;
    case 5: t.set(k, "5", 1, 1); t.replace(k, "6", 1, T); break;
    case 6: t.add(k, "6", 1, T); t.extend(k, "0", false); t.arith(k, 1, false); break;
    case 7: t.set(k, "5", 1, T); t.touch(k, 0); t.arith(k, 1, false); break;
    case 8: t.set(k, "5", 1, T); t.cas(k, "9", 1, T, true); break;
    }
    uint64 e = s + T;
    const uint64 probes[] = {s, s + 1, s + T / 2, e - 2, e - 1, e, e + 1, CLOCK_MAX};
    std::vector<uint64> ps; for (uint64 p : probes) if (p >= s && p <= CLOCK_MAX) ps.push_back(p); std::sort(ps.begin(), ps.end());
    int end_op = mc::choose(5);
    for (size_t i = 0; i < ps.size(); ++i) {
        vclock::now_s = ps[i]; mc::note("  clock = %llu", (unsigned long long)ps[i]);
        if (i + 1 == ps.size() || t.at(s, T) <= ps[i]) {
            switch (end_op) { case 0: break; case 1: t.flush(); break; case 2: t.extend(k, "x", true); break; case 3: t.add(k, "again", 2, 0); break; case 4: t.del(k); break; }
        }
        t.get(k); t.get(o); t.record();
    }
}
// flush_all and expiration while the index grows and entries collide
static void crowd(int n, int hmode) {
    vclock::reset();
    Timed t; std::vector<Key> ks;
    cache::HashFunction f;
    for (int i = 0; i < n; ++i) { string s = "c" + std::to_string(i); ks.push_back(Key{s, hmode == 0 ? 3u : hmode == 1 ? (uint32)(i / 2) : (uint32)f(slice(s.data(), s.size()))}); }
    unsigned mask = 0; for (int i = 0; i < n; i += 1) if (i % (n / 5 ? n / 5 : 1) == 0) mask |= mc::choose(3) << (2 * (i / (n / 5 ? n / 5 : 1)));
    for (int i = 0; i < n; ++i) { int g = i * 5 / n; uint32 ttl = (mask >> (2 * g)) & 3; if ((i & 3) == 2) ttl = (ttl + 1) % 3; t.set(ks[i], std::to_string(i), i, ttl); }
    t.tick(1);
    int how = mc::choose(4);
    if (how == 0) t.flush();
    if (how == 1) for (auto & k : ks) t.get(k, 0, true);
    if (how == 2) for (auto & k : ks) t.add(k, "again", 1, 2);
    if (how == 3) for (auto & k : ks) t.del(k);
    t.record();
    finish(t, ks);
    t.flush();
}

int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("between-2keys", [=] { between(th ? 5 : 4, 2, N_KEYED, 5, 5, 5, 0); });
    mc::add("between-3keys-core", [=] { between(th ? 5 : 4, 3, 9, 7, 7, 8, 999999999); });
    mc::add("between-1key-deep", [=] { between(th ? 6 : 5, 1, N_KEYED, 0, 1, 2, 500000000); });
    mc::add("inside", [=] { inside(th ? 4 : 3, th ? 2 : 2); });
    mc::add("magnitudes", magnitudes);
    for (int n : {7, 30, 60}) for (int hm = 0; hm < 3; ++hm) mc::add("crowd-" + std::to_string(n) + "-h" + std::to_string(hm), [=] { crowd(n, hm); });
    return mc::main_(argc, argv);
}
