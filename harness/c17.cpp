// C17: running out of process memory never corrupts the cache or the server
#define VCLOCK_IMPL
#define NETSIM_IMPL
#define HEAP_IMPL
#include "heap.h"
#include "netsim.h"
#include "udpsim.h"
#include <cachelot/c_api.h>
#include <sys/un.h>
using namespace proto; using namespace netsim;
using cache::Cache; using cache::seconds;

static const uint64_t ALL = ~0ull;
// Faults: the body runs without faults first to count requests for memory, then once with every single request failing
// and once with every request failing from there to the end of the operation in progress.
struct Faults { uint64_t n = 0; bool rest = false; };
static std::map<string, uint64_t> counted;
template <class Body> static void with_faults(const string & id, bool rest_too, Body body) {
    auto it = counted.find(id);
    if (it == counted.end()) { heap::reset(); body(); uint64_t n = heap::requests; it = counted.emplace(id, n).first; }
    if (it->second == 0) throw mc::Prune();
    uint64_t c = mc::choose((int)it->second * (rest_too ? 2 : 1));
    heap::reset(); heap::fail_at = 1 + c % it->second; heap::fail_len = c >= it->second ? ALL : 1;
    mc::note("  request for memory %llu of %llu fails%s", (unsigned long long)heap::fail_at, (unsigned long long)it->second, heap::fail_len == ALL ? " and all that follow it in the same operation" : "");
    body();
    heap::fail_at = 0;
}
// one call into the code under test; afterwards there is memory again
enum Outcome { DONE, REFUSED };
template <class F> static Outcome call(F f) {
    bool before = heap::failed; Outcome r = DONE;
    { heap::Scope s; try { f(); } catch (const std::exception & e) { r = REFUSED; if (!heap::failed) { heap::Pause p; mc::fail("exception '%s' without a failure", e.what()); } } }
    if (heap::failed && !before) { heap::fail_len = 1; mc::note("  the failure hits here, %llu bytes, operation %s", (unsigned long long)heap::fail_bytes, r == DONE ? "goes on" : "is refused"); }
    else if (r == REFUSED) mc::fail("an operation after the failure is refused");
    return r;
}
// ---------------------------------------------------------------------------------------------- the cache
struct C {
    std::unique_ptr<Cache> c; std::map<string, string> m; cache::HashFunction hf;
    static slice S(const string & s) { return slice(s.data(), s.size()); }
    C(size_t page, size_t pages, size_t dict, bool evict) { vclock::reset(); c.reset(new Cache(Cache::Create(page * pages, page, dict, evict))); }
    bool store(int how, const string & k, const string & v) {
        bool stored = false; uint64_t id = 0; uint32_t h = hf(S(k)); { auto i = c->do_get(S(k), h); if (i) id = i->timestamp(); }
        bool had = m.count(k); slice ks = S(k), vs = S(v); Cache * p = c.get();
        Outcome o = call([&] {
            auto it = p->create_item(ks, h, (uint32_t)vs.length(), 7, seconds(0)); it->assign_value(vs);
            switch (how) { case 0: p->do_set(it); stored = true; break; case 1: stored = p->do_add(it); break; case 2: stored = p->do_replace(it); break; case 3: stored = p->do_append(it); break; case 4: stored = p->do_prepend(it); break; default: { auto r = p->do_cas(it, id); stored = std::get<0>(r) && std::get<1>(r); } }
        });
        bool should = how == 0 || (how == 1 ? !had : had);
        if (o == REFUSED) return false;
        if (stored != should) mc::fail("operation %d of '%s' returned %d", how, k.c_str(), stored);
        if (stored) { string & x = m[k]; x = how == 3 ? x + v : how == 4 ? v + x : v; }
        return true;
    }
    void incr(const string & k, bool up, uint64_t d) {
        bool had = m.count(k); uint32_t h = hf(S(k)); slice ks = S(k); Cache * p = c.get(); bool found = false; uint64_t v = 0;
        Outcome o = call([&] { auto r = up ? p->do_incr(ks, h, d) : p->do_decr(ks, h, d); found = std::get<0>(r); v = std::get<1>(r); });
        if (o == REFUSED) return;
        if (found != had) mc::fail("incr '%s' returned %d", k.c_str(), found);
        if (found) m[k] = std::to_string(v);
    }
    void del(const string & k) { bool had = m.count(k), r = false; uint32_t h = hf(S(k)); slice ks = S(k); Cache * p = c.get(); if (call([&] { r = p->do_delete(ks, h); }) == REFUSED) return; if (r != had) mc::fail("delete '%s' returned %d", k.c_str(), r); m.erase(k); }
    void touch(const string & k) { bool had = m.count(k), r = false; uint32_t h = hf(S(k)); slice ks = S(k); Cache * p = c.get(); if (call([&] { r = p->do_touch(ks, h, seconds(1000)); }) == REFUSED) return; if (r != had) mc::fail("touch '%s' returned %d", k.c_str(), r); }
    void flush() { Cache * p = c.get(); call([&] { p->do_flush_all(); }); }
    void check(const char * when, int all) {
        for (auto & x : m) { bool ok = false; { auto i = c->do_get(S(x.first), hf(S(x.first))); ok = i && i->value() == S(x.second) && i->opaque_flags() == 7; } if (!ok) mc::fail("%s: item '%s' is lost or changed", when, x.first.c_str()); }
        for (int i = 0; i < all; ++i) { string k = key(i); if (!m.count(k) && c->do_get(S(k), hf(S(k)))) mc::fail("%s: item '%s' which is not stored is found", when, k.c_str()); }
    }
    static string key(int i) { return "key" + std::to_string(i); }
    // removes everything; the memory of the cache must be complete: `room` items fit
    size_t room() { size_t n = 0; string v(200, 'r'); try { for (;; ++n) { string k = "room" + std::to_string(n); auto i = c->create_item(S(k), hf(S(k)), 200, 0, seconds(0)); i->assign_value(S(v)); c->do_set(i); } } catch (const std::exception &) {} return n; }
};
static std::map<string, size_t> rooms;
static void finish(C & x, const string & id, int all) {
    bool faulty = heap::fail_at != 0; heap::fail_at = 0; x.check("after the history", all);
    // everything works normally afterwards: the index still grows
    for (int i = 0; i < 40; ++i) { if (!x.store(0, "later" + std::to_string(i), std::to_string(i))) mc::fail("later store refused"); }
    x.check("after later stores", all);
    auto copy = x.m; for (auto & e : copy) x.del(e.first); x.check("after deleting everything", all);
    size_t n = x.room(); size_t & ref = rooms[id]; if (!faulty) ref = n; else if (n != ref) mc::fail("%zu items fit into the emptied cache, %zu without the failure: memory of the cache is lost", n, ref);
    mc::state(mc::hcombine(mc::hstr(id), heap::requests));
}
static void growth(size_t dict, int n) {
    string id = "growth" + std::to_string(dict) + "-" + std::to_string(n);
    with_faults(id, true, [&] {
        { C x(4096, 32, dict, false);
        for (int i = 0; i < n; ++i) {
            x.store(0, C::key(i), "value" + std::to_string(i));
            if (i % 3 == 2) x.del(C::key(i / 2)); if (i % 5 == 4) x.store(i % 2 ? 3 : 4, C::key(i - 1), "+"); if (i % 7 == 6) x.store(2, C::key(i - 2), "replaced"); if (i % 11 == 10) x.touch(C::key(i));
            if (heap::failed) x.check("after an operation", n);
        }
        finish(x, id, n); }
    });
}
// the index is filled up to every level, then every operation is interrupted
static void single(int max_fill) {
    static const size_t dicts[] = {1, 2, 4, 16}; size_t dict = mc::pick(dicts); int fill = mc::choose(max_fill + 1), op = mc::choose(12), target = mc::choose(2), deleted = mc::choose(2);
    string id = "single" + std::to_string(dict) + "-" + std::to_string(fill) + "-" + std::to_string(op) + "-" + std::to_string(target) + "-" + std::to_string(deleted);
    with_faults(id, true, [&] {
        { C x(4096, 8, dict, false); uint64_t at = heap::fail_at, base; heap::fail_at = 0;
        for (int i = 0; i < fill; ++i) x.store(0, C::key(i), std::to_string(i));
        if (deleted && fill > 1) x.del(C::key(fill / 2));
        heap::requests = 0; heap::fail_at = at;
        string k = C::key(target ? 0 : 90);
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: case 5: x.store(op, k, "55"); break;
        case 6: x.incr(k, true, 3); break; case 7: x.incr(k, false, 3); break; case 8: x.del(k); break; case 9: x.touch(k); break; case 10: x.flush(); break;
        case 11: x.store(0, k, "1"); x.store(0, C::key(91), "2"); x.store(0, C::key(92), "3"); break;
        }
        uint64_t used = heap::requests; x.check("after the operation", 95); finish(x, id, 95); heap::requests = used; (void)base; }
    });
}
static void create() {
    static const size_t mem[] = {4 * 4096, 16 * 4096, 1 << 20}; static const size_t dicts[] = {1, 2, 16, 4096}; size_t mi = mc::pick(mem), d = mc::pick(dicts); bool ev = mc::flip();
    string id = "create" + std::to_string(mi) + "-" + std::to_string(d);
    with_faults(id, true, [&] {
        { std::unique_ptr<Cache> c; Outcome o = call([&] { Cache x = Cache::Create(mi, 4096, d, ev); c.reset(new Cache(std::move(x))); });
          if (c) { heap::Scope s; c.reset(); } if (o == DONE && heap::failed && heap::fail_len == ALL) mc::fail("cache is created without memory"); }
        MC_CHECK(heap::live == 0, "a failed creation leaves %ld blocks of memory", heap::live);
        uint64_t used = heap::requests; heap::fail_at = 0; { C x(4096, 4, d, ev); x.store(0, "a", "b"); x.check("new cache", 0); } heap::requests = used;
    });
    mc::state(mc::hcombine(mi, d * 2 + ev));
}
// ---------------------------------------------------------------------------------------------- the C interface
static CachelotItemKey ck(const string & k) { CachelotItemKey r; r.key = k.data(); r.keylen = k.size(); cache::HashFunction hf; r.hash = hf(slice(k.data(), k.size())); return r; }
struct Api {
    CachelotError err; CachelotError * e; CachelotPtr c = nullptr; std::map<string, string> m;
    explicit Api(bool with_err) : e(with_err ? &err : nullptr) { vclock::reset(); }
    // one call; returns whether it was hit by the failure for the first time
    template <class F> bool api(const char * what, bool expect_error, bool expected, F f) {
        bool before = heap::failed, r; memset(&err, 0x5a, sizeof err); { heap::Scope s; r = f(); } bool hit = heap::failed && !before; if (hit) { heap::fail_len = 1; mc::note("  the failure hits %s, result %d", what, r); }
        if (e) {
            if (!memchr(err.desription, 0, sizeof err.desription)) mc::fail("%s: error description is not terminated", what);
            bool errored = err.desription[0] != 0;
            if (expect_error && !errored) mc::fail("%s: no error reported", what);
            if (!expect_error && errored && !hit) mc::fail("%s: error '%s' without lack of memory", what, err.desription);
            if (hit && r != expected && !errored) mc::fail("%s: returns %d without an error", what, r);
            if (errored && r) mc::fail("%s: succeeds and reports '%s'", what, err.desription);
        }
        if (!hit && r != expected) mc::fail("%s returns %d", what, r);
        mc::step(); return r;
    }
    void check(const char * w, int n) {
        for (int i = 0; i < n; ++i) {
            string k = "k" + std::to_string(i); auto x = m.find(k); CachelotConstItemPtr it = cachelot_get_unsafe(c, ck(k), e);
            if (!it) { if (x != m.end()) mc::fail("%s: '%s' is lost", w, k.c_str()); continue; }
            if (x == m.end()) mc::fail("%s: '%s' is found but was not stored", w, k.c_str());
            if (string(cachelot_item_get_value(it), cachelot_item_get_valuelen(it)) != x->second) mc::fail("%s: '%s' is changed", w, k.c_str());
        }
    }
};
static void c_interface(int n) {
    static const size_t dicts[] = {1, 16}; size_t d = mc::pick(dicts); bool with_err = mc::flip();
    with_faults("c" + std::to_string(d) + (with_err ? "e" : "-"), true, [&] {
        Api a(with_err); CachelotOptions o; o.memory_limit = 16 * 4096; o.mem_page_size = 4096; o.initial_dict_size = d; o.enable_evictions = false;
        for (int tries = 0; !a.c; ++tries) { a.api("init", false, true, [&] { a.c = cachelot_init(o, a.e); return a.c != nullptr; }); if (tries > 2) mc::fail("init fails for ever"); }
        for (int i = 0; i < n; ++i) {
            string k = "k" + std::to_string(i), v = std::to_string(100 + i), pk = "k" + std::to_string(i / 2), big(300, 'x'); CachelotItemPtr it = nullptr; auto key = ck(k); uint64_t res = 0;
            if (a.api("create_item", false, true, [&] { it = cachelot_create_item_raw(a.c, key, v.data(), v.size(), a.e); return it != nullptr; }))
                if (a.api("set", false, true, [&] { return cachelot_set(a.c, it, a.e); })) a.m[k] = v;
            auto pkey = ck(pk); if (a.api("incr", false, a.m.count(pk) > 0, [&] { return cachelot_incr(a.c, pkey, 5, &res, a.e); })) a.m[pk] = std::to_string(res);
            if (a.api("create_item", false, true, [&] { it = cachelot_create_item_raw(a.c, pkey, "7", 1, a.e); return it != nullptr; })) { bool ap = i % 2; if (a.api("append", false, a.m.count(pk) > 0, [&] { return ap ? cachelot_append(a.c, it, a.e) : cachelot_prepend(a.c, it, a.e); })) { string & x = a.m[pk]; x = ap ? x + "7" : "7" + x; } }
            auto bkey = ck(big); a.api("create_item with a long key", true, false, [&] { return cachelot_create_item_raw(a.c, bkey, "v", 1, a.e) != nullptr; });
            if (i % 4 == 3) { string dk = "k" + std::to_string(i / 4); auto dkey = ck(dk); if (a.api("delete", false, a.m.count(dk) > 0, [&] { return cachelot_delete(a.c, dkey, a.e); })) a.m.erase(dk); }
            if (i % 9 == 8) { string tk = "k" + std::to_string(i / 9); auto tkey = ck(tk); a.api("touch", false, a.m.count(tk) > 0, [&] { return cachelot_touch(a.c, tkey, 500, a.e); }); }
            if (heap::failed) a.check("after an operation", n);
        }
        uint64_t used = heap::requests; heap::fail_at = 0; a.check("at the end", n); { heap::Scope s; cachelot_destroy(a.c); } mc::state(mc::hcombine(d * 2 + with_err, heap::requests)); heap::requests = used;
        MC_CHECK(heap::live == 0, "%ld blocks of memory are left", heap::live);
    });
}
// ---------------------------------------------------------------------------------------------- the protocol layer
// wire text of a session; every command is fed alone, a reply that is an error or a closed connection is only accepted for the interrupted one
struct Proto {
    cache::Cache c; Model m; io_buffer * recv = nullptr, * send = nullptr;
    Proto(size_t dict) : c(Cache::Create(64 * 4096, 4096, dict, true)) { vclock::reset(); settings.cache.page_size = 4096; open(); }
    ~Proto() { delete recv; delete send; }
    void open() { delete recv; delete send; recv = new io_buffer(default_min_buffer_size, 1 << 20); send = new io_buffer(default_min_buffer_size, 1 << 20); }
    net::ConversationReply handle() { heap::Scope s; try { return memcached::handle_received_data(*recv, *send, c); } catch (const std::exception &) { return net::CLOSE_IMMEDIATELY; } }
    bool write(const string & s) { try { char * p; { heap::Scope h; p = recv->begin_write(s.size()); } memcpy(p, s.data(), s.size()); recv->confirm_write(s.size()); return true; } catch (const std::exception &) { return false; } }
    // the state of one key when a command may or may not have been applied
    void resync(const string & k) {
        cache::HashFunction hf; auto i = c.do_get(slice(k.data(), k.size()), hf(slice(k.data(), k.size())));
        auto it = m.m.find(k); if (!i) { m.m.erase(k); return; } m.m[k] = Item{i->value().str(), i->opaque_flags(), true, 0, 0};
    }
    void verify(const string & except) { for (auto & x : m.m) if (x.first != except) { cache::HashFunction hf; auto i = c.do_get(slice(x.first.data(), x.first.size()), hf(slice(x.first.data(), x.first.size()))); if (!i || i->value().str() != x.second.v || i->opaque_flags() != x.second.flags) mc::fail("item '%s' is lost or changed", x.first.c_str()); } for (auto k : {"victim", "k", "b", "n"}) if (string(k) != except && !m.m.count(k)) { cache::HashFunction hf; if (c.do_get(slice(k, strlen(k)), hf(slice(k, strlen(k))))) mc::fail("item '%s' appeared", k); } }
    // feeds the command in pieces
    void run(Cmd x, const std::vector<size_t> & cuts) {
        string w = m.wire(x); bool er; bool before = heap::failed; Model old = m; string pat = m.apply(x, er); string got; bool closed = false; size_t at = 0;
        for (size_t i = 0; i <= cuts.size() && !closed; ++i) {
            size_t to = i < cuts.size() ? std::min(cuts[i], w.size()) : w.size(); if (to <= at) continue;
            if (!write(w.substr(at, to - at))) { closed = true; break; } at = to;
            for (bool more = true; more && !closed;) {
                more = false; size_t un = recv->non_read();
                switch (handle()) {
                case net::SEND_REPLY_AND_READ: got.append(send->begin_read(), send->non_read()); send->confirm_read(send->non_read()); send->compact(); more = recv->non_read() > 0; break;
                case net::READ_MORE: if (send->non_read()) mc::fail("a reply is left unsent"); more = recv->non_read() > 0 && recv->non_read() < un; break;
                case net::CLOSE_IMMEDIATELY: closed = true; break;
                }
            }
            recv->compact(); if (heap::failed) heap::fail_len = 1;
        }
        if (heap::failed) heap::fail_len = 1; bool now = heap::failed && !before; string k = x.ks.empty() ? "" : x.ks[0];
        mc::note("  '%s' -> '%s'%s%s", show(w, 40).c_str(), show(got, 40).c_str(), closed ? " closed" : "", now ? " (failure)" : "");
        if (closed) { if (!now) mc::fail("the connection is closed without lack of memory"); open(); }
        bool error = now && (closed || got.compare(0, 13, "SERVER_ERROR ") == 0 || (x.noreply && got.empty()));
        if (error) {
            if (!closed && !x.noreply && (got.find("\r\n") != got.size() - 2)) mc::fail("one command is answered '%s'", show(got).c_str());
            m = old; verify(k); if (!k.empty()) { auto o = old.m.find(k); Item was{}; bool had = o != old.m.end(); if (had) was = o->second; resync(k); auto n = m.m.find(k); bool have = n != m.m.end();
                Model applied = old; bool e2; applied.apply(x, e2); auto a = applied.m.find(k);
                bool same_old = have == had && (!have || (n->second.v == was.v && n->second.flags == was.flags)), same_new = have == (a != applied.m.end()) && (!have || (n->second.v == a->second.v && n->second.flags == a->second.flags));
                if (!same_old && !same_new) mc::fail("interrupted command leaves '%s' as '%s'", k.c_str(), have ? show(n->second.v).c_str() : "(missing)"); m.seen = old.seen; m.ids = old.ids; }
            return;
        }
        size_t e = m.match(x, pat, got, 0, "session"); if (e != got.size()) mc::fail("'%s' is answered '%s', expected '%s'", show(w).c_str(), show(got).c_str(), show(pat).c_str());
        if (now) verify("");
    }
};
static const int SESSIONS = 8;
template <class Run> static void session(int which, Run run) {
    string evil = "delete victim\r\nset victim 0 0 1\r\nX\r\n"; evil += fill(1500, 3); evil += "\r\ndelete victim\r\n";
    run(store(SET, "victim", "precious", 9), std::vector<size_t>{});
    switch (which) {
    case 0: run(store(SET, "k", fill(900, 1), 3), std::vector<size_t>{}); run(get({"k", "victim"}), std::vector<size_t>{}); run(get({"k"}, true), std::vector<size_t>{}); run(store(APPEND, "k", fill(600, 2)), std::vector<size_t>{}); run(get({"k"}), std::vector<size_t>{}); break;
    case 1: run(store(SET, "b", evil, 3), std::vector<size_t>{10, 17, 30, 400, 520, 900}); run(get({"b"}), std::vector<size_t>{3}); run(store(SET, "b", evil, 4, 0, true), std::vector<size_t>{17, 19, 55}); run(get({"b"}), std::vector<size_t>{}); break;
    case 2: for (int i = 0; i < 30; ++i) { run(store(i % 3 ? SET : ADD, "g" + std::to_string(i), std::to_string(i), i), std::vector<size_t>{}); } run(get({"g1", "g29"}), std::vector<size_t>{}); break;
    case 3: run(store(SET, "n", "99", 0), std::vector<size_t>{}); run(key_cmd(INCR, "n", 1), std::vector<size_t>{4}); run(key_cmd(DECR, "n", 95), std::vector<size_t>{}); run(key_cmd(INCR, "victim", 1), std::vector<size_t>{}); run(key_cmd(INCR, "n", 1, true), std::vector<size_t>{}); run(key_cmd(INCR, "victim", 1, true), std::vector<size_t>{}); run(key_cmd(TOUCH, "n", 0), std::vector<size_t>{}); run(key_cmd(DELETE, "n"), std::vector<size_t>{}); run(key_cmd(DELETE, "n"), std::vector<size_t>{}); break;
    case 4: run(plain(STATS), std::vector<size_t>{2}); run(plain(VERSION), std::vector<size_t>{}); run(plain(FLUSH), std::vector<size_t>{}); run(plain(STATS), std::vector<size_t>{}); break;
    case 5: run(store(SET, "k", fill(3000, 4), 1), std::vector<size_t>{}); run(get({"k", "k", "k", "k"}, true), std::vector<size_t>{5}); run(store(CAS, "k", "new", 2), std::vector<size_t>{}); run(store(REPLACE, "k", "newer", 2), std::vector<size_t>{18}); run(store(PREPEND, "k", "pre", 2), std::vector<size_t>{}); run(get({"k"}, true), std::vector<size_t>{}); break;
    case 6: { string longkey(250, 'K'); run(store(SET, longkey, fill(100, 1), 1), std::vector<size_t>{100, 240}); run(get({longkey, "victim", longkey}), std::vector<size_t>{200, 300, 500}); run(key_cmd(DELETE, longkey), std::vector<size_t>{}); break; }
    case 7: run(store(SET, "k", fill(20, 4), 1, 0, true), std::vector<size_t>{}); run(store(ADD, "k", fill(2000, 4), 1, 0, true), std::vector<size_t>{16, 600, 1200}); run(store(SET, "b", "1", 1), std::vector<size_t>{}); run(key_cmd(DELETE, "k", 0, true), std::vector<size_t>{}); run(get({"k", "b"}), std::vector<size_t>{}); break;
    }
    run(get({"victim"}), std::vector<size_t>{});
}
static void protocol() {
    int which = mc::choose(SESSIONS); static const size_t dicts[] = {1, 16}; size_t d = mc::pick(dicts);
    with_faults("proto" + std::to_string(which) + "-" + std::to_string(d), true, [&] { Proto p(d); session(which, [&](Cmd x, const std::vector<size_t> & cuts) { p.run(x, cuts); }); p.verify(""); mc::state(mc::hcombine(which * 2 + d, mc::hcombine(p.m.hash(), heap::fail_at))); });
}
// ---------------------------------------------------------------------------------------------- whole connections
// every request for memory made while the event loop runs: buffers, protocol, cache, asynchronous operations
struct Net {
    World w; Model m; Client * k = nullptr; Client * other = nullptr; bool was_hit = false;
    Net(size_t dict) : w(64 * 4096, 4096, dict, true, 1 << 20, 1 << 20) { vclock::reset(); }
    bool connect(Client *& c) {
        bool before = heap::failed; try { c = &w.connect(); } catch (const std::exception &) { c = w.cl.back().get(); c->eof = true; if (!heap::failed || before) mc::fail("connecting fails without lack of memory"); }
        settle(); return !c->eof;
    }
    void settle() { try { w.settle(); } catch (const std::exception & e) { mc::fail("exception '%s' leaves the event loop: the server ends", e.what()); } }
    void verify(const string & except) { for (auto & x : m.m) if (x.first != except) { cache::HashFunction hf; auto i = w.c.do_get(slice(x.first.data(), x.first.size()), hf(slice(x.first.data(), x.first.size()))); if (!i || i->value().str() != x.second.v || i->opaque_flags() != x.second.flags) mc::fail("item '%s' is lost or changed", x.first.c_str()); } }
    void run(Client *& c, Cmd x, const std::vector<size_t> & cuts, const char * who) {
        while (!c || c->eof) { if (c && !c->eof) break; if (connect(c)) break; }
        string s = m.wire(x); bool er, before = heap::failed; Model old = m; string pat = m.apply(x, er); size_t from = c->got.size(), at = 0;
        for (size_t i = 0; i <= cuts.size() && !c->eof; ++i) { size_t to = i < cuts.size() ? std::min(cuts[i], s.size()) : s.size(); if (to <= at) continue; w.send(*c, s.substr(at, to - at)); at = to; settle(); }
        string got = c->got.substr(from); bool now = heap::failed && !before;
        mc::note("  %s: '%s' -> '%s'%s%s", who, show(s, 40).c_str(), show(got, 40).c_str(), c->eof ? " closed" : "", now ? " (failure)" : "");
        if (c->eof && !now) mc::fail("%s: the connection is closed without lack of memory", who);
        if (now && (c->eof || got.compare(0, 13, "SERVER_ERROR ") == 0 || (x.noreply && got.empty()))) {
            if (c->eof ? false : !x.noreply && got.find("\r\n") != got.size() - 2) mc::fail("%s: one command is answered '%s'", who, show(got).c_str());
            string k = x.ks.empty() ? "" : x.ks[0]; m = old; verify(k);
            if (!k.empty()) { cache::HashFunction hf; auto i = w.c.do_get(slice(k.data(), k.size()), hf(slice(k.data(), k.size()))); Model applied = old; bool e2; applied.apply(x, e2);
                auto same = [&](Model & z) { auto f = z.m.find(k); return f == z.m.end() ? !i : i && i->value().str() == f->second.v && i->opaque_flags() == f->second.flags; };
                if (same(old)) {} else if (same(applied)) { m.m = applied.m; auto f = m.m.find(k); if (f != m.m.end()) f->second.id = 0; } else mc::fail("%s: interrupted command leaves '%s' changed", who, k.c_str()); }
            return;
        }
        size_t e = m.match(x, pat, got, 0, who); if (e != got.size()) mc::fail("%s: '%s' is answered '%s', expected '%s'", who, show(s).c_str(), show(got).c_str(), show(pat).c_str());
        if (now) verify("");
    }
};
static void connections() {
    int which = mc::choose(SESSIONS); static const size_t dicts[] = {1, 16}; size_t d = mc::pick(dicts);
    with_faults("net" + std::to_string(which) + "-" + std::to_string(d), false, [&] {
        Net n(d); n.run(n.other, store(SET, "o", "other client", 5), {}, "other");
        session(which, [&](Cmd x, const std::vector<size_t> & cuts) { n.run(n.k, x, cuts, "client"); n.run(n.other, get({"o"}), {}, "other"); });
        n.verify(""); mc::state(mc::hcombine(which * 2 + d, mc::hcombine(n.m.hash(), heap::fail_at)));
    });
}
// accepting connections: a failure while a connection is accepted must not stop the server from accepting later ones
// (requests made inside the networking library while it registers the accepted socket are not the server's own and are not made to fail)
struct Accepting : net::stream_server<net::local::stream_protocol::socket, Accepting> {
    memcached::UnixSocketServer inner;
    Accepting(Cache & c, net::io_service & ios) : net::stream_server<net::local::stream_protocol::socket, Accepting>(ios), inner(c, ios) {}
    auto new_conversation() -> decltype(inner.new_conversation()) { heap::Scope s; return inner.new_conversation(); }
};
static void accepting() {
    int n = mc::choose(3) + 1;
    with_faults("accept" + std::to_string(n), false, [&] {
        vclock::reset(); string path = string(1, 0) + "verif-c17-" + std::to_string(getpid());     // an abstract address, no file
        Cache c = Cache::Create(64 * 4096, 4096, 16, true); settings.cache.page_size = 4096; settings.net.max_rcv_buffer_size = settings.net.max_snd_buffer_size = 1 << 20; plan.clear();
        net::io_service ios; Accepting srv(c, ios); bool up = false; std::vector<int> fds;
        struct Close { std::vector<int> & f; ~Close() { for (int x : f) ::close(x); } } closer{fds};
        for (int tries = 0; !up; ++tries) { try { srv.start(net::local::stream_protocol::endpoint(path)); up = true; } catch (const std::exception &) { if (!heap::failed) mc::fail("start fails"); return; } }
        auto poll = [&] { for (int idle = 0; idle < 2;) { size_t k; try { ios.restart(); k = ios.poll(); } catch (const std::exception & e) { mc::fail("exception '%s' leaves the event loop: the server ends", e.what()); } idle = k ? 0 : idle + 1; mc::step(); } };
        int served = 0;
        for (int i = 0; i < n + 1; ++i) {
            bool before = heap::failed; int fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); fds.push_back(fd); sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; memcpy(a.sun_path, path.data(), path.size());
            if (::connect(fd, (sockaddr *)&a, (socklen_t)(offsetof(sockaddr_un, sun_path) + path.size()))) mc::fail("client %d cannot connect", i);
            poll(); ::syscall(SYS_sendto, fd, "version\r\n", 9, MSG_NOSIGNAL, nullptr, 0); poll();
            char b[256]; ssize_t r = ::syscall(SYS_recvfrom, fd, b, sizeof b, MSG_DONTWAIT, nullptr, nullptr);
            bool ok = r > 10 && !memcmp(b, "VERSION ", 8); bool now = heap::failed && !before; mc::note("  client %d: %s%s", i, ok ? "served" : "not served", now ? " (failure)" : "");
            if (!ok && !now) mc::fail("client %d is not served", i); served += ok;
        }
        mc::state(mc::hcombine(n * 10 + served, heap::fail_at));
        srv.stop(); 
    });
}
// datagrams: the interrupted request is dropped or answered completely, later requests are answered as usual
static void datagrams() {
    int which = mc::choose(SESSIONS); static const size_t dicts[] = {1, 16}; size_t d = mc::pick(dicts);
    with_faults("udp" + std::to_string(which) + "-" + std::to_string(d), false, [&] {
        using namespace udpsim; vclock::reset(); Cache c = Cache::Create(64 * 4096, 4096, d, true); settings.cache.page_size = 4096; busy.clear(); send_no = 0; blocked = 0; server_fd = -1;
        net::io_service ios; std::unique_ptr<memcached::UdpServer> srv(new memcached::UdpServer(c, ios)); capture = true; srv->start(net::udp::endpoint(net::asio::ip::address_v4::loopback(), 0)); capture = false;
        Model m; int seq = 0;
        session(which, [&](Cmd x, const std::vector<size_t> &) {
            string w = m.wire(x), h(8, 0); h[1] = (char)++seq; h[5] = 1; string dg = h + w; bool er, before = heap::failed; Model old = m; string pat = m.apply(x, er); outgoing.clear();
            senders.push_back(40000); if (::syscall(SYS_sendto, net_fd, dg.data(), dg.size(), MSG_DONTWAIT, nullptr, 0) != (long)dg.size()) { perror("sendto"); abort(); }
            for (int idle = 0; idle < 2;) { size_t k; try { heap::Scope s; ios.restart(); k = ios.poll(); } catch (const std::exception & e) { heap::Pause p; mc::fail("exception '%s' leaves the event loop: the server ends", e.what()); } idle = k ? 0 : idle + 1; mc::step(); }
            bool now = heap::failed && !before; mc::note("  '%s' -> %zu datagrams%s", show(w, 40).c_str(), outgoing.size(), now ? " (failure)" : "");
            if (outgoing.size() > 1) mc::fail("one request is answered by %zu datagrams", outgoing.size());
            string got; if (!outgoing.empty()) { if (outgoing[0].second.compare(0, 8, h) != 0) mc::fail("the reply has another header '%s'", show(outgoing[0].second).c_str()); got = outgoing[0].second.substr(8); }
            if (now && (outgoing.empty() || got.compare(0, 13, "SERVER_ERROR ") == 0)) {
                m = old; string k = x.ks.empty() ? "" : x.ks[0]; Model applied = old; bool e2; applied.apply(x, e2); cache::HashFunction hf;
                for (auto & z : old.m) if (z.first != k) { auto i = c.do_get(slice(z.first.data(), z.first.size()), hf(slice(z.first.data(), z.first.size()))); if (!i || i->value().str() != z.second.v) mc::fail("item '%s' is lost or changed", z.first.c_str()); }
                if (!k.empty()) { auto i = c.do_get(slice(k.data(), k.size()), hf(slice(k.data(), k.size()))); auto same = [&](Model & z) { auto f = z.m.find(k); return f == z.m.end() ? !i : i && i->value().str() == f->second.v && i->opaque_flags() == f->second.flags; }; if (same(old)) {} else if (same(applied)) { m.m = applied.m; auto f = m.m.find(k); if (f != m.m.end()) f->second.id = 0; } else mc::fail("interrupted command leaves '%s' changed", k.c_str()); }
                return;
            }
            if (outgoing.empty()) { if (!x.noreply) mc::fail("'%s' is not answered", show(w).c_str()); return; }
            if (x.noreply) mc::fail("noreply command is answered '%s'", show(got).c_str());
            size_t e = m.match(x, pat, got, 0, "datagram"); if (e != got.size()) mc::fail("'%s' is answered '%s', expected '%s'", show(w).c_str(), show(got).c_str(), show(pat).c_str());
        });
        mc::state(mc::hcombine(which * 2 + d, mc::hcombine(m.hash(), heap::fail_at)));
        srv->close(); ios.restart(); ios.poll(); srv.reset(); ::close(net_fd); server_fd = net_fd = -1; netsim::dgram_fd = -1;
    });
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    static const size_t ds[] = {1, 2, 16, 64};
    mc::add("growth", [=] { growth(ds[mc::choose(4)], 40); });
    mc::add("growth-long", [=] { growth(ds[mc::choose(4)], th ? 1500 : 400); });
    mc::add("single", [=] { single(th ? 80 : 40); });
    mc::add("create", create);
    mc::add("c-interface", [=] { c_interface(th ? 120 : 40); });
    mc::add("protocol", protocol); mc::add("connections", connections); mc::add("accepting", accepting); mc::add("datagrams", datagrams);
    return mc::main_(argc, argv);
}
