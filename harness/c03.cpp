// C03: without evictions nothing is lost, refusals change nothing, memory is fully reusable
#define VCLOCK_IMPL
#include "cl.h"
using namespace cl;

static Key mkkey(int i, int hmode) {
    char b[24]; snprintf(b, sizeof b, "k%d", i);
    uint32 h; switch (hmode) { case 0: h = 1 + i; break; case 1: h = 5; break; case 2: h = 15 + 16 * (i % 3); break; case 3: h = (uint32)i % 3; break; default: { cache::HashFunction f; h = f(slice(b, strlen(b))); } }
    return Key{b, h};
}
// number of maximum-size items that fit into s right now
static int count_max(Sut & s) {
    int n = 0;
    for (;; ++n) { Key k{"max" + std::to_string(n), (uint32)(n * 77 + 1)}; k.k.resize(8, '_'); if (s.set(k, fill(s.max_value(k.k), n), 1) != OK) break; if (n > 4096) mc::fail("more items fit than there is memory"); }
    return n;
}
static int fresh_max(size_t pages, size_t psz, size_t dict) {
    static std::map<std::pair<size_t, size_t>, int> memo;
    auto it = memo.find({pages, psz}); if (it != memo.end()) return it->second;
    Sut f(pages, psz, dict, false);
    return memo[{pages, psz}] = count_max(f);
}

struct World {
    Sut s; std::vector<Key> ever; int hmode; size_t limit;
    World(size_t pages, size_t psz, size_t dict, int hm) : s(pages, psz, dict, false), hmode(hm) {}
    Key key(int i) { Key k = mkkey(i, hmode); for (auto & e : ever) if (e.k == k.k) return k; ever.push_back(k); return k; }
    size_t half(const Key & k) { return (s.page_size / 2) - memalloc::header_size() - Sut::overhead(k.k); }
    size_t full(const Key & k) { return s.max_value(k.k); }
    void op(int o, const Key & k, unsigned seed) {
        switch (o) {
        case 0: s.set(k, fill(3, seed), seed); break;
        case 1: s.set(k, fill(half(k), seed), seed); break;
        case 2: s.set(k, fill(full(k), seed), seed); break;
        case 3: s.del(k); break;
        case 4: s.append(k, fill(30, seed)); break;
        case 5: s.set(k, "99", 3); break;
        case 6: s.incr(k, 1); break;
        case 7: s.add(k, fill(half(k), seed), 4); break;
        case 8: s.replace(k, fill(60, seed), 5); break;
        case 9: s.cas(k, fill(20, seed), ~0ULL); break;                     // never matches
        case 10: s.prepend(k, fill(half(k), seed)); break;
        case 11: s.set(k, fill(full(k) + 1, seed), 6); break;               // too big
        case 12: { Key l{string(251, 'L'), k.h}; s.set(l, "x"); break; }     // key too long
        case 13: { s.begin(); cache::ItemPtr i = nullptr; try { i = s.c->create_item(slice(k.k.data(), k.k.size()), k.h, 70, 0, cache::seconds(0)); } catch (const system_error & e) { if (classify(e) != ERR_OOM) mc::fail("create_item failed with %s", rname(classify(e))); } if (i) s.c->destroy_item(i); mc::note("  create+destroy '%s'", k.k.c_str()); break; }
        case 14: s.set(k, fill(half(k) / 2, seed), 7, 1); break;             // with a lifetime
        case 15: s.touch(k, 1); break;
        case 16: s.flush(); break;
        case 17: vclock::now_s++; mc::note("  clock +1s"); break;
        case 18: s.get(k); break;
        case 19: s.decr(k, 1); break;
        }
    }
    void verify() { for (auto & k : ever) s.get(k, true); }
    // empties the cache in one of several ways and demands all memory back
    void drain() {
        verify();
        int way = mc::choose(6);
        mc::note("  -- drain %d", way);
        if (way < 4) {
            std::vector<Key> ks; for (auto & k : ever) if (s.m.count(k.k)) ks.push_back(k);
            if (way == 1) std::reverse(ks.begin(), ks.end());
            if (way == 2) std::stable_partition(ks.begin(), ks.end(), [&](const Key & k) { return (&k - &ks[0]) % 2 == 0; });
            if (way == 3) { std::sort(ks.begin(), ks.end(), [&](const Key & a, const Key & b) { auto x = s.m[a.k].value.size(), y = s.m[b.k].value.size(); return x != y ? x < y : a.k < b.k; }); }
            for (auto & k : ks) s.del(k);
        } else {
            std::vector<Key> ks; for (auto & k : ever) if (s.m.count(k.k)) ks.push_back(k);
            for (auto & k : ks) s.touch(k, 2);
            vclock::now_s += 2; mc::note("  clock +2s");
            if (way == 4) s.flush(); else for (auto & k : ever) s.get(k, true);
        }
        s.reap(); s.lingering.clear();
        uint64 n = s.curr_items();
        MC_CHECK(n == 0, "%llu items are left in the emptied cache", (unsigned long long)n);
        int exp = fresh_max(s.pages, s.page_size, s.dict), got = count_max(s);
        MC_CHECK(got == exp, "only %d maximum-size items fit into the emptied cache, %d into a new one", got, exp);
        s.verify_model_keys();
        mc::outcome(mc::hcombine(way, s.hash()));
    }
};
static int prefill(World & w, int pat) {
    int n = 0;
    switch (pat) {
    case 0: break;
    case 1: for (; n < 4; ++n) { Key k = w.key(n); w.s.set(k, fill(w.full(k), n), n); } break;
    case 2: for (; n < 8; ++n) { Key k = w.key(n); w.s.set(k, fill(w.half(k), n), n); } break;
    case 3: while (w.s.set(w.key(n), "99", n) == OK) ++n; break;
    case 4: for (; n < 15; ++n) w.s.set(w.key(n), fill(4, n), n); for (int i = 0; i < n; i += 2) w.s.del(w.key(i)); break;
    case 5: for (; n < 4; ++n) { Key k = w.key(n); w.s.set(k, fill(w.half(k), n), n, n % 2 ? 1 : 0); } break;
    }
    return n;
}
static void histories(int pat, int hmode, int depth, const std::vector<int> & ops, int ntg) {
    vclock::reset();
    World w(4, 256, 4, hmode);
    int n = prefill(w, pat);
    const int tg[] = {n ? n - 1 : 1, 60, 0};
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose((int)ops.size() * ntg);
        w.op(ops[c / ntg], w.key(tg[c % ntg]), 10 + d);
        w.s.reap(); w.s.record();
    }
    w.drain();
}
static void longrun(size_t pages, size_t psz, int hmode, int keys, int len) {
    vclock::reset();
    World w(pages, psz, 4, hmode);
    int at = mc::choose(len / 50) * 50 + mc::choose(50); int dev = mc::choose(20);
    unsigned st = 4242;
    for (int i = 0; i < len; ++i) {
        st = st * 1103515245u + 12345u; int r = (st >> 16) & 0x7fff;
        int k = r % keys, op = (r / keys) % 20;
        if (op == 16 && (i % 7)) op = 3;
        if (op == 17 && (i % 5)) op = 0;
        if (op == 11) op = 3;
        if (i == at) { op = dev; }
        w.op(op, w.key(k), i);
        if ((i & 31) == 0) { w.s.reap(); w.s.record(); }
    }
    w.s.reap();
    w.drain();
}
// the memory is filled to the brim with items of one size class, then emptied
static void brim(size_t pages, size_t psz) {
    vclock::reset();
    World w(pages, psz, 4, 0);
    size_t step = psz >= 1024 ? 8 : 4, maxv = w.full(w.key(10));
    size_t len = mc::choose((int)(maxv / step) + 1) * step; 
    if (len > maxv) len = maxv;
    int n = 10; while (w.s.set(w.key(n), fill(len, n), n) == OK) { ++n; if (n > 3000) mc::fail("endless"); }
    w.s.record();
    // refused commands: all of these need memory or are answered without it
    for (int o : {0, 1, 4, 6, 7, 8, 9, 10, 13}) w.op(o, w.key(10), 5);
    for (int o : {0, 1, 2, 9, 13}) w.op(o, w.key(5), 6);
    w.verify();
    // every second one is removed and stored again
    for (int i = 10; i < n; i += 2) w.s.del(w.key(i));
    for (int i = 10; i < n; i += 2) w.s.set(w.key(i), fill(len, i + 1), i);
    w.verify();
    w.drain();
}

int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<int> core{0, 1, 2, 3, 4, 6, 8}, all; for (int i = 0; i < 20; ++i) all.push_back(i);
    std::vector<int> time{0, 14, 15, 16, 17, 18, 3};
    for (int pat = 0; pat < 6; ++pat) {
        mc::add("core-p" + std::to_string(pat), [=] { histories(pat, pat % 3, th ? 5 : 4, core, 3); });
        mc::add("wide-p" + std::to_string(pat), [=] { histories(pat, (pat + 1) % 4, th ? 4 : 3, all, 2); });
        mc::add("time-p" + std::to_string(pat), [=] { histories(pat, (pat + 2) % 4, th ? 5 : 4, time, 2); });
    }
    mc::add("long-a", [=] { longrun(4, 256, 1, 10, th ? 1000 : 300); });
    mc::add("long-b", [=] { longrun(4, 1024, 4, 30, th ? 1000 : 300); });
    mc::add("long-c", [=] { longrun(8, 512, 2, 25, th ? 1000 : 300); });
    mc::add("brim-256", [=] { brim(4, 256); });
    mc::add("brim-1024", [=] { brim(4, 1024); });
    mc::add("brim-4096", [=] { brim(8, 4096); });
    mc::add("brim-64k", [=] { brim(4, 65536); }, true);
    return mc::main_(argc, argv);
}
