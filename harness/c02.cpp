// C02: with evictions enabled an item disappears only by delete, expiration or a reported eviction
#define VCLOCK_IMPL
#include "cl.h"
using namespace cl;

// --- a universe of keys with chosen hashes
static Key mkkey(const char * prefix, int i, int hmode) {
    char b[24]; snprintf(b, sizeof b, "%s%d", prefix, i);
    uint32 h = 0;
    switch (hmode) { case 0: h = 1 + i; break; case 1: h = 5; break; case 2: h = 15 + 16 * (i % 3); break; case 3: h = (uint32)i % 4; break; default: { cache::HashFunction f; h = f(slice(b, strlen(b))); } }
    return Key{b, h};
}

struct World {
    Sut s; std::vector<Key> ever; int hmode; bool readback;
    World(size_t pages, size_t psz, size_t dict, int hm, bool rb = false) : s(pages, psz, dict, true), hmode(hm), readback(rb) {}
    Key key(int i) { Key k = mkkey("k", i, hmode); for (auto & e : ever) if (e.k == k.k) return k; ever.push_back(k); return k; }
    size_t small(const Key & k) { return 4 + k.k.size() % 3; }
    size_t half(const Key & k) { return (s.page_size / 2) - memalloc::header_size() - Sut::overhead(k.k); }
    size_t full(const Key & k) { return s.max_value(k.k); }
    void after_store(const Key & k) { if (readback) { MC_CHECK(s.get(k), "'%s' is not readable right after it was stored", k.k.c_str()); s.protect = k.k; s.has_protect = true; } }
    void put(const Key & k, size_t n, unsigned seed) { s.set(k, fill(n, seed), (uint16)(seed * 31)); unprotect(); MC_CHECK(!s.evicted_this_op.count(k.k) || s.m.count(k.k), "stored item lost"); after_store(k); }
    void unprotect() { s.has_protect = false; }
    // op over key: returns nothing; maintains the protection of the item that was just read
    void op(int o, const Key & k, unsigned seed) {
        switch (o) {
        case 0: put(k, small(k), seed); break;
        case 1: put(k, half(k), seed); break;
        case 2: put(k, full(k), seed); break;
        case 3: { bool f = s.get(k); unprotect(); if (f) { s.protect = k.k; s.has_protect = true; } break; }
        case 4: s.del(k); unprotect(); break;
        case 5: s.append(k, fill(9, seed)); unprotect(); break;
        case 6: s.incr(k, 1); unprotect(); break;
        case 7: s.set(k, "9", 3); unprotect(); after_store(k); break;      // becomes longer when incremented
        case 8: s.touch(k, 0); unprotect(); break;
        case 9: s.add(k, fill(half(k), seed), 4); unprotect(); if (readback && s.m.count(k.k)) after_store(k); break;
        case 10: s.replace(k, fill(half(k) / 2, seed), 5); unprotect(); break;
        case 11: s.prepend(k, fill(40, seed)); unprotect(); break;
        }
    }
    void finish() {
        unprotect();
        mc::outcome(mc::hcombine(s.hash(), s.evictions));
        uint64 n = s.curr_items();
        MC_CHECK(n == s.m.size() + s.lingering.size(), "%llu items are stored, %zu expected", (unsigned long long)n, s.m.size() + s.lingering.size());
        for (auto & k : ever) s.get(k, true);
        mc::step();
        // once more: reading does not lose anything
        for (auto & k : ever) s.get(k, true);
        MC_CHECK(s.evictions_this_op == 0, "reading evicts");
    }
};

// patterns that fill the memory before the enumerated commands
static int prefill(World & w, int pat) {
    int n = 0;
    switch (pat) {
    case 0: for (; n < 4; ++n) { Key k = w.key(n); w.put(k, w.full(k), n); } break;                   // one item per page
    case 1: for (; n < 8; ++n) { Key k = w.key(n); w.put(k, w.half(k), n); } break;                   // two per page
    case 2: while (w.s.evictions == 0 && n < 40) { Key k = w.key(n); w.s.set(k, "7", 1); ++n; } break;   // counters until the first eviction
    case 3: for (; n < 16; ++n) { Key k = w.key(n); w.put(k, w.small(k), n); } for (int i = 0; i < n; i += 2) w.s.del(w.key(i)); break; // fragmented
    case 4: for (; n < 7; ++n) { Key k = w.key(n); w.put(k, n % 2 ? w.half(k) : w.small(k), n); } break; // mixed
    case 5: for (; n < 6; ++n) { Key k = w.key(n); w.s.set(k, "9", 1); Key f = w.key(100 + n); w.put(f, w.half(f), n); } break;
    }
    w.unprotect();
    return n;
}

static void pressure(int pat, int hmode, int depth, bool wide) {
    vclock::reset();
    bool rb = mc::flip();
    World w(4, 256, 4, hmode, rb);
    int n = prefill(w, pat);
    static const int ops_narrow[] = {0, 1, 2, 3, 4, 6};
    static const int ops_wide[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
    const int * ops = wide ? ops_wide : ops_narrow; const int no = wide ? 12 : 6;
    const int tg[] = {0, n - 1, n / 2, 50};
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(no * 4);
        int t = tg[c / no]; if (c / no == 3) t = 50 + d % 2;
        w.op(ops[c % no], w.key(t), 20 + d);
        w.s.record();
    }
    w.finish();
}

// expired items take part in evictions
static void expiring(int depth) {
    vclock::reset();
    World w(4, 256, 4, 1);
    for (int i = 0; i < 6; ++i) { Key k = w.key(i); w.s.set(k, fill(i % 2 ? w.half(k) : 3, i), i, i % 3 == 0 ? 2 : 0); }
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(11);
        Key k = w.key(c % 3 + 4 * (c / 6));
        if (c < 3) { w.s.set(k, fill(w.half(k), d + 9), 7, 1); w.unprotect(); }
        else if (c < 6) w.op(3, k, d);
        else if (c < 8) { w.s.set(w.key(60 + c), fill(w.full(w.key(60 + c)), d), 8); w.unprotect(); }
        else if (c == 8) { vclock::now_s += 1; mc::note("  clock +1s"); w.unprotect(); }
        else if (c == 9) { w.s.flush(); w.unprotect(); }
        else { w.op(6, w.key(3), d); }
        w.s.reap(); w.s.record();
    }
    w.unprotect();
    for (auto & k : w.ever) w.s.get(k, true);
}

// evictions of whole pages while the 2048-slot index is being expanded
static void expansion(int hmode, int first, int depth) {
    vclock::reset();
    Sut s(4, 32768, 2048, true);
    auto key = [&](int i) { char b[16]; snprintf(b, sizeof b, "e%05d", i); uint32 h; switch (hmode) { case 0: h = 1 + i; break; case 1: h = 1 + i / 3; break; case 2: h = 2048 * (1 + i % 7) + 1500 + (i / 7) * 2; break; default: { cache::HashFunction f; h = f(slice(b, strlen(b))); } } return Key{b, h}; };
    int next = 0;
    for (; next < first; ++next) s.set(key(next), std::to_string(next), (uint16)next);
    for (int d = 0; d < depth; ++d) {
        switch (mc::choose(7)) {
        case 0: s.set(key(next), "new", 7); next++; break;
        case 1: { Key k{"big" + std::to_string(d), 1500 + (uint32)d}; s.set(k, fill(s.max_value(k.k), d), 8); break; }
        case 2: s.get(key(3)); break;
        case 3: s.get(key(first - 2)); break;
        case 4: s.del(key(600)); break;
        case 5: for (int i = 0; i < 30; ++i) { s.set(key(next), fill(10, i), 9); next++; } break;
        case 6: s.incr(key(1200), 1000000000ull); break;
        }
        s.record();
    }
    uint64 n = s.curr_items();
    MC_CHECK(n == s.m.size(), "%llu items are stored, %zu expected", (unsigned long long)n, s.m.size());
    for (int i = 0; i < next; ++i) s.get(key(i), true);
    s.verify_model_keys();
}

// long history under constant memory pressure with one deviating command at every position
static void longrun(size_t pages, size_t psz, int hmode, int keys, int len) {
    vclock::reset();
    World w(pages, psz, 4, hmode);
    int at = mc::choose(len / 50) * 50 + mc::choose(50); int dev = mc::choose(12), devk = mc::choose(4);
    unsigned st = 99;
    for (int i = 0; i < len; ++i) {
        st = st * 1103515245u + 12345u; int r = (st >> 16) & 0x7fff;
        int k = r % keys, op = (r / keys) % 12;
        if (i == at) { op = dev; k = (k + devk * 5) % keys; }
        w.op(op, w.key(k), i);
        if ((i & 31) == 0) w.s.record();
    }
    w.s.record();
    w.finish();
}

// many pages: any of the items is read just before the next store
static void many_pages() {
    vclock::reset(); static const int ns[] = {16, 32, 33, 64, 128, 256}; int n = mc::pick(ns); if (n == 33) n = 512; int step = n <= 64 ? 1 : n <= 128 ? 3 : 17; int i = mc::choose((n + step - 1) / step) * step, size = mc::choose(2), extra = mc::choose(3);
    World w(n, 256, 16, 4); int cnt = size ? 2 * n : n; for (int k = 0; k < cnt + (extra == 1 ? cnt / 2 : extra == 2 ? cnt + 3 : 0); ++k) { Key q = w.key(k); w.put(q, size ? w.half(q) : w.full(q), k); }
    w.unprotect(); int at = i * (size + 1); int total = (int)w.ever.size(); if (!w.s.m.count(w.key(at).k)) at = total - 1 - at % (cnt / 2);
    for (int r = 0; r < 3; ++r) { w.op(3, w.key(at), 1); Key q = w.key(total + r); w.op(2, q, 7 + r); if (r == 1) w.op(3, w.key(at), 1); if (r == 1) w.op(0, w.key(total + 50), 3); mc::state(mc::hcombine(w.s.hash(), at)); }
    w.finish();
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    for (int pat = 0; pat < 6; ++pat) {
        mc::add("pressure-p" + std::to_string(pat), [=] { pressure(pat, 0, th ? 5 : 4, false); });
        mc::add("pressure-wide-p" + std::to_string(pat), [=] { pressure(pat, pat % 2 ? 1 : 2, th ? 4 : 3, true); });
        mc::add("pressure-zero-hash-p" + std::to_string(pat), [=] { pressure(pat, 3, th ? 4 : 3, false); });
    }
    mc::add("many-pages", many_pages, false, 2, 60);
    mc::add("expiring", [=] { expiring(th ? 6 : 5); });
    for (int hm = 0; hm < 4; ++hm) for (int f : {1880, 1905, 1907, 2040})
        mc::add("expansion-m" + std::to_string(hm) + "-" + std::to_string(f), [=] { expansion(hm, f, th ? 4 : 3); });
    mc::add("long-a", [=] { longrun(4, 256, 1, 20, th ? 1000 : 300); });
    mc::add("long-b", [=] { longrun(4, 1024, 4, 60, th ? 1000 : 300); });
    mc::add("long-c", [=] { longrun(8, 512, 2, 40, th ? 1000 : 300); });
    return mc::main_(argc, argv);
}
