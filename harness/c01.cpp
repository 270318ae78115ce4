// C01: cache commands agree with a sequential map, for all bounded histories
#define VCLOCK_IMPL
#include "cl.h"
using namespace cl;

// one generic command on key k; n_ops variants
static const int N_OPS = 12;
static void do_op(Sut & s, int op, const Key & k, unsigned salt) {
    switch (op) {
    case 0: s.get(k); break;
    case 1: s.set(k, "5", 1); break;
    case 2: s.set(k, fill(3 + salt % 5, salt), 65535); break;
    case 3: s.del(k); break;
    case 4: s.add(k, "17", 2); break;
    case 5: s.replace(k, fill(9, salt + 1), 3); break;
    case 6: s.append(k, "7"); break;
    case 7: s.prepend(k, "9"); break;
    case 8: s.incr(k, 8); break;
    case 9: s.decr(k, 3); break;
    case 10: s.touch(k, 0); break;
    case 11: s.set(k, "", 0); break;
    }
}

static void finish(Sut & s, const std::vector<Key> & keys) {
    for (auto & k : keys) { s.get(k); }
    mc::outcome(s.hash());
    uint64 n = s.curr_items();
    MC_CHECK(n == s.m.size(), "item count is %llu, model has %zu", (unsigned long long)n, s.m.size());
    for (auto & k : keys) { s.del(k); s.get(k, true); }
}

static void mix(const std::vector<Key> & keys, size_t dict, int depth) {
    vclock::reset();
    Sut s(4, 2048, dict, true); s.eviction_allowed = false; s.ample = true;
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(N_OPS * (int)keys.size());
        do_op(s, c % N_OPS, keys[c / N_OPS], d);
        s.record();
    }
    finish(s, keys);
}

// index growth: insert / delete / overwrite over many keys with chosen hashes
static void growth(const std::vector<Key> & keys, size_t dict, int prefill, int depth) {
    vclock::reset();
    Sut s(4, 4096, dict, true); s.eviction_allowed = false; s.ample = true;
    for (int i = 0; i < prefill; ++i) s.set(keys[i], fill(2 + i % 3, i), (uint16)i);
    int nk = (int)keys.size();
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(nk * 3);
        const Key & k = keys[c / 3];
        switch (c % 3) { case 0: s.set(k, fill(4, d + 50), (uint16)d); break; case 1: s.del(k); break; case 2: s.append(k, "z"); break; }
        s.record();
    }
    finish(s, keys);
}

// multi-step expansion of a 2048-slot index: `hashes` places the keys
static Key bigkey(int i, int mode) {
    char b[16]; snprintf(b, sizeof b, "k%05d", i);
    uint32 h;
    switch (mode) {
    case 0: h = 1 + i; break;                               // consecutive slots
    case 1: h = 1 + (i / 3); break;                         // three keys per hash value: long runs, equal hashes
    case 2: h = 2048 * (1 + i % 7) + 1500 + (i / 7) * 2; break; // wraps around, different bits above the mask
    default: { cache::HashFunction f; h = f(slice(b, strlen(b))); } // the server's own hash
    }
    return Key{b, h};
}
static void expansion(int mode, int fillup, int depth) {
    vclock::reset();
    Sut s(4, 131072, 2048, true); s.eviction_allowed = false; s.ample = true; s.check_ids = false;
    for (int i = 0; i < fillup; ++i) s.set(bigkey(i, mode), "v" + std::to_string(i), (uint16)i);
    int next = fillup;
    static const int probe_all[] = {0, 1700, 511, 1023, 1, 513, 1903};
    const int np = depth > 2 && !mc::thorough() ? 4 : 7;
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(2 + np * 4);
        if (c == 0) { s.set(bigkey(next, mode), "new", 7); next++; }
        else if (c == 1) { s.get(bigkey(999999, mode)); }
        else {
            Key k = bigkey(probe_all[(c - 2) / 4], mode);
            switch ((c - 2) % 4) { case 0: s.get(k); break; case 1: s.set(k, "overwritten" + std::to_string(d)); break; case 2: s.del(k); break; case 3: s.append(k, "+"); break; }
        }
        s.record();
    }
    for (int i = 0; i < next; ++i) s.get(bigkey(i, mode), true);
    uint64 n = s.curr_items();
    MC_CHECK(n == s.m.size(), "item count is %llu, model has %zu", (unsigned long long)n, s.m.size());
}

// every key length, many value lengths, flags; with a neighbour stored before and after
static void shapes() {
    vclock::reset();
    static const size_t vlens[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 55, 56, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 65535, 65536, 65537, 70001};
    static const uint16 fl[] = {0, 1, 255, 256, 32767, 32768, 65535};
    Sut s(4, 1 << 18, 4, true); s.eviction_allowed = false; s.ample = true;
    int klen = 1 + mc::choose(250);
    size_t vlen = mc::pick(vlens);
    string kb = fill(klen, 3); if (klen > 2) { kb[1] = 0; kb[2] = (char)0xff; }
    kb[klen - 1] = '\n';
    Key k{kb, 5}, before{"before", 5}, after{"after", 5}, longer{kb + "x", 5}; if (klen == 250) longer.k = "other";
    Key shorter{klen > 1 ? kb.substr(0, klen - 1) : string("Q"), 5};
    string v = fill(vlen, 1); if (vlen > 1) v[vlen / 2] = 0; if (vlen > 3) { v[0] = '\r'; v[1] = '\n'; v[vlen-1] = (char)0x80; }
    s.set(before, "bb", 9); s.set(longer, "LL", 10); s.set(shorter, "SS", 11);
    uint16 f = fl[(klen + vlen) % 7];
    s.set(k, v, f); s.set(after, "aa", 12);
    std::vector<Key> all{before, longer, shorter, k, after};
    for (auto & x : all) s.get(x);
    s.record();
    s.append(k, v); s.get(k); s.prepend(k, "P"); s.get(k);
    s.replace(k, "r", 13); s.get(k);
    s.record();
    for (auto & x : all) s.get(x);
    s.set(k, v, fl[(klen + vlen + 3) % 7]);
    for (auto & x : all) s.get(x);
    s.del(k);
    for (auto & x : all) s.get(x);
    mc::outcome(s.hash());
}

// two or three keys of every length that share the hash and differ in a single byte, at every position
static void twins() {
    vclock::reset(); int len = 1 + mc::choose(250); Sut s(8, 8192, 4, true); s.eviction_allowed = false; s.ample = true;
    int at = mc::choose(len); static const char other[] = {0, 'x', (char)0xff, ' '};
    int nul = at > 0 ? mc::choose(3) : 0; string a = fill(len, 3); if (nul) a[nul == 1 ? 0 : at - 1] = 0; string b = a, c = a; b[at] = other[len % 4]; if (b == a) b[at] = 'y'; c[at] = (char)(a[at] ^ 0x20);
    Key ka{a, 9}, kb{b, 9}, kc{c, 9}; bool distinct = b != c;
    s.set(ka, "1", 1); s.get(kb); s.get(kc); s.del(kb); s.touch(kc, 5); s.incr(kb, 5); s.append(kc, "zz"); s.replace(kb, "no", 9); s.get(ka);
    s.add(kb, "2", 2); if (distinct) { s.add(kc, "3", 3); s.incr(kc, 40); } s.get(ka); s.get(kb); s.get(kc); s.record();
    s.incr(ka, 10); s.append(kb, "b"); s.prepend(ka, "7"); s.get(ka); s.get(kb); s.get(kc);
    switch (len % 3) { case 0: s.del(ka); break; case 1: s.del(kb); break; case 2: s.del(kc); break; }
    s.record(); finish(s, {ka, kb, kc});
}
// an item is created for a longer value than the one assigned to it
static void shortened() {
    vclock::reset(); Sut s(8, 8192, 4, true); s.eviction_allowed = false; s.ample = true;
    static const size_t lens[] = {0, 1, 5, 8, 9, 30, 31, 32, 64, 200, 1000}; size_t a = mc::pick(lens), b = mc::pick(lens); if (b > a) throw mc::Prune();
    int next = mc::choose(5); Key k{"k", 7}, n{"n", 7}; string v = b <= 5 ? string(b, '4') : fill(b, 5); s.set(n, "nn", 3);
    if (mc::flip()) s.set(k, "previous", 5);
    auto i = s.c->create_item(slice("k", 1), 7, a, 6, cache::seconds(0)); i->assign_value(slice(v.data(), v.size())); MC_CHECK(i->value().length() == b, "item has a value of %zu bytes, %zu were assigned", i->value().length(), b); s.c->do_set(i); mc::step();
    mc::note("  set 'k': item for %zu bytes, %zu assigned", a, b); s.put(k, v, 6, 0); s.get(k); s.get(n); s.record();
    switch (next) { case 0: s.append(k, "tail"); break; case 1: s.prepend(k, "head"); break; case 2: s.incr(k, 3); break; case 3: s.touch(k, 9); break; case 4: s.replace(k, v + "!", 4); break; }
    s.get(k); s.get(n); finish(s, {k, n});
}
// a long fixed history with one or two deviating commands at every position
static void longrun(int keys, int len, int mode, int ndev) {
    vclock::reset();
    Sut s(8, 8192, 16, true); s.eviction_allowed = false; s.ample = true;
    auto key = [&](int i) { char b[16]; snprintf(b, sizeof b, "L%d", i); uint32 h = mode == 0 ? (uint32)(i * 16 + 1) : mode == 1 ? (uint32)(1 + i / 4) : (uint32)(0xFFFFFFF0u + i * 3); return Key{b, h}; };
    // the position of the deviation(s) is chosen up front: pos in blocks of 64 then exact
    int devs[2] = {-1, -1}, devop[2] = {0, 0};
    for (int i = 0; i < ndev; ++i) { devs[i] = mc::choose(len / 64) * 64 + mc::choose(64); devop[i] = mc::choose(N_OPS); }
    unsigned st = 1;
    for (int i = 0; i < len; ++i) {
        st = st * 1103515245u + 12345u; int r = (st >> 16) & 0x7fff;
        int k = r % keys, op = (r / keys) % N_OPS;
        if (op == 11) op = 3; // more deletes
        for (int j = 0; j < ndev; ++j) if (devs[j] == i) op = devop[j];
        do_op(s, op, key(k), i);
        if (s.m.count(key(k).k) && s.m[key(k).k].value.size() > 60) s.set(key(k), "3", 4);
        if ((i & 63) == 63) s.record();
    }
    s.record();
    std::vector<Key> all; for (int i = 0; i < keys; ++i) all.push_back(key(i));
    finish(s, all);
}

int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    std::vector<Key> coll{{"a", 7}, {"b", 7}, {"ab", 23}};           // equal hash, same slot
    std::vector<Key> zero{{"z", 0}, {"o", 1}, {"y", 0x80000000u}};    // zero hash next to colliding ones
    std::vector<Key> wrap{{"w", 15}, {"x", 31}, {"y", 16}};           // wraps around a 16-slot index
    std::vector<Key> two{{"k1", 0xFFFFFFFFu}, {"k2", 0x0000FFFFu}};
    mc::add("mix-collide", [=] { mix(coll, 16, th ? 5 : 4); });
    mc::add("mix-zero", [=] { mix(zero, 16, th ? 5 : 4); });
    mc::add("mix-wrap", [=] { mix(wrap, 16, th ? 5 : 4); });
    mc::add("mix-tiny-index", [=] { mix(coll, 1, th ? 5 : 4); });
    mc::add("mix-two-keys-deep", [=] { mix(two, 2, th ? 6 : 5); });
    // all hash placements of growing small indexes
    std::vector<Key> g1, g2, g3, g4;
    for (int i = 0; i < 6; ++i) { g1.push_back(Key{string("g") + char('a' + i), (uint32)(1 + i)}); g2.push_back(Key{string("h") + char('a' + i), 3}); g3.push_back(Key{string("i") + char('a' + i), (uint32)(3 + 4 * i)}); }
    mc::add("growth-distinct", [=] { growth(g1, 1, 0, th ? 6 : 5); });
    mc::add("growth-equal", [=] { growth(g2, 2, 0, th ? 6 : 5); });
    mc::add("growth-wrap", [=] { growth(g3, 4, 0, th ? 6 : 5); });
    mc::add("growth-zero", [=] { auto z = g1; for (auto & k : z) k.h -= 1; growth(z, 1, 0, th ? 6 : 5); });
    for (int mode = 0; mode < 4; ++mode) {
        std::vector<Key> g16; // 16-slot index at its threshold
        for (int i = 0; i < 17; ++i) g16.push_back(Key{string("t") + char('a' + i), mode == 0 ? (uint32)(13 + i) : mode == 1 ? 14u : mode == 2 ? (uint32)(15 + 16 * (i % 5)) : (uint32)(i * 0x10000 + i / 2)});
        for (int pre = 12; pre <= 14; ++pre)
            mc::add("growth16-m" + std::to_string(mode) + "-pre" + std::to_string(pre), [=] { growth(g16, 16, pre, th ? 4 : 3); });
    }
    for (int mode = 0; mode < 4; ++mode) for (int f = 1903; f <= 1905; ++f)
        mc::add("expansion-m" + std::to_string(mode) + "-" + std::to_string(f), [=] { expansion(mode, f, f == 1905 ? 3 : 2); });
    mc::add("shapes", shapes); mc::add("twins", twins); mc::add("shortened", shortened);
    for (int mode = 0; mode < 3; ++mode) {
        mc::add("long-m" + std::to_string(mode), [=] { longrun(40, th ? 2048 : 640, mode, 1); });
    }
    return mc::main_(argc, argv);
}
