// C08: incr / decr are exact and saturate, whatever the value, delta and state of the cache
#define VCLOCK_IMPL
#include "cl.h"
using namespace cl;

static std::vector<uint64> numbers() {
    std::set<uint64> r{0, 1, 2, 3, 5, 7, 8, 9};
    uint64 p = 1; for (int i = 0; i < 20; ++i) { for (int d = -2; d <= 2; ++d) r.insert(p + d); if (i < 19) p *= 10; }
    for (int b = 0; b < 64; ++b) { r.insert((1ULL << b) - 1); r.insert(1ULL << b); }
    for (int i = 0; i < 4; ++i) r.insert(~0ULL - i);
    r.insert(9999999999999999999ull); r.insert(12345678901234567890ull); r.insert(10000000000000000000ull - 1);
    return std::vector<uint64>(r.begin(), r.end());
}
static std::vector<string> texts() {
    std::vector<string> t{"", "-", "-1", "+1", " 1", "1 ", "1\r", "1\n", "a", "1a", "a1", "0x1", "1.0", "1e3", "--1", "00", "007", "0000000000000000000", "00000000000000000000", "000000000000000000001",
        "00000000000000000009", "18446744073709551616", "18446744073709551617", "18446744073709551620", "18446744073709551700", "18446744073710000000", "19000000000000000000", "20000000000000000000", "28446744073709551615", "99999999999999999999", "184467440737095516150", "100000000000000000000", "018446744073709551615", string(100, '1'), string(1, '\0'), string("1\0", 2), string("1\0" "2", 3), string("\0" "1", 2), "/", ":", "1/", "1:", "\x80", "\xff", "1\x80", "\xb1", "-0"};
    return t;
}
static const std::vector<uint64> NUM = numbers();

static void finish(Sut & s, const std::vector<Key> & ks) { for (auto & k : ks) s.get(k); mc::outcome(s.hash()); }

// every boundary value with every boundary delta, then back
static void pairs(size_t pages, size_t psz, bool evict) {
    vclock::reset();
    Sut s(pages, psz, 4, evict); s.eviction_allowed = false; s.ample = true;
    Key k{"n", 3}, o{"other", 3}, p{"third", 3};
    uint64 v = NUM[mc::choose((int)NUM.size())];
    s.set(o, "41", 77); s.set(k, std::to_string((unsigned long long)v), 65535, 100); s.set(p, "zz", 1);
    for (uint64 d : NUM) {
        s.set(k, std::to_string((unsigned long long)v), 513, 100);
        s.incr(k, d); s.get(k, true); s.decr(k, d); s.get(k, true);
        s.set(k, std::to_string((unsigned long long)v), 514, 100);
        s.decr(k, d); s.get(k, true); s.incr(k, d); s.get(k, true);
        s.record();
    }
    s.get(o); s.get(p); s.incr(o, 1); s.get(o); s.get(k);
    vclock::now_s += 99; mc::note("  clock +99s"); s.get(k); vclock::now_s += 1; mc::note("  clock +1s"); s.get(k); s.get(o); s.get(p);
    s.incr(k, 1); s.decr(k, 1);
}
// dense small numbers
static void dense(int lim) {
    vclock::reset();
    Sut s(4, 4096, 4, true); s.eviction_allowed = false; s.ample = true;
    Key k{"n", 3}; int v = mc::choose(lim);
    for (int d = 0; d < lim; ++d) { s.set(k, std::to_string(v), 1); s.incr(k, d); s.get(k, true); s.set(k, std::to_string(v), 1); s.decr(k, d); s.get(k, true); }
    s.record();
}
// texts that are not numbers: the command fails and the item stays as it is
static void nonnumbers() {
    vclock::reset();
    static const std::vector<string> T = texts();
    Sut s(4, 1024, 4, mc::flip()); s.eviction_allowed = false; s.ample = true;
    Key k{"n", 3}, o{"other", 3}, missing{"missing", 3};
    const string & v = T[mc::choose((int)T.size())];
    uint64 d = NUM[mc::choose((int)NUM.size())];
    bool inc = mc::flip();
    s.set(o, "1", 5); s.set(k, v, 1234, 9);
    s.arith(k, d, inc); s.get(k); s.get(o); s.arith(missing, d, inc); s.get(missing);
    s.arith(k, d, !inc); s.get(k); s.record();
    uint64 n = s.curr_items(); MC_CHECK(n == 2, "incr/decr of a missing key left %llu items", (unsigned long long)n);
    vclock::now_s += 8; s.get(k); vclock::now_s += 1; s.get(k); s.get(o);
    s.arith(k, d, inc); s.get(k);
}
// sequences over several keys mixed with other commands
static void sequences(const std::vector<Key> & ks, size_t dict, int depth) {
    vclock::reset();
    Sut s(4, 1024, dict, true); s.eviction_allowed = false; s.ample = true;
    for (size_t i = 0; i < ks.size(); ++i) s.set(ks[i], i == 0 ? "9" : i == 1 ? "18446744073709551610" : "x", (uint16)(40 + i), i == 1 ? 2 : 0);
    static const uint64 ds[] = {1, 6, 100000, 0xFFFFFFFFFFFFFFFFull};
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(13 * (int)ks.size()); const Key & k = ks[c / 13]; c %= 13;
        if (c < 4) s.incr(k, ds[c]); else if (c < 8) s.decr(k, ds[c - 4]);
        else if (c == 8) s.del(k); else if (c == 9) s.append(k, "0"); else if (c == 10) s.set(k, "99", 3, 1); else if (c == 11) { vclock::now_s++; mc::note("  clock +1s"); } else s.get(k);
        s.reap(); s.record();
    }
    finish(s, ks);
}
// the update needs a bigger block while memory is full: evictions shift colliding entries of the index
static void pressure(bool evict, int hmode, int depth) {
    vclock::reset();
    Sut s(4, 256, 4, evict); std::vector<Key> ks;
    auto key = [&](int i) { char b[24]; snprintf(b, sizeof b, "k%02d", i); return Key{b, hmode == 0 ? 5u : hmode == 1 ? (uint32)(15 + 16 * (i % 3)) : hmode == 2 ? (uint32)i : (uint32)(i / 2)}; };
    int n = 0; for (; n < 17; ++n) { ks.push_back(key(n)); if (s.set(key(n), "99999999999999999", (uint16)n) != OK || s.evictions) { n++; break; } }
    Key filler{"filler", 5};
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(15); const int tg[] = {0, n / 2, n - 1}; Key k = key(tg[c % 3]);
        switch (c / 3) {
        case 0: s.incr(k, 1ull << 60); break;             // longer: does not fit its block
        case 1: s.decr(k, 99999999999999998ull); break;   // shorter
        case 2: s.set(k, c % 3 == 0 ? "99999999999999999999999999" : "99999999999999999", 9); break;
        case 3: { Key f{"f" + std::to_string(d), 5}; s.set(f, fill(c % 3 == 0 ? s.max_value(f.k) : 90, d), 8); ks.push_back(f); break; }
        case 4: s.get(k); break;
        }
        s.record();
    }
    for (auto & k : ks) s.get(k, true);
    uint64 cnt = s.curr_items(); MC_CHECK(cnt == s.m.size(), "%llu items stored, %zu expected", (unsigned long long)cnt, s.m.size());
}
// updates while the index grows (small index: at once, 2048 slots: step by step)
static void growing(size_t dict, int first, int hmode, int depth) {
    vclock::reset();
    Sut s(4, dict >= 2048 ? 131072 : 4096, dict, true); s.eviction_allowed = false; s.ample = true;
    auto key = [&](int i) { char b[16]; snprintf(b, sizeof b, "x%05d", i); return Key{b, hmode == 0 ? (uint32)(1 + i) : hmode == 1 ? (uint32)(i / 3) : (uint32)(dict * (1 + i % 7) + dict * 3 / 4 + (i / 7) * 2)}; };
    int n = 0; for (; n < first; ++n) s.set(key(n), std::to_string(n), (uint16)n);
    const int pk[] = {0, first / 3, first - 1};
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(11);
        if (c == 9) { s.set(key(n), "1", 1); n++; } else if (c == 10) s.incr(key(99999), 1);
        else { Key k = key(pk[c % 3]); switch (c / 3) { case 0: s.incr(k, 1000000); break; case 1: s.decr(k, 7); break; case 2: s.del(k); break; } }
        s.record();
    }
    for (int i = 0; i < n; ++i) s.get(key(i), true);
}

// the clock ticks between and inside the updates: flags and lifetime of the counter stay
static int countdown = 0;
static void tick() { if (countdown > 0 && --countdown == 0) { vclock::now_s++; mc::note("      (clock +1s inside the command)"); } }
static void lifetime() {
    vclock::reset(); vclock::on_read = tick; countdown = 0;
    Sut s(4, 1024, 4, true); s.eviction_allowed = false; s.ample = true; Key k{"n", 3};
    uint32 ttl = 1 + mc::choose(4); const uint64 dies = vclock::now_s + ttl;
    s.set(k, "95", 321, ttl);
    string v = "95"; bool alive = true; const int depth = 3;
    for (int d = 0; d < depth; ++d) {
        if (mc::flip()) { vclock::now_s++; mc::note("  clock +1s"); }
        int nth = mc::choose(5), op = mc::choose(3); countdown = nth;
        uint64 t0 = vclock::now_s; bool found = false; uint64 nv = 0;
        mc::step();
        if (op == 0) tie(found, nv) = s.c->do_incr(slice("n", 1), 3, 7); else if (op == 1) tie(found, nv) = s.c->do_decr(slice("n", 1), 3, 90); else { auto i = s.c->do_get(slice("n", 1), 3); found = i != nullptr; if (found) { MC_CHECK(i->opaque_flags() == 321, "flags are %u", i->opaque_flags()); MC_CHECK(i->value().str() == v, "value is '%s', expected '%s'", i->value().str().c_str(), v.c_str()); } }
        countdown = 0; uint64 t1 = vclock::now_s;
        mc::note("  %s at %llu -> %d", op == 0 ? "incr" : op == 1 ? "decr" : "get", (unsigned long long)t0, (int)found);
        if (found) { MC_CHECK(alive, "the counter came back to life"); MC_CHECK(t0 < dies, "counter is alive at %llu, its lifetime ended at %llu", (unsigned long long)t0, (unsigned long long)dies); }
        else { MC_CHECK(!alive || t1 >= dies, "counter is gone at %llu, it lives until %llu", (unsigned long long)t1, (unsigned long long)dies); alive = false; }
        if (found && op < 2) { uint64 o; parse_u64(v, o); uint64 e = op == 0 ? o + 7 : (o < 90 ? 0 : o - 90); MC_CHECK(nv == e, "result is %llu, expected %llu", (unsigned long long)nv, (unsigned long long)e); v = std::to_string((unsigned long long)e); }
        mc::state(mc::hcombine(mc::hstr(v), dies - vclock::now_s));
    }
    if (alive && vclock::now_s < dies) { vclock::now_s = dies - 1; auto i = s.c->do_get(slice("n", 1), 3); MC_CHECK(i && i->opaque_flags() == 321 && i->value().str() == v, "counter lost or changed before the end of its lifetime"); }
    if (vclock::now_s < dies) vclock::now_s = dies;
    MC_CHECK(s.c->do_get(slice("n", 1), 3) == nullptr, "counter outlives its lifetime");
}

int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("pairs-evict", [=] { pairs(4, 1024, true); });
    mc::add("pairs-noevict", [=] { pairs(4, 1024, false); });
    mc::add("lifetime", lifetime);
    mc::add("dense", [=] { dense(th ? 2200 : 400); });
    mc::add("non-numbers", nonnumbers);
    std::vector<Key> coll{{"a", 7}, {"b", 7}, {"c", 23}}, zero{{"z", 0}, {"o", 1}, {"y", 16}};
    mc::add("sequences-collide", [=] { sequences(coll, 16, th ? 5 : 4); });
    mc::add("sequences-zero", [=] { sequences(zero, 1, th ? 5 : 4); });
    for (int hm = 0; hm < 4; ++hm) { mc::add("pressure-evict-h" + std::to_string(hm), [=] { pressure(true, hm, th ? 6 : hm % 2 ? 4 : 5); }); mc::add("pressure-noevict-h" + std::to_string(hm), [=] { pressure(false, hm, th ? 5 : 4); }); }
    for (int hm = 0; hm < 3; ++hm) {
        for (int f = 13; f <= 15; ++f) mc::add("growing16-h" + std::to_string(hm) + "-" + std::to_string(f), [=] { growing(16, f, hm, th ? 5 : 4); });
        for (int f = 1904; f <= 1905; ++f) mc::add("growing2048-h" + std::to_string(hm) + "-" + std::to_string(f), [=] { growing(2048, f, hm, th ? 4 : 3); });
    }
    return mc::main_(argc, argv);
}
