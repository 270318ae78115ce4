// C20: items of every size are stored intact or refused cleanly
#define VCLOCK_IMPL
#define ARENA_IMPL
#include "cl.h"
#include "arena.h"
using namespace cl;

static Key kk(size_t len, unsigned seed, uint32 h) { return Key{fill(len, seed), h}; }
static const size_t KLENS[] = {1, 2, 7, 8, 9, 31, 32, 100, 200, 249, 250};

// interesting value lengths around limit `lim` (largest accepted one) plus every length when small
static std::vector<size_t> lengths(size_t lim, size_t psz) {
    std::set<size_t> r;
    if (psz <= 1024) for (size_t i = 0; i <= psz + 80; ++i) r.insert(i);
    for (size_t i = 0; i < 140; ++i) r.insert(i);
    for (size_t p = 64; p <= psz * 2; p *= 2) for (int d = -50; d <= 20; ++d) if ((long long)p + d >= 0) r.insert(p + d);
    for (int d = -70; d <= 70; ++d) if ((long long)lim + d >= 0) r.insert(lim + d);
    for (int d = -70; d <= 20; ++d) { long long x = (long long)lim / 2 + d; if (x >= 0) r.insert(x); x = (long long)lim / 4 + d; if (x >= 0) r.insert(x); }
    r.insert(psz * 3); r.insert(psz * 4); r.insert(psz * 4 + 1); r.insert(psz * 8);
    return std::vector<size_t>(r.begin(), r.end());
}
static size_t limit_of(const Sut & s, size_t klen) { return s.usable() > sizeof(cache::Item) + klen ? s.usable() - sizeof(cache::Item) - klen : 0; }

static void sizes(size_t psz, bool evict) {
    vclock::reset();
    size_t klen = mc::pick(KLENS);
    Sut s(4, psz, 4, evict);
    const auto L = lengths(limit_of(s, klen), psz);
    int b = mc::choose((int)(L.size() + 7) / 8);
    Key k = kk(klen, 1, 9), n1{"n1", 9}, n2{"n2", 9};
    for (size_t i = b * 8; i < L.size() && i < (size_t)b * 8 + 8; ++i) {
        size_t v = L[i];
        bool fits = s.expect_size_error(k, v) == OK;
        // neighbours on both sides
        s.set(n1, fill(20, 3), 11); s.set(k, fill(v, (unsigned)v), 65535); s.set(n2, fill(33, 4), 12);
        s.get(n1); s.get(k); s.get(n2); s.record();
        // again over the existing one, then shrink and grow
        s.set(k, fill(v, (unsigned)v + 1), 7); s.get(k); s.get(n1); s.get(n2);
        s.set(k, "s", 8); s.set(k, fill(v, (unsigned)v + 2), 9); s.get(k); s.get(n1); s.get(n2);
        s.add(k, fill(v, 5), 10); s.replace(k, fill(v, 6), 10); s.cas(k, fill(v, 7), s.get(k) ? s.last_id : 1, 10);
        s.get(k); s.get(n1); s.get(n2); s.record();
        s.del(k); s.get(k); s.get(n1); s.get(n2);
        s.del(n1); s.del(n2);
        // an otherwise empty cache accepts everything that fits
        uint64 n = s.curr_items(); MC_CHECK(n == 0, "%llu items left", (unsigned long long)n);
        bool save = s.ample; s.ample = true; int r = s.set(k, fill(v, (unsigned)v), 1); s.ample = save;
        MC_CHECK((r == OK) == fits, "an item of %zu bytes in an empty cache: %s", v, rname(r));
        s.get(k); s.del(k);
    }
}
// the whole memory is packed with items of one size; guard pages surround it
static void packed(size_t psz, bool evict) {
    vclock::reset();
    size_t klen = mc::pick(KLENS);
    Sut s(4, psz, 4, evict);
    const auto L = lengths(limit_of(s, klen), psz);
    size_t v = L[mc::choose((int)L.size())];
    int n = 0;
    auto key = [&](int i) { Key k = kk(klen, 2, (uint32)(i + 1)); if (klen >= 3) { k.k[0] = 'a' + i / 676 % 26; k.k[1] = 'a' + i / 26 % 26; k.k[2] = 'a' + i % 26; } else k.k[klen - 1] = (char)(33 + i % 90); return k; };
    int want = psz <= 512 ? 24 : 12; 
    if (v < psz / 8) want = 40;
    for (; n < want; ++n) { int r = s.set(key(n), fill(v, n), (uint16)n); if (r != OK) break; s.record(); }
    for (int i = 0; i < want; ++i) s.get(key(i), true);
    // delete every third, store a different size there, check the rest
    for (int i = 0; i < n; i += 3) s.del(key(i));
    for (int i = 0; i < n; i += 3) s.set(key(i), fill(v > 3 ? v - 3 : v, i + 9), 3);
    for (int i = 0; i < want; ++i) s.get(key(i), true);
    mc::outcome(s.hash());
}
// append / prepend / incr across the limit
static void extending(size_t psz, bool evict) {
    vclock::reset();
    size_t klen = mc::pick(KLENS);
    Sut s(4, psz, 4, evict);
    size_t lim = limit_of(s, klen); if (lim < 40) return;
    Key k = kk(klen, 1, 9), n1{"n1", 9}, n2{"n2", 9};
    static const int bases[] = {0, 1, 8, 2, 3, 4}; int bi = mc::choose(6);
    int d = mc::choose(61) - 40; bool app = mc::flip();
    size_t base = bi < 3 ? bases[bi] : bi == 3 ? lim / 2 : bi == 4 ? lim - 20 : lim;
    long long piece = (long long)lim + d - (long long)base; if (piece < 0) piece = 0;
    s.set(n1, fill(20, 3), 11); s.set(k, fill(base, 1), 65535); s.set(n2, fill(33, 4), 12);
    app ? s.append(k, fill(piece, 2)) : s.prepend(k, fill(piece, 2));
    s.get(k); s.get(n1); s.get(n2); s.record();
    app ? s.prepend(k, "x") : s.append(k, "x"); s.get(k); s.get(n1); s.get(n2);
    for (int i = 0; i < 3; ++i) { Key f{"f" + std::to_string(i), 9}; s.set(f, fill(s.max_value(f.k), i), 1); s.get(f); s.get(k); }
    s.append(k, fill(d + 41, 3)); s.get(k); s.get(n1); s.get(n2); s.record();
    mc::outcome(s.hash());
}
// sizes around every power of two from 2^14 to 2^21: whatever a length is stored or computed in must hold it
static void wide(bool evict) {
    vclock::reset(); const size_t psz = 4 << 20;
    Sut s(4, psz, 4, evict);
    static const size_t kl[] = {1, 250}; size_t klen = mc::pick(kl);
    size_t t = ((size_t)1 << (14 + mc::choose(8))) + mc::choose(5) - 2; int how = mc::choose(7);
    Key k = kk(klen, 1, 9), n1{"n1", 9}, n2{"n2", 9};
    s.set(n1, fill(70000, 3), 11); s.set(n2, fill(33, 4), 12);
    const string v = fill(t, (unsigned)t);
    switch (how) {
    case 0: s.set(k, v, 65535); break;
    case 1: case 2: case 3: { size_t cut = how == 1 ? 1 : how == 2 ? t / 2 : t - 1; s.set(k, v.substr(0, cut), 7); s.get(k); s.append(k, v.substr(cut)); break; }
    default: { size_t cut = how == 4 ? 1 : how == 5 ? t / 2 : t - 1; s.set(k, v.substr(cut), 7); s.get(k); s.prepend(k, v.substr(0, cut)); break; }
    }
    s.get(k); s.get(n1); s.get(n2); s.record();
    s.append(n2, fill(65536, 9)); s.get(n2); s.replace(k, fill(t + 65536, 1), 5); s.get(k); s.get(n1); s.get(n2); s.record();
    s.del(k); s.get(k); s.get(n1); s.get(n2);
    mc::outcome(s.hash());
}
static void counter(size_t psz, bool evict) {
    vclock::reset();
    Sut s(4, psz, 4, evict);
    // key length such that exactly n digits fit
    int digits = 1 + mc::choose(20); size_t klen = s.usable() - sizeof(cache::Item) - digits; if (klen > 250) return;
    bool room = mc::flip(); if (room && klen > 1) klen--;
    Key k = kk(klen, 1, 9), n1{"n1", 9};
    s.set(n1, "5", 3); s.set(k, string(digits, '9').substr(0, digits > 19 ? 19 : digits), 77);
    for (uint64 d : {1ull, 1ull, 9ull, 1000000000000000000ull, 9000000000000000000ull, ~0ull}) { s.incr(k, d); s.get(k); s.get(n1); s.record(); }
    s.decr(k, 5); s.get(k); s.get(n1);
    mc::outcome(s.hash());
}
// keys at and beyond the limit; value lengths no memory could hold
static void refusals(size_t psz, bool evict) {
    vclock::reset();
    Sut s(4, psz, 4, evict);
    Key n1{"n1", 9}, n2{"n2", 9}; s.set(n1, fill(20, 3), 11); s.set(n2, fill(33, 4), 12);
    Key f{"ff", 9}; for (int i = 0; i < 4; ++i) { f.k[0] = 'a' + i; s.set(f, fill(s.max_value(f.k), i), 1); }
    int what = mc::choose(2);
    if (what == 0) {
        size_t klen = 248 + mc::choose(300); Key k = kk(klen, 4, 9);
        for (size_t v : {(size_t)0, (size_t)1, psz, psz * 2}) {
            s.set(k, fill(v, 1), 1); s.get(n1); s.get(n2); s.record();
            s.append(k, fill(v, 1)); if (klen <= 250) s.get(k);
        }
    } else {
        static const uint64 big[] = {0x7fffffffull, 0x80000000ull, 0xfffffff0ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x100000040ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffff0ull, 0xffffffffffffffffull, 0xffffffffffffffdfull, 0xffffffffffffffcfull, 0xffffffffffffffe0ull, 0xffffffffffffff00ull, 0xffffffff00000000ull};
        uint64 v = mc::pick(big); size_t klen = mc::pick(KLENS); Key k = kk(klen, 4, 9);
        s.begin(); int r = OK; s.eviction_allowed = false;
        try { s.c->create_item(slice(k.k.data(), k.k.size()), k.h, v, 0, cache::seconds(0)); } catch (const system_error & e) { r = classify(e); } catch (...) { r = ERR_OTHER; }
        mc::note("  create_item with a value of %llu bytes -> %s", (unsigned long long)v, rname(r));
        MC_CHECK(r == ERR_BIG, "an item with a value of %llu bytes: %s, expected item_too_big", (unsigned long long)v, rname(r));
        s.eviction_allowed = true;
    }
    s.verify_model_keys();
    s.record();
}
int main(int argc, char ** argv) {
    for (bool ev : {true, false}) {
        string e = ev ? "-evict" : "-noevict";
        for (size_t psz : {256, 512, 1024, 4096, 65536}) {
            string n = std::to_string(psz) + e;
            bool th = psz == 65536;
            mc::add("sizes-" + n, [=] { sizes(psz, ev); }, th && !ev);
            mc::add("packed-" + n, [=] { packed(psz, ev); }, th && !ev);
            mc::add("extending-" + n, [=] { extending(psz, ev); }, th && !ev);
            mc::add("refusals-" + n, [=] { refusals(psz, ev); });
        }
        mc::add("wide" + e, [=] { wide(ev); }, false, 0, 60);
        mc::add("counter-256" + e, [=] { counter(256, ev); });
        mc::add("sizes-1M" + e, [=] { sizes(1 << 20, ev); }, true, 0, 120);
        mc::add("packed-1M" + e, [=] { packed(1 << 20, ev); }, true, 0, 120);
        mc::add("extending-1M" + e, [=] { extending(1 << 20, ev); }, true, 0, 120);
    }
    return mc::main_(argc, argv);
}
