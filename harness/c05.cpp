// C05: the hash index (dict and its hash_table) agrees with a plain map
#include "mc.h"
#include <cachelot/common.h>
#include <cachelot/dict.h>
#include <map>
#include <memory>
using namespace cachelot;
using std::string;

struct Opt32 { typedef uint32 size_type; typedef uint32 hash_type; static constexpr size_type max_load_factor_percent = 93; };
struct Opt64 { typedef size_t size_type; typedef size_t hash_type; static constexpr size_type max_load_factor_percent = 93; };
typedef internal::hash_table_entry<uint64, uint64> Entry;
template <class O> using DictT = dict<uint64, uint64, std::equal_to<uint64>, Entry, O>;
template <class O> using TableT = hash_table<uint64, uint64, std::equal_to<uint64>, Entry, O>;

// dict stepped together with a map; key k has the fixed hash h(k)
template <class O> struct Sut {
    typedef DictT<O> D;
    D d;
    std::map<uint64, uint64> m;
    std::map<uint64, uint64> hashes;
    uint64 stamp = 1;
    explicit Sut(size_t initial) : d((typename O::size_type)initial) {}
    typename O::hash_type h(uint64 k) { return (typename O::hash_type)hashes[k]; }
    void compare_one(uint64 k) {
        bool f; uint64 v;
        tie(f, v) = d.get(k, h(k));
        auto it = m.find(k);
        if (it == m.end()) { MC_CHECK(!f, "get(%llu): found value %llu but the key is absent", (unsigned long long)k, (unsigned long long)v); MC_CHECK(!d.contains(k, h(k)), "contains(%llu) is true but the key is absent", (unsigned long long)k); return; }
        MC_CHECK(f, "get(%llu): not found but the key is stored (hash %llx)", (unsigned long long)k, (unsigned long long)h(k));
        MC_CHECK(v == it->second, "get(%llu): value %llu, expected %llu", (unsigned long long)k, (unsigned long long)v, (unsigned long long)it->second);
        MC_CHECK(d.contains(k, h(k)), "contains(%llu) is false but the key is stored", (unsigned long long)k);
    }
    void compare() {
        auto it = m.begin();
        for (auto & kv : hashes) {
            bool f; uint64 v; tie(f, v) = d.get(kv.first, (typename O::hash_type)kv.second);
            while (it != m.end() && it->first < kv.first) ++it;
            if (f != (it != m.end() && it->first == kv.first) || (f && v != it->second)) compare_one(kv.first);
        }
        MC_CHECK(d.size() == m.size(), "size() is %llu, %zu keys are stored", (unsigned long long)d.size(), m.size());
        MC_CHECK(d.empty() == m.empty(), "empty() is wrong");
        MC_CHECK(d.capacity() >= m.size(), "capacity() %llu is less than the number of keys", (unsigned long long)d.capacity());
    }
    void ensure_iter(const char * what, uint64 k, const typename D::iterator & at) {
        MC_CHECK((bool)at, "%s(%llu): iterator refers to nothing", what, (unsigned long long)k);
        MC_CHECK(at.key() == k, "%s(%llu): iterator refers to key %llu", what, (unsigned long long)k, (unsigned long long)at.key());
        MC_CHECK(at.value() == m[k], "%s(%llu): iterator refers to value %llu, expected %llu", what, (unsigned long long)k, (unsigned long long)at.value(), (unsigned long long)m[k]);
    }
    bool lookup(uint64 k, bool readonly, typename D::iterator & at) {
        mc::step();
        bool f; tie(f, at) = d.entry_for(k, h(k), readonly);
        mc::note("  lookup %llu%s -> %d", (unsigned long long)k, readonly ? " readonly" : "", (int)f);
        MC_CHECK(f == (m.count(k) != 0), "entry_for(%llu): found=%d but the key is %s", (unsigned long long)k, (int)f, m.count(k) ? "stored" : "absent");
        if (f) ensure_iter("entry_for", k, at);
        return f;
    }
    // insert or update through the iterator, as the cache does
    void put(uint64 k) {
        typename D::iterator at;
        uint64 v = stamp++;
        bool f = lookup(k, false, at);
        m[k] = v;
        mc::note("  put %llu = %llu", (unsigned long long)k, (unsigned long long)v);
        if (f) { at.unsafe_replace_kv(k, h(k), v); ensure_iter("replace", k, at); }
        else { auto w = d.insert(at, k, h(k), v); ensure_iter("insert", k, w); }
    }
    void del(uint64 k) {
        mc::step();
        bool r = d.del(k, h(k));
        mc::note("  del %llu -> %d", (unsigned long long)k, (int)r);
        bool e = m.erase(k) != 0;
        MC_CHECK(r == e, "del(%llu) returned %d but the key was %s", (unsigned long long)k, (int)r, e ? "stored" : "absent");
    }
    void remove(uint64 k, bool readonly) {   // through an iterator
        typename D::iterator at;
        if (lookup(k, readonly, at)) { mc::note("  remove %llu", (unsigned long long)k); d.remove(at); m.erase(k); }
    }
    template <class P> void remove_if(const char * name, P pred) {
        mc::step(); mc::note("  remove_if %s", name);
        std::map<uint64, int> asked;
        std::map<uint64, uint64> by_value; for (auto & kv : m) by_value[kv.second] = kv.first;
        d.remove_if([&](uint64 v) -> bool { MC_CHECK(by_value.count(v), "remove_if: predicate called with value %llu which is not stored", (unsigned long long)v); bool r = pred(by_value[v]); if (r) { MC_CHECK(!asked[v], "remove_if: removes value %llu twice", (unsigned long long)v); asked[v] = 1; } return r; });
        for (auto it = m.begin(); it != m.end();) if (pred(it->first)) m.erase(it++); else ++it;
    }
    void clear() { mc::step(); mc::note("  clear"); d.clear(); m.clear(); }
    void record() { uint64 x = 3 + d.capacity() * 2 + d.is_expanding(); for (auto & kv : m) { x = mc::hcombine(x, kv.first * 31 + hashes[kv.first]); } mc::state(x); }
};

// (A) fixed table: every placement of hashes, then every ordered pair of removals and a reinsertion
static void placements(int cap, int nkeys, const std::vector<uint64> & hv, int rmv) {
    TableT<Opt32> t((uint32)cap);
    MC_CHECK(t.ok(), "table creation failed");
    std::map<uint64, uint64> m; std::vector<uint64> h(nkeys);
    auto compare = [&] {
        for (int k = 0; k < nkeys; ++k) {
            bool f; uint64 v; tie(f, v) = t.get(k, (uint32)h[k]);
            MC_CHECK(f == (m.count(k) != 0), "get(%d): found=%d, expected %d", k, (int)f, (int)m.count(k));
            if (f) MC_CHECK(v == m[k], "get(%d): wrong value", k);
        }
        MC_CHECK(t.size() == m.size(), "size() is %u, expected %zu", t.size(), m.size());
        uint32 occupied = 0; for (uint32 p = 0; p < t.capacity(); ++p) occupied += !t.empty_at(p);
        MC_CHECK(occupied == m.size(), "%u slots are occupied, expected %zu", occupied, m.size());
    };
    for (int k = 0; k < nkeys; ++k) h[k] = hv[mc::choose((int)hv.size())];
    for (int k = 0; k < nkeys; ++k) {
        mc::step(); mc::note("  put %d hash %llx", k, (unsigned long long)h[k]);
        bool n = t.put(k, (uint32)h[k], 100 + k); MC_CHECK(n, "put(%d) of a new key reports an update", k); m[k] = 100 + k;
    }
    compare();
    uint64 sh = cap; for (int k = 0; k < nkeys; ++k) sh = mc::hcombine(sh, h[k]); mc::state(sh);
    for (int r = 0; r < rmv; ++r) {
        int k = mc::choose(nkeys);
        mc::step(); mc::note("  del %d", k);
        bool f = t.del(k, (uint32)h[k]); MC_CHECK(f == (m.erase(k) != 0), "del(%d) returned %d", k, (int)f);
        compare();
    }
    int k = 0; while (k < nkeys && m.count(k)) ++k;
    if (k < nkeys) { mc::step(); t.put(k, (uint32)h[k], 500); m[k] = 500; compare(); }
    mc::step(); bool n = t.put(nkeys - 1, (uint32)h[nkeys - 1], 600); MC_CHECK(n == !m.count(nkeys - 1), "put reports %d", (int)n); m[nkeys - 1] = 600; compare();
    int odd = 0; mc::step(); t.remove_if([&](uint64 v) { return v % 2 == 1; }); for (auto it = m.begin(); it != m.end();) if (it->second % 2 == 1) { m.erase(it++); ++odd; } else ++it;
    compare();
    t.clear(); m.clear(); compare();
}

// (B) small growing dicts: every history
template <class O> static void histories(size_t initial, const std::vector<uint64> & hashes, int depth, int prefill) {
    Sut<O> s(initial);
    int n = (int)hashes.size();
    for (int i = 0; i < n; ++i) s.hashes[i] = hashes[i];
    for (int i = 0; i < prefill; ++i) s.put(i);
    s.compare();
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(n * 4 + 3);
        if (c < n * 4) {
            uint64 k = c / 4; typename Sut<O>::D::iterator at;
            switch (c % 4) { case 0: s.put(k); break; case 1: s.del(k); break; case 2: s.remove(k, true); break; case 3: s.lookup(k, (d & 1) != 0, at); break; }
        } else switch (c - n * 4) {
            case 0: s.remove_if("odd", [](uint64 k) { return k % 2 == 1; }); break;
            case 1: s.remove_if("low", [](uint64 k) { return k < 2; }); break;
            case 2: s.clear(); break;
        }
        s.compare(); s.record();
    }
    for (int i = 0; i < n; ++i) s.put(i);
    s.compare();
}

// (C) expansion in several steps (a batch moves 512 entries)
static uint64 place(int mode, uint64 i, uint64 cap) {
    switch (mode) {
    case 0: return i + 1;                                   // one entry per slot
    case 1: return 1 + i / 4 * 4;                           // groups of equal hashes
    case 2: return cap - 40 + i * 31 / 32 + cap * (i % 5);  // one long run that wraps around, different bits above the mask
    case 3: return mc::mix(i + 17);                         // scattered
    case 4: return (i % 2) ? 0 : i;                         // half of them zero... kept short by the caller
    default: return cap / 2 + i / 8 * 8 + cap * (i % 8);    // eight per slot of the old table, spread over the new one
    }
}
template <class O> static void expansion(size_t initial, size_t fillup, int mode, int depth, int nprobe) {
    Sut<O> s(initial);
    uint64 next = 0;
    auto add = [&](uint64 k) { s.hashes[k] = place(mode, k, initial) & (sizeof(typename O::hash_type) == 4 ? 0xFFFFFFFFu : ~0ull); };
    for (; next < fillup; ++next) { add(next); s.put(next); }
    add(1000000); // a key that is never stored first
    s.compare();
    static const double at[] = {0.0, 0.93, 0.27, 0.55, 1.0, 0.5};
    std::vector<uint64> probe; for (int i = 0; i < nprobe; ++i) probe.push_back((uint64)(at[i] * (double)(fillup - 1)));
    probe.push_back(1000000);
    int n = (int)probe.size();
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(n * 5 + 3);
        typename Sut<O>::D::iterator w;
        if (c < n * 5) {
            uint64 k = probe[c / 5];
            switch (c % 5) { case 0: s.put(k); break; case 1: s.del(k); break; case 2: s.remove(k, true); break; case 3: s.lookup(k, true, w); break; case 4: s.lookup(k, false, w); break; }
        } else switch (c - n * 5) {
            case 0: add(next); s.put(next); next++; break;
            case 1: s.remove_if("third", [](uint64 k) { return k % 3 == 1; }); break;
            case 2: s.clear(); break;
        }
        s.record();
        s.compare();
    }
    // let the expansion finish, checking at every step
    for (int i = 0; i < 6; ++i) { add(next); s.put(next); next++; s.compare(); }
    mc::outcome(s.d.capacity() * 2 + s.d.is_expanding());
}

// (D) long churn with one deviating operation at every position
template <class O> static void churn(size_t initial, int keys, int len, int mode, bool phases) {
    Sut<O> s(initial);
    for (int i = 0; i < keys; ++i) s.hashes[i] = place(mode, i, 64) & 0xFFFFFFFFu;
    int dev = mc::choose(len / 32) * 32 + mc::choose(32), dop = mc::choose(4);
    unsigned st = 7;
    for (int i = 0; i < len; ++i) {
        st = st * 1103515245u + 12345u; unsigned r = (st >> 16) & 0x7fff;
        uint64 k = r % keys; int op = (r / keys) % 8;
        if (phases) op = ((i / keys) % 2 == 0) ? (op < 7 ? 0 : 1) : (op < 6 ? 1 : 0);   // fill and drain
        if (i == dev) { op = dop == 0 ? 0 : dop == 1 ? 1 : dop == 2 ? 6 : 7; }
        if (op <= 3 && !(phases && op == 1)) s.put(k); else if (op <= 5 || (phases && op == 1)) s.del(k); else if (op == 6) s.remove(k, (i & 1) != 0); else if (i == dev) s.remove_if("mod5", [](uint64 x) { return x % 5 == 0; }); else { typename Sut<O>::D::iterator w; s.lookup(k, true, w); }
        if (i % 16 == 15) { s.compare(); s.record(); } else s.compare_one(k);
    }
    s.compare();
}

// the index grows from a few slots to hundreds of thousands of keys, loses half of them and takes others
template <class O> static void vast(int bits) {
    static const size_t init[] = {1, 16, 4096}; size_t in = mc::pick(init); int mode = mc::choose(4), rm = mc::choose(3); DictT<O> d((typename O::size_type)in); const uint64 n = ((uint64)1 << bits) + 100;
    auto h = [&](uint64 k) -> typename O::hash_type { switch (mode) { case 0: return (typename O::hash_type)k; case 1: return (typename O::hash_type)(k * 2654435761u); case 2: return (typename O::hash_type)(k ^ (k << 13) ^ 0xFFFFFF00u); default: return (typename O::hash_type)(k / 4); } };
    auto gone = [&](uint64 k) { return rm && (rm == 1 ? k % 2 == 0 : k % 5 != 0); };
    auto put = [&](uint64 k, uint64 v) { bool f; typename DictT<O>::iterator at; tie(f, at) = d.entry_for(k, h(k), false); MC_CHECK(!f, "key %llu is found before it is stored", (unsigned long long)k); d.insert(at, k, h(k), v); };
    auto check = [&](uint64 upto, bool removed) { uint64 cnt = 0; for (uint64 k = 0; k < upto; ++k) { bool f; uint64 v; tie(f, v) = d.get(k, h(k)); bool want = !(removed && gone(k)); cnt += want; MC_CHECK(f == want, "get(%llu) with %llu keys: found=%d", (unsigned long long)k, (unsigned long long)upto, (int)f); if (f) MC_CHECK(v == k * 3 + 1, "get(%llu) with %llu keys: value %llu", (unsigned long long)k, (unsigned long long)upto, (unsigned long long)v); if ((k & 0x3FFF) == 0) mc::step(); } MC_CHECK(d.size() == cnt, "size() is %llu, expected %llu", (unsigned long long)d.size(), (unsigned long long)cnt); MC_CHECK(d.capacity() >= cnt, "capacity %llu", (unsigned long long)d.capacity()); bool f; uint64 v; tie(f, v) = d.get(n + 7, h(n + 7)); MC_CHECK(!f, "absent key is found"); };
    for (uint64 k = 0; k < n; ++k) { put(k, k * 3 + 1); if ((k & (k - 1)) == 0 && k >= 256) check(k + 1, false); }
    check(n, false);
    if (rm) { for (uint64 k = 0; k < n; ++k) if (gone(k)) { MC_CHECK(d.del(k, h(k)), "del(%llu) does not find the key", (unsigned long long)k); if ((k & 0x3FFF) == 0) mc::step(); } check(n, true); for (uint64 k = 0; k < n; ++k) if (gone(k)) put(k, k * 3 + 1); check(n, false); }
    mc::state(mc::hcombine(in * 16 + mode, rm));
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("placements-8", [=] { placements(8, 7, {0, 6, 7, 15}, 2); });
    mc::add("placements-8-low", [=] { placements(8, 7, {1, 2, 9, 0xFFFFFFFFu}, 2); });
    mc::add("placements-4", [=] { placements(4, 3, {0, 1, 2, 3, 4, 5, 7, 0x80000000u, 0xFFFFFFFFu}, 3); });
    mc::add("placements-16", [=] { placements(16, 8, {14, 15, 31}, th ? 3 : 2); });
    mc::add("placements-16-dense", [=] { placements(16, 14, {15, 0}, 2); });
    mc::add("placements-8-3rm", [=] { placements(8, 6, {5, 7, 8}, 4); });
    struct { const char * n; std::vector<uint64> h; } hs[] = {
        {"distinct", {1, 2, 3, 4, 5}}, {"equal", {3, 3, 3, 3, 3}}, {"zero", {0, 0, 1, 2, 0x100000000ull - 1}}, {"wrap", {7, 15, 8, 3, 0xFFFFFFFFull}}, {"high", {0x10000, 0x20000, 0x80000000ull, 0x80000001ull, 0x30000}},
    };
    for (auto & x : hs) for (size_t init : {1, 2, 4}) {
        auto h = x.h;
        mc::add(string("histories-") + x.n + "-" + std::to_string(init), [=] { histories<Opt32>(init, h, th ? 5 : 4, 0); });
        if (init == 4) mc::add(string("histories64-") + x.n, [=] { histories<Opt64>(init, h, th ? 5 : 4, 2); });
    }
    for (size_t init : {3, 5, 16}) { std::vector<uint64> h{13, 14, 15, 15, 14, 31, 0, 16, 17, 32, 15, 47, 13, 12, 29, 45}; mc::add("histories-threshold-" + std::to_string(init), [=] { histories<Opt32>(init, h, th ? 3 : 2, 13); }); }
    for (int mode : {0, 1, 2, 3, 5}) {
        mc::add("expansion1024-m" + std::to_string(mode), [=] { expansion<Opt32>(1024, 952, mode, th ? 3 : 2, 4); });
        mc::add("expansion2048-pre-m" + std::to_string(mode), [=] { expansion<Opt32>(2048, 1904, mode, 2, th ? 6 : 3); });
        mc::add("expansion2048-m" + std::to_string(mode), [=] { expansion<Opt32>(2048, 1905, mode, 2, th ? 6 : 4); });
        mc::add("expansion2048-m" + std::to_string(mode) + "-deep", [=] { expansion<Opt32>(2048, 1905, mode, 3, 1); });
        mc::add("expansion2048-64-m" + std::to_string(mode), [=] { expansion<Opt64>(2048, 1905, mode, 2, 2); });
    }
    mc::add("vast", [=] { vast<Opt32>(th ? 19 : 16); }, false, 3, 300); mc::add("vast64", [=] { vast<Opt64>(th ? 19 : 16); }, false, 3, 300);
    mc::add("expansion-zero", [=] { expansion<Opt32>(512, 477, 4, 2, 3); });
    mc::add("expansion4096", [=] { expansion<Opt32>(4096, 3809, 3, th ? 3 : 2, 1); });
    for (int mode : {0, 1, 2, 3}) for (int ph = 0; ph < 2; ++ph)
        mc::add("churn-m" + std::to_string(mode) + (ph ? "-phases" : ""), [=] { churn<Opt32>(ph ? 16 : 4, ph ? 60 : 20, th ? 4096 : 1024, mode, ph); });
    return mc::main_(argc, argv);
}
