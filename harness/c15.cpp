// C15: the C interface honours its contract
#define VCLOCK_IMPL
#include "mc.h"
#include "vclock.h"
#define HEAP_IMPL
#include "heap.h"
#include <cachelot/c_api.h>
#include <string>
#include <map>
#include <set>
#include <vector>
using std::string;

static string fill(size_t n, unsigned seed) { string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)('A' + (seed * 7 + i * 13 + (i >> 8) * 5) % 61); return s; }
struct MI { string v; bool forever; uint64_t exp; };
struct K { string k; uint32_t h; };

struct Capi;
static std::map<const void *, Capi *> callbacks_dummy;
static Capi * current = nullptr;            // the cache being called

struct Capi {
    CachelotPtr c = nullptr; CachelotOptions o; std::map<string, MI> m, gone; bool with_err = true; bool cb_on = false; uint64_t evictions = 0; bool ample = true;
    CachelotError err;
    CachelotError * dirty() { memset(&err, 0x5A, sizeof err); return with_err ? &err : nullptr; }
    void ok(const char * f) {
        mc::step();
        if (!with_err) return;
        if (err.code != 0 || err.category != nullptr || err.desription[0] != 0) mc::fail("%s succeeded but the error structure is not cleared (code %d)", f, err.code);
    }
    void bad(const char * f) {
        mc::step();
        if (!with_err) return;
        if (err.code == 0x5A5A5A5A) mc::fail("%s failed but the error code is %d", f, err.code);
        if (err.category == nullptr || (uintptr_t)err.category == 0x5A5A5A5A5A5A5A5Aull || !err.category[0]) mc::fail("%s failed but there is no error category", f);
        if (!memchr(err.desription, 0, sizeof err.desription)) mc::fail("%s failed, the description is not terminated", f);
        if (err.desription[0] == 0 || err.desription[0] == 0x5A) mc::fail("%s failed, the description is empty", f);
    }
    static CachelotItemKey ik(const K & k) { CachelotItemKey r; r.key = k.k.data(); r.keylen = k.k.size(); r.hash = k.h; return r; }
    bool init(size_t mem, size_t page, size_t dict, bool ev) {
        o.memory_limit = mem; o.mem_page_size = page; o.initial_dict_size = dict; o.enable_evictions = ev;
        auto e = dirty(); { heap::Scope s; c = cachelot_init(o, e); }
        mc::note("  init(%zu, %zu, %zu, %d) -> %s", mem, page, dict, ev, c ? "ok" : "NULL");
        if (c) ok("cachelot_init"); else bad("cachelot_init");
        return c != nullptr;
    }
    void destroy() { heap::Scope s; cachelot_destroy(c); c = nullptr; }
    void reap() { for (auto it = m.begin(); it != m.end();) if (!it->second.forever && it->second.exp <= vclock::now_s) { gone[it->first] = it->second; m.erase(it++); } else ++it; }
    template <int N> static void on_evict(CachelotConstItemPtr i) { heap::Pause p; current->evicted(i, N); }
    int cb_id = 0;
    void evicted(CachelotConstItemPtr i, int which) {
        evictions++;
        if (cb_on && which != cb_id) mc::fail("eviction is reported to callback #%d, callback #%d is installed in this cache", which, cb_id);
        if (!cb_on) mc::fail("eviction callback is called after it was reset");
        if (!o.enable_evictions) mc::fail("eviction callback although evictions are disabled");
        string k(cachelot_item_get_key(i), cachelot_item_get_keylen(i)), v(cachelot_item_get_value(i), cachelot_item_get_valuelen(i));
        mc::note("      evicted '%s'", k.c_str());
        auto it = m.find(k); if (it != m.end()) { if (it->second.v != v) mc::fail("evicted item '%s' has another value", k.c_str()); m.erase(it); return; }
        it = gone.find(k); if (it == gone.end()) mc::fail("eviction of '%s' which is not stored", k.c_str()); if (it->second.v != v) mc::fail("evicted item '%s' has another value", k.c_str()); gone.erase(it);
    }
    void callback(bool on, int id = 0) { heap::Scope s; cachelot_on_eviction_callback(c, !on ? nullptr : id == 0 ? on_evict<0> : id == 1 ? on_evict<1> : on_evict<2>); cb_on = on; if (on) cb_id = id; mc::note("  callback of %p: %s %d", (void *)this, on ? "on" : "off", id); }
    CachelotItemPtr create(const K & k, const string & v, bool may_fail = false) {
        auto e = dirty(); CachelotItemPtr i; current = this; { heap::Scope s; i = cachelot_create_item_raw(c, ik(k), v.data(), v.size(), e); }
        bool fits = k.k.size() <= 250 && v.size() + k.k.size() + 64 < o.mem_page_size;
        bool toobig = k.k.size() > 250 || v.size() + k.k.size() + 20 > o.mem_page_size;
        if (i) { ok("create_item_raw"); if (toobig) mc::fail("an item of %zu bytes with a key of %zu bytes is created", v.size(), k.k.size());
            if (string(cachelot_item_get_key(i), cachelot_item_get_keylen(i)) != k.k) mc::fail("key of the created item differs");
            if (string(cachelot_item_get_value(i), cachelot_item_get_valuelen(i)) != v) mc::fail("value of the created item differs");
            if (cachelot_item_get_ttl_seconds(i) != cachelot_infinite_TTL) mc::fail("created item has a finite time-to-live");
        } else { bad("create_item_raw"); if (fits && (ample || o.enable_evictions)) mc::fail("create_item_raw failed: %s", with_err ? err.desription : "?"); }
        return i;
    }
    // which: 0 set 1 add 2 replace 3 append 4 prepend
    void store(int which, const K & k, const string & v, uint32_t ttl = 0) {
        static const char * nm[] = {"set", "add", "replace", "append", "prepend"};
        reap();
        CachelotItemPtr i = create(k, v); 
        if (!i) { mc::note("  %s '%s' -> no item", nm[which], k.k.substr(0, 20).c_str()); return; }
        if (ttl) { cachelot_item_set_ttl_seconds(i, ttl); if (cachelot_item_get_ttl_seconds(i) != ttl) mc::fail("time-to-live is %u instead of %u", cachelot_item_get_ttl_seconds(i), ttl); }
        auto e = dirty(); bool r; current = this;
        { heap::Scope s; r = which == 0 ? cachelot_set(c, i, e) : which == 1 ? cachelot_add(c, i, e) : which == 2 ? cachelot_replace(c, i, e) : which == 3 ? cachelot_append(c, i, e) : cachelot_prepend(c, i, e); }
        mc::note("  %s '%s' '%s' ttl=%u -> %d", nm[which], k.k.c_str(), v.substr(0, 12).c_str(), ttl, r);
        auto it = m.find(k.k); bool present = it != m.end();
        bool exp = which == 0 ? true : which == 1 ? !present : present;
        if (which >= 3 && !r && present && with_err && err.category != nullptr) { bad(nm[which]); if (ample && it->second.v.size() + v.size() + k.k.size() + 64 < o.mem_page_size) mc::fail("%s failed: %s", nm[which], err.desription); return; }
        if (which >= 3 && !r && present && !with_err && (!ample || it->second.v.size() + v.size() + k.k.size() + 64 >= o.mem_page_size)) return;
        if (r != exp) mc::fail("%s '%s' returned %d, key was %s", nm[which], k.k.c_str(), r, present ? "present" : "absent");
        ok(nm[which]);
        gone.erase(k.k);
        if (r) { if (which < 3) m[k.k] = MI{v, ttl == 0, vclock::now_s + ttl}; else it->second.v = which == 3 ? it->second.v + v : v + it->second.v; }
    }
    void get(const K & k, bool quiet = false) {
        reap(); auto e = dirty(); CachelotConstItemPtr i; { heap::Scope s; i = cachelot_get_unsafe(c, ik(k), e); }
        if (!quiet) mc::note("  get '%s' -> %d", k.k.c_str(), i != nullptr);
        ok("get_unsafe");
        auto it = m.find(k.k); gone.erase(k.k);
        if ((it != m.end()) != (i != nullptr)) mc::fail("get '%s' returned %s, key is %s", k.k.c_str(), i ? "an item" : "NULL", it != m.end() ? "present" : "absent");
        if (!i) return;
        if (string(cachelot_item_get_key(i), cachelot_item_get_keylen(i)) != k.k) mc::fail("get '%s': another key", k.k.c_str());
        if (string(cachelot_item_get_value(i), cachelot_item_get_valuelen(i)) != it->second.v) mc::fail("get '%s': value is '%s', expected '%s'", k.k.c_str(), string(cachelot_item_get_value(i), std::min<size_t>(cachelot_item_get_valuelen(i), 40)).c_str(), it->second.v.substr(0, 40).c_str());
        uint32_t t = cachelot_item_get_ttl_seconds(i), et = it->second.forever ? cachelot_infinite_TTL : (uint32_t)(it->second.exp - vclock::now_s);
        if (t != et) mc::fail("get '%s': time-to-live is %u, expected %u", k.k.c_str(), t, et);
    }
    void del(const K & k) { reap(); auto e = dirty(); bool r; { heap::Scope s; r = cachelot_delete(c, ik(k), e); } mc::note("  delete '%s' -> %d", k.k.c_str(), r); ok("delete"); bool p = m.erase(k.k); gone.erase(k.k); if (r != p) mc::fail("delete '%s' returned %d", k.k.c_str(), r); }
    void touch(const K & k, uint32_t t) { reap(); auto e = dirty(); bool r; { heap::Scope s; r = cachelot_touch(c, ik(k), t, e); } mc::note("  touch '%s' %u -> %d", k.k.c_str(), t, r); ok("touch"); gone.erase(k.k); auto it = m.find(k.k); if (r != (it != m.end())) mc::fail("touch '%s' returned %d", k.k.c_str(), r); if (r) { it->second.forever = t == 0; it->second.exp = vclock::now_s + t; } }
    void arith(const K & k, uint64_t d, bool inc, bool want_result) {
        reap(); auto e = dirty(); uint64_t res = 0x1234; bool r; current = this;
        { heap::Scope s; r = inc ? cachelot_incr(c, ik(k), d, want_result ? &res : nullptr, e) : cachelot_decr(c, ik(k), d, want_result ? &res : nullptr, e); }
        mc::note("  %s '%s' %llu -> %d %llu", inc ? "incr" : "decr", k.k.c_str(), (unsigned long long)d, r, (unsigned long long)res);
        auto it = m.find(k.k); gone.erase(k.k);
        if (it == m.end()) { if (r) mc::fail("incr/decr of absent '%s' returned true", k.k.c_str()); ok(inc ? "incr (not found)" : "decr (not found)"); return; }
        bool num = !it->second.v.empty() && it->second.v.size() <= 19; for (char ch : it->second.v) if (ch < '0' || ch > '9') num = false;
        if (!num && it->second.v.size() <= 19) { if (r) mc::fail("incr/decr of non-number returned true"); bad(inc ? "incr of a non-number" : "decr of a non-number"); return; }
        if (!num) { if (!r) return; }
        if (!r) { bad("incr/decr"); if (ample || o.enable_evictions) mc::fail("incr/decr of '%s' failed", it->second.v.c_str()); return; }
        ok(inc ? "incr" : "decr");
        unsigned long long v = strtoull(it->second.v.c_str(), nullptr, 10), n = inc ? (v > ~0ULL - d ? ~0ULL : v + d) : (v < d ? 0 : v - d);
        if (want_result && res != n) mc::fail("incr/decr result is %llu, expected %llu", (unsigned long long)res, n);
        it->second.v = std::to_string(n);
    }
    void flush() { reap(); auto e = dirty(); { heap::Scope s; cachelot_flush_all(c, e); } mc::note("  flush_all"); ok("flush_all"); gone.clear(); }
    void hash(uint64_t & h) { for (auto & x : m) { h = mc::hcombine(h, mc::hstr(x.first)); h = mc::hcombine(h, mc::hstr(x.second.v)); h = mc::hcombine(h, x.second.forever ? 0 : 1 + x.second.exp - vclock::now_s); } h = mc::hcombine(h, cb_on); }
};

static void op(Capi & a, int c, const K & k, int d) {
    switch (c) {
    case 0: a.get(k); break;
    case 1: a.store(0, k, "15", 0); break;
    case 2: a.store(0, k, fill(12, d), 2); break;
    case 3: a.store(1, k, "7", 1); break;
    case 4: a.store(2, k, "8", 0); break;
    case 5: a.store(3, k, "9", 5); break;
    case 6: a.store(4, k, "1", 0); break;
    case 7: a.del(k); break;
    case 8: a.touch(k, 3); break;
    case 9: a.arith(k, 9, true, d % 2 == 0); break;
    case 10: a.arith(k, 9, false, d % 2 == 1); break;
    case 11: a.flush(); break;
    case 12: vclock::now_s++; mc::note("  clock +1s"); break;
    case 13: a.store(0, k, "", 0); break;
    case 14: a.store(0, k, fill(a.o.mem_page_size, d), 0); break;      // too big
    case 15: { K l{string(251, 'L'), k.h}; a.store(0, l, "x", 0); break; }
    case 16: { a.reap(); auto i = a.create(k, "never stored"); if (i) { heap::Scope s; cachelot_destroy_item(a.c, i); } break; }
    case 18: a.touch(k, 0); break;
    case 17: a.store(3, k, fill(a.o.mem_page_size - 80, d), 0); break;   // does not fit together with the existing value
    }
}
static const int N_OPS = 19;
static void sequences(int depth, int keys, bool err) {
    vclock::reset(); heap::reset(); current = nullptr;
    Capi a; a.with_err = err;
    if (!a.init(4 * 4096, 4096, 4, true)) mc::fail("init failed");
    K ks[] = {{"a", 5}, {"b", 5}};
    for (int d = 0; d < depth; ++d) { int c = mc::choose(N_OPS * keys); op(a, c % N_OPS, ks[c / N_OPS], d); a.reap(); uint64_t h = 1; a.hash(h); mc::state(h); }
    for (auto & k : ks) a.get(k, true);
    a.destroy();
    MC_CHECK(heap::live == 0, "destroying the cache left %ld blocks of memory", heap::live);
}
// two caches side by side
static void two(int depth) {
    vclock::reset(); heap::reset();
    Capi a, b; if (!a.init(4 * 1024, 1024, 4, true) || !b.init(8 * 256, 256, 16, false)) mc::fail("init failed");
    b.ample = false;
    a.callback(true);
    K k{"k", 7}; std::vector<K> all{k, {"f0", 9}, {"f1", 9}, {"f2", 9}, {"f3", 9}, {"f4", 9}};
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(16); Capi & x = c % 2 ? b : a; c /= 2;
        switch (c) {
        case 0: x.get(k); break; case 1: x.store(0, k, std::to_string(d + 10), 0); break; case 2: x.del(k); break; case 3: x.arith(k, 1, true, true); break;
        case 4: x.store(3, k, "5"); break; case 5: for (int i = 0; i < 5; ++i) x.store(0, all[1 + i], fill(x.o.mem_page_size - 80, i)); break;
        case 6: x.flush(); break; case 7: x.store(1, k, "add", 0); break;
        }
        uint64_t h = 1; a.hash(h); b.hash(h); mc::state(h);
    }
    for (auto & q : all) { a.get(q, true); b.get(q, true); }
    if (mc::flip()) { a.destroy(); for (auto & q : all) b.get(q, true); b.store(2, k, "alive"); b.get(k); b.destroy(); }
    else { b.destroy(); for (auto & q : all) a.get(q, true); a.store(0, k, "alive"); a.get(k); a.destroy(); }
    MC_CHECK(heap::live == 0, "destroying the caches left %ld blocks of memory", heap::live);
}
// two evicting caches with callbacks of their own, which are replaced in between
static void two_callbacks(int depth) {
    vclock::reset(); heap::reset();
    Capi a, b; if (!a.init(4 * 256, 256, 4, true) || !b.init(4 * 256, 256, 4, true)) mc::fail("init failed");
    a.ample = b.ample = false; int order = mc::choose(2); if (order) { a.callback(true, 0); b.callback(true, 1); } else { b.callback(true, 1); a.callback(true, 0); }
    std::vector<K> ks; for (int i = 0; i < 6; ++i) ks.push_back(K{"t" + std::to_string(i), (uint32_t)(i % 2)});
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(8); Capi & x = c % 2 ? b : a;
        switch (c / 2) {
        case 0: for (int i = 0; i < 6; ++i) x.store(0, ks[i], fill(150, d + i)); break;
        case 1: x.callback(true, (x.cb_id + 1) % 3); break;
        case 2: x.store(0, ks[d % 6], "12"); break;
        case 3: x.arith(ks[(d + 5) % 6], 5, true, true); break;
        }
        uint64_t h = 1; a.hash(h); b.hash(h); mc::state(mc::hcombine(h, a.cb_id * 3 + b.cb_id));
    }
    for (auto & q : ks) { a.get(q, true); b.get(q, true); }
    if (mc::flip()) { a.destroy(); for (int i = 0; i < 6; ++i) b.store(0, ks[i], fill(150, 70 + i)); b.destroy(); } else { b.destroy(); for (int i = 0; i < 6; ++i) a.store(0, ks[i], fill(150, 70 + i)); a.destroy(); }
    MC_CHECK(heap::live == 0, "destroying the caches left %ld blocks of memory", heap::live);
}
// the callback is installed, replaced and reset under memory pressure
static void evictions(int depth) {
    vclock::reset(); heap::reset();
    Capi a; if (!a.init(4 * 256, 256, 4, true)) mc::fail("init failed");
    a.ample = false;
    std::vector<K> ks; for (int i = 0; i < 24; ++i) ks.push_back(K{"e" + std::to_string(i), (uint32_t)(i % 3)});
    int n = 0; bool tracked = true;    // while the callback is off evictions are silent: contents are compared only for what is found
    a.callback(true);
    for (int d = 0; d < depth; ++d) {
        switch (mc::choose(7)) {
        case 0: a.store(0, ks[n++ % 24], fill(150, d)); break;
        case 1: a.store(0, ks[n++ % 24], "5"); break;
        case 2: for (int i = 0; i < 6; ++i) a.store(0, ks[n++ % 24], fill(60, d + i)); break;
        case 3: if (n) { if (tracked) a.get(ks[(n - 1) % 24]); else { auto e = a.dirty(); cachelot_get_unsafe(a.c, Capi::ik(ks[(n - 1) % 24]), e); a.ok("get_unsafe"); } } break;
        case 4: a.callback(true, d % 3); break;
        case 5: a.callback(false); tracked = false; break;
        case 6: if (n) { if (tracked) a.arith(ks[(n - 1) % 24], 5, true, true); } break;
        }
        if (!tracked) { // resynchronise: ask the cache what is left, contents must still match
            std::vector<string> lost; for (auto & e : a.m) { K k{e.first, 0}; for (auto & q : ks) if (q.k == e.first) k = q; auto er = a.dirty(); auto i = cachelot_get_unsafe(a.c, Capi::ik(k), er); a.ok("get_unsafe"); if (!i) lost.push_back(e.first); else if (string(cachelot_item_get_value(i), cachelot_item_get_valuelen(i)) != e.second.v) mc::fail("'%s' changed", e.first.c_str()); }
            for (auto & l : lost) a.m.erase(l);
            if (a.cb_on) tracked = true;
        }
        uint64_t h = 1; a.hash(h); mc::state(h);
    }
    uint64_t before = a.evictions;
    a.destroy();
    MC_CHECK(before == a.evictions, "destroying the cache invokes the eviction callback");
    MC_CHECK(heap::live == 0, "destroying the cache left %ld blocks of memory", heap::live);
}
// every combination of options
static void options(bool err) {
    vclock::reset(); heap::reset();
    static const size_t mem[] = {0, 1, 255, 256, 1000, 1023, 1024, 1536, 2048, 4096, 65536, 1u << 20, (size_t)1 << 63, ~(size_t)0};
    static const size_t page[] = {0, 1, 2, 64, 128, 255, 256, 300, 512, 1024, 65536, (size_t)1 << 32, ~(size_t)0};
    static const size_t dict[] = {0, 1, 3, 4, 1024, (size_t)1 << 32, ~(size_t)0};
    Capi a; a.with_err = err;
    size_t M = mc::pick(mem), P = mc::pick(page), D = mc::pick(dict); bool ev = mc::flip();
    auto pow2 = [](size_t x) { return x && !(x & (x - 1)); };
    bool valid = pow2(M) && pow2(P) && P >= 256 && M / 4 >= P && M <= (1u << 20) && pow2(D) && D <= 1024;
    bool r = a.init(M, P, D, ev);
    MC_CHECK(r == valid, "init(%zu, %zu, %zu) %s", M, P, D, r ? "succeeded" : "failed");
    mc::state(mc::hcombine(mc::hcombine(M, P), D * 2 + ev));
    if (r) { K k{"k", 1}; a.store(0, k, "v"); a.get(k); a.destroy(); }
    cachelot_destroy(nullptr);
    MC_CHECK(heap::live == 0, "%ld blocks of memory are left", heap::live);
}
// keys and values of many shapes, hash function, version
static void shapes() {
    vclock::reset(); heap::reset();
    static const size_t kl[] = {1, 2, 100, 249, 250, 251, 300}; static const size_t vl[] = {0, 1, 255, 256, 1000, 3000, 4000, 5000, 100000};
    static const uint32_t ttls[] = {0, 1, 60, 65536, 0x7fffffff, 0x80000000u};
    Capi a; a.with_err = mc::flip(); a.init(4 * 4096, 4096, 4, mc::flip());
    a.ample = true;
    string ks = fill(mc::pick(kl), 3); ks[0] = '\0'; if (ks.size() > 5) { ks[3] = '\n'; ks[4] = (char)0xff; }
    string vs = fill(mc::pick(vl), 9); if (vs.size() > 2) vs[1] = '\0';
    K k{ks, cachelot_hash(ks.data(), ks.size())}; MC_CHECK(k.h == cachelot_hash(string(ks).data(), ks.size()), "hash is not deterministic");
    uint32_t t = mc::pick(ttls);
    a.store(0, k, vs, t); a.get(k); a.store(1, k, "x"); a.store(2, k, vs, t); a.get(k); a.touch(k, t); a.get(k);
    if (t && t < 100 && ks.size() <= 250) { vclock::now_s += t - 1; a.get(k); vclock::now_s += 1; a.get(k); }
    a.del(k); a.get(k);
    MC_CHECK(cachelot_version() && cachelot_version()[0], "no version");
    mc::state(mc::hcombine(ks.size(), vs.size() * 7 + t));
    a.destroy();
    MC_CHECK(heap::live == 0, "%ld blocks of memory are left", heap::live);
}
// big values: every pair of a value length and an appended/prepended length around the powers of two up to 1 MiB
static void big() {
    vclock::reset(); heap::reset();
    static const size_t lens[] = {0, 1, 300, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 200000, 524288, 1048575, 1048576, 1100000};
    Capi a; a.init(size_t(8) << 21, size_t(1) << 21, 4, mc::flip()); a.ample = true;
    K k{"big", 3}, n1{"n1", 3}, n2{"n2", 4};
    size_t l1 = mc::pick(lens), l2 = mc::pick(lens); int how = mc::choose(5);
    a.store(0, n1, fill(500, 1)); a.store(0, k, fill(l1, 2)); a.store(0, n2, fill(900, 3)); a.get(k);
    a.store(how, k, fill(l2, 4)); a.get(k); a.get(n1); a.get(n2);
    a.store(0, k, fill(l1, 5)); a.get(k); a.get(n1); a.get(n2); a.del(k); a.get(k); a.get(n1);
    mc::state(mc::hcombine(l1 * 5 + how, l2));
    a.destroy();
    MC_CHECK(heap::live == 0, "%ld blocks of memory are left", heap::live);
}
// items which are created and destroyed without being stored give their memory back
static void discarded() {
    vclock::reset(); heap::reset(); static const size_t lens[] = {0, 40, 100, 180}; Capi a; bool ev = mc::flip(); a.init(4 * 256, 256, 4, ev); a.callback(true); a.ample = false;
    auto capacity = [&] { std::vector<CachelotItemPtr> v; for (int i = 0; i < 4; ++i) { auto p = a.create(K{"m" + std::to_string(i), 9}, fill(180, i)); MC_CHECK(p, "item #%d of an empty cache could not be created", i); v.push_back(p); } for (auto p : v) { heap::Scope s; cachelot_destroy_item(a.c, p); } };
    bool keep = mc::flip(); K kept{"kept", 3}; if (keep) a.store(0, kept, "stays");
    int n = 1 + mc::choose(3), order = mc::choose(6); std::vector<CachelotItemPtr> held; std::vector<size_t> l; for (int i = 0; i < n; ++i) l.push_back(mc::pick(lens));
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    { heap::Scope s; cachelot_destroy_item(a.c, nullptr); }
    for (int round = 0; round < 8; ++round) {
        held.clear(); for (int i = 0; i < n; ++i) { auto p = a.create(K{"h" + std::to_string(i), (uint32_t)i}, fill(l[i], round + i)); MC_CHECK(p, "round %d: item #%d could not be created although nothing else is stored", round, i); held.push_back(p); }
        for (int i : perm[order]) if (i < n) { heap::Scope s; cachelot_destroy_item(a.c, held[i]); }
        MC_CHECK(a.evictions == 0, "an item was evicted although the memory is free"); mc::step();
        for (int i = 0; i < n; ++i) a.get(K{"h" + std::to_string(i), (uint32_t)i}, true);
    }
    a.get(kept); if (keep) a.del(kept); capacity(); MC_CHECK(a.evictions == 0, "an item was evicted from an empty cache"); mc::state(mc::hcombine(n * 6 + order, mc::hcombine(l[0], l.back())));
    a.destroy(); MC_CHECK(heap::live == 0, "destroying the cache left %ld blocks of memory", heap::live);
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("sequences-1key", [=] { sequences(th ? 6 : 5, 1, true); });
    mc::add("sequences-2keys", [=] { sequences(th ? 5 : 4, 2, true); });
    mc::add("sequences-null-error", [=] { sequences(3, 2, false); });
    mc::add("two-caches", [=] { two(th ? 5 : 4); });
    mc::add("two-callbacks", [=] { two_callbacks(th ? 5 : 4); });
    mc::add("evictions", [=] { evictions(th ? 7 : 6); });
    mc::add("options", [=] { options(true); }); mc::add("options-null-error", [=] { options(false); });
    mc::add("shapes", shapes); mc::add("big", big); mc::add("discarded", discarded);
    return mc::main_(argc, argv);
}
