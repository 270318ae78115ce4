// System under test (real cachelot::cache::Cache) stepped together with a reference model.
#ifndef CL_H
#define CL_H
#include "mc.h"
#include "vclock.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <map>
#include <set>
#include <memory>

namespace cl {
using namespace cachelot;
using std::string;

struct Key { string k; uint32 h; };
inline Key K(const string & k, uint32 h) { return Key{k, h}; }

struct MItem {
    string value; uint16 flags; uint64 cas; bool forever; uint64 exp; uint32 hash;
    bool operator==(const MItem & o) const { return value == o.value && flags == o.flags; }
};
typedef std::map<string, MItem> Model;

inline string show(const string & s, size_t max = 24) {
    string o; char b[8];
    for (size_t i = 0; i < s.size() && i < max; ++i) { unsigned char c = s[i]; if (c >= 33 && c < 127 && c != '\\') o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } }
    if (s.size() > max) { snprintf(b, 8, "..."); o += b; o += "(" + std::to_string(s.size()) + ")"; }
    return o;
}
// deterministic, position dependent filler; different seeds differ at every position
inline string fill(size_t n, unsigned seed) { string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)('A' + (seed * 7 + i * 13 + (i >> 8) * 5) % 61); return s; }

enum Res { OK = 1, NO = 0, ERR_OOM = -1, ERR_BIG = -2, ERR_KEY = -3, ERR_NUM = -4, ERR_ALLOC = -5, ERR_OTHER = -9 };
inline const char * rname(int r) { switch (r) { case 1: return "ok"; case 0: return "no"; case -1: return "out_of_memory"; case -2: return "item_too_big"; case -3: return "key_too_long"; case -4: return "numeric"; case -5: return "bad_alloc"; default: return "other-error"; } }

inline int classify(const system_error & e) {
    auto c = e.code();
    if (c == error::make_error_code(error::out_of_memory)) return ERR_OOM;
    if (c == error::make_error_code(error::item_too_big)) return ERR_BIG;
    if (c == error::make_error_code(error::key_too_long)) return ERR_KEY;
    if (c == error::make_error_code(error::numeric_convert) || c == error::make_error_code(error::numeric_overflow)) return ERR_NUM;
    return ERR_OTHER;
}

inline bool parse_u64(const string & s, uint64 & out) {
    if (s.empty() || s.size() > 20) return false;
    unsigned __int128 v = 0;
    for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); }
    if (v > (unsigned __int128)0xFFFFFFFFFFFFFFFFULL) return false;
    out = (uint64)v; return true;
}

struct Sut {
    size_t pages, page_size, dict; bool evict;
    std::unique_ptr<cache::Cache> c;
    Model m;                    // live items (may contain expired, not yet accessed ones)
    Model lingering;            // expired items whose memory the cache may still hold
    std::set<uint64> used_cas;  // every unique id ever seen
    uint64 evictions = 0;
    uint64 evictions_this_op = 0;
    std::set<string> evicted_this_op;
    bool eviction_allowed = true;
    bool check_ids = false;
    bool ample = false;         // memory is plentiful: out-of-memory is never acceptable
    string protect;             // this key must not be evicted by the current command
    bool has_protect = false;
    std::function<void(const string &)> on_evict_hook;

    Sut(size_t pages_, size_t page_size_, size_t dict_, bool evict_) : pages(pages_), page_size(page_size_), dict(dict_), evict(evict_) {
        c.reset(new cache::Cache(cache::Cache::Create(pages * page_size, page_size, dict, evict)));
        c->on_eviction = [this](cache::ConstItemPtr i) { evicted(i); };
    }
    ~Sut() { if (c) c->on_eviction = nullptr; }

    static size_t overhead(const string & k) { return sizeof(cache::Item) + k.size(); }
    size_t usable() const { return page_size - memalloc::header_size(); }
    // largest value length for key k
    size_t max_value(const string & k) const { return usable() - overhead(k); }

    bool expired(const MItem & i) const { return !i.forever && i.exp <= vclock::now_s; }
    // move expired items of the model out of the live set
    bool any_ttl = false;       // some item was ever given a finite lifetime
    void reap() {
        if (!any_ttl) return;
        for (auto it = m.begin(); it != m.end();) if (expired(it->second)) { lingering[it->first] = it->second; pending_id.erase(it->first); m.erase(it++); } else ++it;
    }
    void same(const char * what, const string & k, const MItem & e, cache::ConstItemPtr i) {
        if (i->key() != slice(k.data(), k.size())) mc::fail("%s: item key is '%s', expected '%s'", what, show(i->key().str()).c_str(), show(k).c_str());
        if (i->value().length() != e.value.size() || memcmp(i->value().begin(), e.value.data(), e.value.size()) != 0)
            mc::fail("%s: value of '%s' is '%s'(%zu), expected '%s'(%zu)", what, show(k).c_str(), show(i->value().str()).c_str(), i->value().length(), show(e.value).c_str(), e.value.size());
        if (i->opaque_flags() != e.flags) mc::fail("%s: flags of '%s' are %u, expected %u", what, show(k).c_str(), i->opaque_flags(), e.flags);
        if (check_ids && e.cas != 0 && i->timestamp() != e.cas) mc::fail("%s: unique id of '%s' is %llu, expected %llu", what, show(k).c_str(), (unsigned long long)i->timestamp(), (unsigned long long)e.cas);
    }
    void evicted(cache::ConstItemPtr i) {
        evictions++; evictions_this_op++;
        string k = i->key().str();
        mc::note("      evicted '%s'", show(k).c_str());
        if (!evict || !eviction_allowed) mc::fail("eviction callback for '%s' although evictions are impossible here", show(k).c_str());
        if (has_protect && k == protect) mc::fail("item '%s' of the immediately preceding command was evicted", show(k).c_str());
        auto it = m.find(k);
        if (it != m.end()) { same("evicted item", k, it->second, i); m.erase(it); }
        else {
            auto l = lingering.find(k);
            if (l == lingering.end()) mc::fail("eviction callback for '%s' which is not stored (reported twice or never stored)", show(k).c_str());
            same("evicted expired item", k, l->second, i); lingering.erase(l);
        }
        evicted_this_op.insert(k); pending_id.erase(k);
        if (on_evict_hook) on_evict_hook(k);
    }
    void begin() { mc::step(); evictions_this_op = 0; evicted_this_op.clear(); reap(); }

    // create item + store command; returns Res.  `mk` set to false if item creation itself failed
    template <class F> int store(const Key & key, const string & v, uint16 flags, uint32 ttl, F && fun) {
        cache::ItemPtr item = nullptr; item_created = false;
        try {
            item = c->create_item(slice(key.k.data(), key.k.size()), key.h, v.size(), flags, cache::seconds(ttl));
            item_created = true; item->assign_value(slice(v.data(), v.size()));
            return fun(item) ? OK : NO;
        } catch (const system_error & e) { return classify(e); }
        catch (const std::bad_alloc &) { return ERR_ALLOC; }
        catch (const std::exception & e) { return ERR_OTHER; }
    }
    uint64 last_id = 0; bool item_created = false;
    uint64 exp_at(uint32 ttl) const { return vclock::now_s + ttl; }

    // expected error for storing v under key
    int expect_size_error(const Key & key, size_t vlen) const {
        if (key.k.size() > 250) return ERR_KEY;
        if (overhead(key.k) + vlen > usable()) return ERR_BIG;
        return OK;
    }
    // decides whether an error is acceptable; true if op was refused
    bool refused(const char * op, const Key & key, size_t vlen, int r) {
        int e = expect_size_error(key, vlen);
        if (e != OK) {
            if (r != e) mc::fail("%s '%s' with %zu bytes: got %s, expected %s", op, show(key.k).c_str(), vlen, rname(r), rname(e));
            if (evictions_this_op) mc::fail("%s '%s': refused (%s) but evicted items", op, show(key.k).c_str(), rname(e));
            return true;
        }
        if (r == ERR_OOM) {
            if (evict || ample) mc::fail("%s '%s': out of memory although %s", op, show(key.k).c_str(), evict ? "evictions are enabled" : "plenty of memory is free");
            return true;
        }
        if (r < 0) mc::fail("%s '%s': unexpected error %s", op, show(key.k).c_str(), rname(r));
        return false;
    }
    MItem mk(const Key & key, const string & v, uint16 flags, uint32 ttl) { if (ttl) any_ttl = true; return MItem{v, flags, 0, ttl == 0, exp_at(ttl), key.h}; }

    void id_is_new(const char * op, const string & k) {
        if (!check_ids) return;
        if (!used_cas.insert(last_id).second) mc::fail("%s '%s': unique id %llu was used before", op, show(k).c_str(), (unsigned long long)last_id);
    }
    void put(const Key & key, const string & v, uint16 flags, uint32 ttl) { m[key.k] = mk(key, v, flags, ttl); lingering.erase(key.k); pending_id.insert(key.k); }   // the fresh id is learned by the next read

    int set(const Key & key, const string & v, uint16 flags = 0, uint32 ttl = 0) {
        begin();
        int r = store(key, v, flags, ttl, [&](cache::ItemPtr i) { c->do_set(i); return true; });
        mc::note("  set '%s' '%s' flags=%u ttl=%u -> %s", show(key.k).c_str(), show(v).c_str(), flags, ttl, rname(r));
        if (refused("set", key, v.size(), r)) return r;
        reap();
        put(key, v, flags, ttl);
        return r;
    }
    int add(const Key & key, const string & v, uint16 flags = 0, uint32 ttl = 0) {
        begin();
        int r = store(key, v, flags, ttl, [&](cache::ItemPtr i) { return c->do_add(i); });
        mc::note("  add '%s' '%s' flags=%u ttl=%u -> %s", show(key.k).c_str(), show(v).c_str(), flags, ttl, rname(r));
        if (refused("add", key, v.size(), r)) return r;
        reap();
        bool present = m.count(key.k) != 0;
        if ((r == OK) == present) mc::fail("add '%s': returned %s but key was %s", show(key.k).c_str(), rname(r), present ? "present" : "absent");
        lingering.erase(key.k);
        if (!present) { put(key, v, flags, ttl); }
        return r;
    }
    int replace(const Key & key, const string & v, uint16 flags = 0, uint32 ttl = 0) {
        begin();
        int r = store(key, v, flags, ttl, [&](cache::ItemPtr i) { return c->do_replace(i); });
        mc::note("  replace '%s' '%s' flags=%u ttl=%u -> %s", show(key.k).c_str(), show(v).c_str(), flags, ttl, rname(r));
        if (refused("replace", key, v.size(), r)) return r;
        reap();
        bool present = m.count(key.k) != 0;
        if ((r == OK) != present) mc::fail("replace '%s': returned %s but key was %s", show(key.k).c_str(), rname(r), present ? "present" : "absent");
        if (present) { put(key, v, flags, ttl); }
        lingering.erase(key.k);
        return r;
    }
    // returns OK stored, NO not found, 2 exists
    int cas(const Key & key, const string & v, uint64 id, uint16 flags = 0, uint32 ttl = 0) {
        begin();
        bool found = false, stored = false;
        int r = store(key, v, flags, ttl, [&](cache::ItemPtr i) { tie(found, stored) = c->do_cas(i, id); return stored; });
        mc::note("  cas '%s' '%s' id=%llu -> %s found=%d", show(key.k).c_str(), show(v).c_str(), (unsigned long long)id, rname(r), (int)found);
        if (refused("cas", key, v.size(), r)) return r;
        reap();
        auto it = m.find(key.k);
        bool present = it != m.end();
        if (found != present) mc::fail("cas '%s': found=%d but key was %s", show(key.k).c_str(), (int)found, present ? "present" : "absent");
        bool match = present && !pending_id.count(key.k) && it->second.cas == id;
        if (stored != match) mc::fail("cas '%s': stored=%d but the item was %s since the id was read", show(key.k).c_str(), (int)stored, match ? "unchanged" : "changed or absent");
        if (stored) { put(key, v, flags, ttl); }
        lingering.erase(key.k);
        return !present ? NO : (stored ? OK : 2);
    }
    int extend(const Key & key, const string & v, bool append) {
        begin();
        const char * op = append ? "append" : "prepend";
        int r = store(key, v, 0xBEEF, 77, [&](cache::ItemPtr i) { return append ? c->do_append(i) : c->do_prepend(i); });
        mc::note("  %s '%s' '%s' -> %s", op, show(key.k).c_str(), show(v).c_str(), rname(r));
        int e = expect_size_error(key, v.size());
        if (e != OK) { refused(op, key, v.size(), r); return r; }
        reap();
        auto it = m.find(key.k);
        bool present = it != m.end();
        if (r == ERR_OOM && !item_created && !ample && !evict) return r;      // no memory for the piece
        if (present) {
            int e2 = expect_size_error(key, it->second.value.size() + v.size());
            if (e2 != OK) { if (r != e2) mc::fail("%s '%s' to %zu bytes: got %s, expected %s", op, show(key.k).c_str(), it->second.value.size() + v.size(), rname(r), rname(e2)); return r; }
            if (r == ERR_OOM && !ample) return r;      // append and prepend do not evict: may be refused; nothing changes
        }
        if (r < 0) mc::fail("%s '%s': unexpected error %s", op, show(key.k).c_str(), rname(r));
        if ((r == OK) != present) mc::fail("%s '%s': returned %s but key was %s", op, show(key.k).c_str(), rname(r), present ? "present" : "absent");
        if (present) {
            it->second.value = append ? it->second.value + v : v + it->second.value;
            it->second.cas = 0; // learned on next read; must be fresh
            pending_id.insert(key.k);
        }
        lingering.erase(key.k);
        return r;
    }
    std::set<string> pending_id; // keys whose new unique id is not known yet
    int append(const Key & key, const string & v) { return extend(key, v, true); }
    int prepend(const Key & key, const string & v) { return extend(key, v, false); }

    int arith(const Key & key, uint64 delta, bool incr) {
        begin();
        const char * op = incr ? "incr" : "decr";
        // the item may not be evicted by its own update
        bool found = false; uint64 nv = 0; int r;
        { has_protect_arith = true; string save = protect; bool hs = has_protect; protect = key.k; has_protect = m.count(key.k) != 0;
          try { if (incr) tie(found, nv) = c->do_incr(slice(key.k.data(), key.k.size()), key.h, delta); else tie(found, nv) = c->do_decr(slice(key.k.data(), key.k.size()), key.h, delta); r = found ? OK : NO; }
          catch (const system_error & e) { r = classify(e); } catch (const std::bad_alloc &) { r = ERR_ALLOC; } catch (const std::exception &) { r = ERR_OTHER; }
          protect = save; has_protect = hs; has_protect_arith = false; }
        mc::note("  %s '%s' %llu -> %s %llu", op, show(key.k).c_str(), (unsigned long long)delta, rname(r), (unsigned long long)nv);
        reap();
        auto it = m.find(key.k);
        bool present = it != m.end();
        lingering.erase(key.k);
        if (!present) { if (r != NO) mc::fail("%s '%s': returned %s but key is absent", op, show(key.k).c_str(), rname(r)); return r; }
        uint64 old;
        if (!parse_u64(it->second.value, old)) { if (r != ERR_NUM) mc::fail("%s '%s': value '%s' is not a number but command returned %s", op, show(key.k).c_str(), show(it->second.value).c_str(), rname(r)); return r; }
        uint64 exp = incr ? (old > ~0ULL - delta ? ~0ULL : old + delta) : (old < delta ? 0 : old - delta);
        string es = std::to_string((unsigned long long)exp);
        if (r == ERR_OOM && !evict && !ample) return r;
        if (r == ERR_BIG && expect_size_error(key, es.size()) == ERR_BIG) return r;
        if (r != OK) mc::fail("%s '%s': returned %s for a present numeric value", op, show(key.k).c_str(), rname(r));
        if (nv != exp) mc::fail("%s '%s' of %llu by %llu returned %llu, expected %llu", op, show(key.k).c_str(), (unsigned long long)old, (unsigned long long)delta, (unsigned long long)nv, (unsigned long long)exp);
        it->second.value = es; it->second.cas = 0; pending_id.insert(key.k);
        return r;
    }
    bool has_protect_arith = false;
    int incr(const Key & key, uint64 d) { return arith(key, d, true); }
    int decr(const Key & key, uint64 d) { return arith(key, d, false); }

    int del(const Key & key) {
        begin();
        bool r = c->do_delete(slice(key.k.data(), key.k.size()), key.h);
        mc::note("  delete '%s' -> %d", show(key.k).c_str(), (int)r);
        reap();
        bool present = m.erase(key.k) != 0; pending_id.erase(key.k);
        lingering.erase(key.k);
        if (r != present) mc::fail("delete '%s': returned %d but key was %s", show(key.k).c_str(), (int)r, present ? "present" : "absent");
        return r;
    }
    int touch(const Key & key, uint32 ttl) {
        begin();
        bool r = c->do_touch(slice(key.k.data(), key.k.size()), key.h, cache::seconds(ttl));
        mc::note("  touch '%s' ttl=%u -> %d", show(key.k).c_str(), ttl, (int)r);
        reap();
        auto it = m.find(key.k);
        bool present = it != m.end();
        lingering.erase(key.k);
        if (r != present) mc::fail("touch '%s': returned %d but key was %s", show(key.k).c_str(), (int)r, present ? "present" : "absent");
        if (present) { if (ttl) any_ttl = true; it->second.forever = ttl == 0; it->second.exp = exp_at(ttl); }
        return r;
    }
    void flush() {
        begin();
        c->do_flush_all();
        mc::note("  flush_all");
        reap();
        lingering.clear();
    }
    // get and compare with the model; returns found
    bool get(const Key & key, bool quiet = false) {
        begin();
        auto i = c->do_get(slice(key.k.data(), key.k.size()), key.h);
        if (!quiet) mc::note("  get '%s' -> %s", show(key.k).c_str(), i ? show(i->value().str()).c_str() : "(none)");
        reap();
        auto it = m.find(key.k);
        lingering.erase(key.k);
        if (it == m.end()) { if (i) mc::fail("get '%s': returned '%s' but the key is absent", show(key.k).c_str(), show(i->value().str()).c_str()); return false; }
        if (!i) mc::fail("get '%s': not found but it was stored as '%s' and not removed", show(key.k).c_str(), show(it->second.value).c_str());
        same("get", key.k, it->second, i);
        last_id = i->timestamp();
        if (pending_id.erase(key.k)) { id_is_new("modification of", key.k); it->second.cas = last_id; }
        return true;
    }
    // compare all items with the model (reads perturb the LRU order, so only at the end of a history)
    void verify_all(const std::vector<Key> & universe) {
        for (auto & k : universe) get(k, true);
        mc::step();
    }
    void verify_model_keys() { std::vector<Key> ks; for (auto & kv : m) ks.push_back(Key{kv.first, kv.second.hash}); for (auto & k : ks) get(k, true); }
    uint64 curr_items() { c->publish_stats(); return STAT_GET(cache, curr_items); }
    uint64 hash(bool with_expiry = true) const {
        uint64 h = 7;
        for (auto & kv : m) { h = mc::hcombine(h, mc::hstr(kv.first)); h = mc::hcombine(h, mc::hstr(kv.second.value)); h = mc::hcombine(h, kv.second.flags); if (with_expiry) h = mc::hcombine(h, kv.second.forever ? 0 : 1 + kv.second.exp - vclock::now_s); }
        return h;
    }
    void record() { mc::state(hash()); }
};

} // namespace cl
#endif
