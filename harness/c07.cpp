// C07: compare-and-swap succeeds if and only if the item is unchanged since it was read
#define VCLOCK_IMPL
#include "cl.h"
using namespace cl;

struct Client { std::map<string, uint64> seen; };      // unique id of the last read of each key

static void gets(Sut & s, Client & c, const Key & k) { if (s.get(k)) c.seen[k.k] = s.last_id; }
static void cas(Sut & s, Client & c, const Key & k, int d, uint32 ttl = 0) {
    auto it = c.seen.find(k.k); uint64 id = it == c.seen.end() ? 0xDEADBEEFCAFEull : it->second;
    s.cas(k, std::to_string(100 + d), id, (uint16)d, ttl);
}
static void modify(Sut & s, int op, const Key & k, int d) {
    switch (op) {
    case 0: s.set(k, std::to_string(d), d); break;
    case 1: s.add(k, std::to_string(10 + d), d); break;
    case 2: s.replace(k, std::to_string(20 + d), d); break;
    case 3: s.append(k, "1"); break;
    case 4: s.prepend(k, "2"); break;
    case 5: s.incr(k, 1); break;
    case 6: s.decr(k, 1); break;
    case 7: s.del(k); break;
    case 8: s.touch(k, 0); break;
    case 9: s.incr(k, 0); break;                 // same value, still a modification
    case 10: s.get(k); break;
    case 11: { auto it = s.m.find(k.k); s.set(k, it == s.m.end() ? "7" : it->second.value, 1); break; } // same value again
    case 12: s.append(k, ""); break;
    case 13: { s.get(k, true); uint64 id = s.last_id; s.cas(k, "guess", id + 1); break; }
    case 14: { s.get(k, true); uint64 id = s.last_id; s.cas(k, "guess", id - 1); break; }
    case 20: { s.get(k, true); uint64 id = s.last_id; for (int b = 0; b < 64; ++b) s.cas(k, "guess", id ^ (1ULL << b)); break; }
    case 15: s.cas(k, "guess", 0); break;
    case 16: s.cas(k, "guess", ~0ULL); break;
    case 17: s.decr(k, 0); break;
    case 18: s.flush(); break;
    case 19: { s.begin(); auto i = s.c->create_item(slice(k.k.data(), k.k.size()), k.h, 1, 0, cache::seconds(0)); s.c->destroy_item(i); break; } // a request that is given up
    }
}
static void finish(Sut & s, std::vector<Client> & cs, const std::vector<Key> & ks) {
    // every client tries to commit what it read
    for (size_t i = 0; i < cs.size(); ++i) for (auto & k : ks) if (cs[i].seen.count(k.k)) cas(s, cs[i], k, 40 + (int)i);
    for (auto & k : ks) s.get(k);
    mc::outcome(s.hash());
}
// racing read-modify-cas clients and arbitrary modifications
static void race(int nclients, int nkeys, int nmods, int depth, bool prestored) {
    vclock::reset();
    Sut s(4, 4096, 4, true); s.eviction_allowed = false; s.ample = true; s.check_ids = true;
    std::vector<Key> ks{{"a", 5}, {"b", 5}}; ks.resize(nkeys);
    std::vector<Client> cs(nclients);
    if (prestored) for (auto & k : ks) { s.set(k, "1", 1); }
    const int per = nclients * 2 + nmods;
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(per * nkeys); const Key & k = ks[c / per]; c %= per;
        if (c < nclients * 2) { if (c % 2 == 0) gets(s, cs[c / 2], k); else cas(s, cs[c / 2], k, d); }
        else modify(s, c - nclients * 2, k, d);
        s.record();
    }
    finish(s, cs, ks);
}
// items come and go by evictions and expiration; ids must stay unique
static void churn(int depth) {
    vclock::reset();
    Sut s(4, 256, 4, true); s.check_ids = true;
    std::vector<Key> ks{{"a", 5}, {"b", 21}}; std::vector<Client> cs(2);
    for (auto & k : ks) { s.set(k, "1", 1); gets(s, cs[0], k); }
    int n = 0;
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(12); const Key & k = ks[c % 2];
        switch (c / 2) {
        case 0: gets(s, cs[d % 2], k); break;
        case 1: cas(s, cs[0], k, d); break;
        case 2: cas(s, cs[1], k, d, 1); break;
        case 3: s.set(k, "5", 2, 1); break;
        case 4: if (c % 2) { vclock::now_s++; mc::note("  clock +1s"); } else s.incr(k, 1); break;
        case 5: { Key big{"big" + std::to_string(n++), (uint32)(5 + n)}; int reps = c % 2 ? 1 : 4; for (int i = 0; i < reps; ++i) { big.k[0] = (char)('b' + i); s.set(big, fill(s.max_value(big.k), d), 3); } break; }
        }
        s.reap(); s.record();
    }
    for (size_t i = 0; i < cs.size(); ++i) for (auto & k : ks) if (cs[i].seen.count(k.k)) cas(s, cs[i], k, 40 + (int)i);
    for (auto & k : ks) s.get(k);
}
// optimistic counters: clients loop { gets; cas v+1 } under every interleaving; no increment is lost
static void counters(int nclients, int rounds) {
    vclock::reset();
    Sut s(4, 4096, 4, true); s.eviction_allowed = false; s.ample = true; s.check_ids = true;
    Key k{"n", 9}; s.set(k, "0", 0);
    struct P { int left; bool have; uint64 id; uint64 v; int tries; };
    std::vector<P> ps(nclients, P{rounds, false, 0, 0, 0});
    uint64 successes = 0; int incrs = 1;
    for (;;) {
        std::vector<int> en; for (int i = 0; i < nclients; ++i) if (ps[i].left > 0) en.push_back(i);
        if (en.empty()) break;
        int c = mc::choose((int)en.size() + (incrs ? 1 : 0));
        if (c == (int)en.size()) { s.incr(k, 1); incrs--; successes++; s.record(); continue; }
        P & p = ps[en[c]];
        if (!p.have) { s.get(k); p.id = s.last_id; uint64 v = 0; parse_u64(s.m[k.k].value, v); p.v = v; p.have = true; }
        else { int r = s.cas(k, std::to_string((unsigned long long)(p.v + 1)), p.id); p.have = false; if (r == OK) { successes++; p.left--; } else if (++p.tries >= 3) p.left = 0; }
        s.record();
    }
    s.get(k);
    uint64 v = 0; parse_u64(s.m[k.k].value, v);
    MC_CHECK(v == successes, "%llu increments were acknowledged, the counter is %llu", (unsigned long long)successes, (unsigned long long)v);
    mc::outcome(v);
}
// cas while the index of 2048 slots expands step by step
static void expanding(int hmode, int depth) {
    vclock::reset();
    Sut s(4, 131072, 2048, true); s.eviction_allowed = false; s.ample = true; s.check_ids = true;
    auto key = [&](int i) { char b[16]; snprintf(b, sizeof b, "x%05d", i); return Key{b, hmode == 0 ? (uint32)(1 + i) : hmode == 1 ? (uint32)(1 + i / 3) : (uint32)(2048 * (1 + i % 7) + 1500 + (i / 7) * 2)}; };
    int n = 0; for (; n < 1905; ++n) s.set(key(n), std::to_string(n), (uint16)n);
    Client c; const int pk[] = {0, 700, 1900};
    for (int i : pk) gets(s, c, key(i));
    for (int d = 0; d < depth; ++d) {
        int o = mc::choose(10); 
        if (o == 9) { s.set(key(n), "n", 1); n++; }
        else { Key k = key(pk[o % 3]); switch (o / 3) { case 0: gets(s, c, k); break; case 1: cas(s, c, k, d); break; case 2: s.incr(k, 5); break; } }
        s.record();
    }
    for (int i : pk) { cas(s, c, key(i), 50); }
    s.verify_model_keys();
}

// the id never comes back: an item is modified 2^bits times (and one more, one less); nothing stored with the id read before
static void ids(int max_bits) {
    vclock::reset(); static const int bits_[] = {8, 15, 16, 24, 31, 32}; int bits = mc::pick(bits_), kind = mc::choose(4); if (bits > max_bits || (bits > 24 && kind != 1) || (bits == 24 && kind > 1)) throw mc::Prune();
    auto c = cache::Cache::Create(4 * 4096, 4096, 16, true); const slice k("k", 1); const uint32 h = 77; const uint64 n = (uint64)1 << bits;
    auto fresh = [&](const char * v) { auto i = c.create_item(k, h, 1, 0, cache::seconds(0)); i->assign_value(slice(v, 1)); return i; };
    c.do_set(fresh("1")); const uint64 first = c.do_get(k, h)->timestamp(); uint64 last = first, cur;
    auto stale = [&](uint64 done) { bool f, st; tie(f, st) = c.do_cas(fresh("9"), first); MC_CHECK(f && !st, "after %llu modifications cas with the id of the first reading: found=%d stored=%d", (unsigned long long)done, (int)f, (int)st); };
    for (uint64 i = 1; i <= n + 1; ++i) {
        switch (kind) {
        case 0: c.do_set(fresh("2")); break;
        case 1: c.destroy_item(c.create_item(k, h, 1, 0, cache::seconds(0))); if (bits > 24 && i + 3 < n) continue; c.do_set(fresh("3")); ++i; break;   // requests that are given up use up ids as well
        case 2: { bool f; uint64 v; tie(f, v) = c.do_incr(k, h, 1); MC_CHECK(f, "incr did not find the item"); break; }
        case 3: { bool f, st; tie(f, st) = c.do_cas(fresh("4"), last); MC_CHECK(f && st, "cas with the current id %llu after %llu modifications: found=%d stored=%d", (unsigned long long)last, (unsigned long long)i, (int)f, (int)st); break; }
        }
        cur = c.do_get(k, h)->timestamp(); MC_CHECK(cur != last && cur != first, "after %llu modifications the id is %llu, it was %llu at first and %llu before", (unsigned long long)i, (unsigned long long)cur, (unsigned long long)first, (unsigned long long)last); last = cur;
        if ((i & 0xFFFFF) == 0) mc::step(); if ((i & (i - 1)) == 0 || i + 4 > n) { stale(i); mc::state(mc::hcombine(kind, i)); mc::step(); }
    }
    MC_CHECK(c.do_get(k, h)->timestamp() == last, "the id changed without a modification");
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("race-1key", [=] { race(2, 1, 21, th ? 5 : 4, true); });
    mc::add("race-1key-absent", [=] { race(2, 1, 21, 4, false); });
    mc::add("race-1key-deep", [=] { race(2, 1, 9, th ? 7 : 6, true); });
    mc::add("race-2keys", [=] { race(2, 2, 10, th ? 5 : 4, true); });
    mc::add("race-3clients", [=] { race(3, 1, 8, th ? 6 : 5, true); });
    mc::add("ids", [=] { ids(th ? 32 : 24); }, false, 2, 900);
    mc::add("churn", [=] { churn(th ? 6 : 5); });
    mc::add("counters-2x2", [=] { counters(2, 2); });
    mc::add("counters-2x3", [=] { counters(2, 3); });
    mc::add("counters-3x1", [=] { counters(3, 1); });
    mc::add("counters-3x2", [=] { counters(3, 2); }, true);
    for (int hm = 0; hm < 3; ++hm) mc::add("expanding-h" + std::to_string(hm), [=] { expanding(hm, th ? 4 : 3); });
    return mc::main_(argc, argv);
}
