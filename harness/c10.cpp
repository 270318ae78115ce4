// C10: replies follow the memcached text protocol
#define VCLOCK_IMPL
#include "proto.h"
#include <set>
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <server/memcached/memcached.h>
using namespace cachelot; using namespace proto; using std::string;

struct Server {
    cache::Cache c; io_buffer r, s; Model m;
    Server(size_t mem = 16 * 4096, size_t page = 4096, size_t dict = 4) : c(cache::Cache::Create(mem, page, dict, true)), r(default_min_buffer_size, 1 << 23), s(default_min_buffer_size, 1 << 23) {
        settings.cache.page_size = page; settings.cache.memory_limit = mem;
        size_t lim = page - memalloc::header_size(); m.too_big = [lim](const string & k, size_t n) { return n + k.size() + sizeof(cache::Item) > lim; };
    }
    string raw(const string & in, net::ConversationReply & rc) {
        auto p = r.begin_write(in.size()); memcpy(p, in.data(), in.size()); r.confirm_write(in.size());
        rc = memcached::handle_received_data(r, s, c); mc::step();
        auto out = s.read_all(); string o(out.begin(), out.length()); s.compact();
        return o;
    }
    void run(Cmd c) {
        string w = m.wire(c); net::ConversationReply rc; string o = raw(w, rc); bool err;
        mc::note("  > %s", show(w).c_str()); mc::note("  < %s", show(o).c_str());
        if (r.non_read()) mc::fail("'%s': %zu bytes of the command were left unread", show(w).c_str(), r.non_read());
        r.compact();
        string pat = m.apply(c, err);
        size_t n = m.match(c, pat, o, 0, show(w).c_str());
        if (n == string::npos) mc::fail("'%s': reply '%s' is incomplete, expected '%s'", show(w).c_str(), show(o, 200).c_str(), show(pat, 200).c_str());
        if (n != o.size()) mc::fail("'%s': extra output '%s' after the reply", show(w).c_str(), show(o.substr(n), 200).c_str());
        if (rc != (o.empty() ? net::READ_MORE : net::SEND_REPLY_AND_READ)) mc::fail("'%s': the connection is told %d with %zu bytes of reply", show(w).c_str(), (int)rc, o.size());
    }
};

static const int PER_KEY = 28, GLOBAL = 8;
static void step(Server & sv, int c, const std::vector<string> & ks, int d) {
    int nk = (int)ks.size();
    if (c >= PER_KEY * nk) {
        switch (c - PER_KEY * nk) {
        case 0: sv.run(get(ks)); return;
        case 1: { auto r = ks; r.insert(r.begin(), ks.back()); sv.run(get(r, true)); return; }
        case 2: sv.run(plain(FLUSH)); return; case 3: sv.run(plain(FLUSH, true)); return; case 4: sv.run(plain(VERSION)); return; case 5: sv.run(plain(STATS)); return;
        case 6: vclock::now_s += 1; mc::note("  clock +1s"); return;
        case 7: sv.run(store(SET, ks[0], fill(3 + d, d), 65535)); return;
        }
    }
    const string & k = ks[c / PER_KEY]; c %= PER_KEY;
    static const Op st[] = {SET, ADD, REPLACE, APPEND, PREPEND, CAS};
    if (c < 12) { sv.run(store(st[c / 2], k, std::to_string(10 + d), 3 + d, c / 2 == 2 ? 2 : 0, c % 2)); return; }
    switch (c) {
    case 12: sv.run(get({k})); return; case 13: sv.run(get({k}, true)); return;
    case 14: sv.run(store(SET, k, "text", 9, 1)); return;
    case 15: { auto x = store(CAS, k, "bogus", 1); x.bogus_id = true; sv.run(x); return; }
    case 16: sv.run(key_cmd(DELETE, k)); return; case 17: sv.run(key_cmd(DELETE, k, 0, true)); return;
    case 18: sv.run(key_cmd(TOUCH, k, 3)); return; case 19: sv.run(key_cmd(TOUCH, k, 0, true)); return;
    case 20: sv.run(key_cmd(INCR, k, 90)); return; case 21: sv.run(key_cmd(INCR, k, 1, true)); return;
    case 22: sv.run(key_cmd(DECR, k, 7)); return; case 23: sv.run(key_cmd(DECR, k, 100, true)); return;
    case 24: sv.run(store(SET, k, "", 0)); return;
    case 26: sv.run(key_cmd(INCR, k, 0)); return; case 27: sv.run(key_cmd(DECR, k, 0)); return;
    case 25: sv.run(store(SET, k, fill(4096 - 10, d), 0, 0, true)); return;      // too big for a page: refused silently
    }
}
static void sequences(int depth, std::vector<string> ks) {
    vclock::reset(); Server sv;
    for (int d = 0; d < depth; ++d) { step(sv, mc::choose(PER_KEY * (int)ks.size() + GLOBAL), ks, d); sv.m.reap(); mc::state(sv.m.hash()); }
    sv.run(get(ks, true)); sv.run(get(ks));
}
static const std::vector<string> & values() {
    static std::vector<string> v{"", "x", "\r\n", "a\r\nEND\r\n", string("\0\0z", 3), "\x80\x04", "VALUE k 0 1\r\nq\r\nEND\r\n", "\r", "\n", "a\r", fill(499, 1), fill(500, 1), fill(501, 2), fill(1000, 3), fill(2047, 3), fill(3700, 4), "18446744073709551615", "0", "007"};
    return v;
}
static const std::vector<string> & keys() {
    static std::vector<string> k{"k", "get", "\x80z", "noreply", string(250, 'L'), fill(249, 5), "0", "k\xff\x80"};
    return k;
}
// every shape of key, value, flags and lifetime, through every storage command
static void shapes() {
    vclock::reset(); Server sv;
    string k = mc::pick(keys()), v = mc::pick(values());
    static const unsigned fl[] = {0, 1, 9, 10, 65535}; static const uint64_t ex[] = {0, 1, 100, 2592000, 4294967295ull};
    unsigned f = mc::pick(fl); uint64_t e = mc::pick(ex);
    static const Op first[] = {SET, ADD};
    sv.run(store(mc::pick(first), k, v, f, e)); sv.run(get({k})); sv.run(get({k}, true));
    switch (mc::choose(6)) {
    case 0: sv.run(store(CAS, k, v + "!", f + 0, e)); break; case 1: sv.run(store(REPLACE, k, "short", 5, e)); break; case 2: sv.run(store(APPEND, k, "tail\r\n", 77, 9)); break;
    case 3: sv.run(store(PREPEND, k, "\r\nhead", 77, 9)); break; case 4: sv.run(key_cmd(INCR, k, 5)); break; case 5: sv.run(key_cmd(TOUCH, k, e)); break;
    }
    sv.run(get({k, "other", k}, true)); sv.run(get({k}));
    mc::state(mc::hcombine(mc::hstr(k), mc::hcombine(mc::hstr(v), f * 8 + e)));
    if (e && e < 1000) { vclock::now_s += e - 1; sv.run(get({k})); vclock::now_s++; sv.run(get({k})); }
    sv.run(key_cmd(DELETE, k)); sv.run(get({k}));
}
// big values: lengths around every power of two and ten, through every storage command and every reply that carries them
static void big() {
    static const std::vector<size_t> lens = [] { std::set<size_t> r; for (int p = 10; p <= 20; ++p) for (int d = -2; d <= 2; ++d) r.insert(((size_t)1 << p) + d); for (size_t p = 1000; p <= 1000000; p *= 10) for (int d = -1; d <= 1; ++d) r.insert(p + d); r.insert(65536 * 3 + 7); r.insert(65536 * 5); r.insert(700001); return std::vector<size_t>(r.begin(), r.end()); }();
    vclock::reset(); Server sv(16 << 20, 2 << 20); size_t n = lens[mc::choose((int)lens.size())]; int how = mc::choose(4); bool second = mc::flip();
    string v = fill(n, (unsigned)n), cut = n > 7 ? fill(7, 3) : string("x");
    if (second) sv.run(store(SET, "other", fill(n / 2, 5), 65535));
    switch (how) {
    case 0: sv.run(store(SET, "k", v, 9)); break; case 1: sv.run(store(ADD, "k", v, 9, 0, true)); break;
    case 2: sv.run(store(SET, "k", cut, 9)); sv.run(store(APPEND, "k", v.substr(cut.size()))); break;
    case 3: sv.run(store(SET, "k", v.substr(1), 9)); sv.run(store(PREPEND, "k", "p")); break;
    }
    sv.run(get({"k"})); sv.run(get({"other", "k", "none"}, true)); sv.run(store(CAS, "k", v + "z", 4)); sv.run(get({"k", "other"})); sv.run(store(REPLACE, "k", "short", 2)); sv.run(get({"k", "other"}, true)); sv.run(key_cmd(DELETE, "k")); sv.run(get({"k"}));
    mc::state(mc::hcombine(n, how * 2 + second));
}
// multi-gets: every choice of present keys and every list of up to four keys
static void multiget(int maxk) {
    vclock::reset(); Server sv;
    const string ks[] = {"a", "bb", "ccc", fill(250, 9)};
    int present = mc::choose(16); bool big = mc::flip();
    for (int i = 0; i < 4; ++i) if (present >> i & 1) sv.run(store(SET, ks[i], big ? fill(1500 + 700 * i, i) : string(i, 'v'), i * 1000, 0));
    int n = 1 + mc::choose(maxk); std::vector<string> q; for (int i = 0; i < n; ++i) q.push_back(ks[mc::choose(4)]);
    bool ids = mc::flip(); sv.run(get(q, ids)); sv.run(get(q, !ids)); sv.run(plain(VERSION));
    mc::state(mc::hcombine(present * 2 + big, q.size()));
}
// long lists of keys, some of them stored, some named twice
static void widget() {
    vclock::reset(); Server sv; int n = 1 + mc::choose(mc::thorough() ? 400 : 130), pat = mc::choose(5); static const int lens[] = {1, 17, 250}; int len = mc::pick(lens); if (len == 1 && n > 60) throw mc::Prune();
    auto key = [&](int i) { string k = std::to_string(i); if (len == 1) return string(1, (char)('0' + i)); return k + string(len - k.size(), 'k'); }; std::vector<string> q;
    for (int i = 0; i < n; ++i) { bool in = pat == 0 || (pat == 1 && i % 2) || (pat == 2 && i == n - 1) || (pat == 3 && i == 0) || (pat == 4 && i % 7 < 3); string k = key(i); if (in) sv.run(store(SET, k, string(i % 40, (char)('a' + i % 26)), i * 163 % 65536, 0)); q.push_back(k); if (pat == 4 && i % 5 == 0) q.push_back(key(i / 2)); }
    sv.run(get(q, false)); sv.run(get(q, true)); sv.run(plain(VERSION)); mc::state(mc::hcombine(n, pat * 1000 + len));
}
// counters near every boundary of length and range
static void counters() {
    vclock::reset(); Server sv;
    static const uint64_t num[] = {0, 1, 9, 10, 99, 100, 4294967295ull, 4294967296ull, 9999999999999999999ull, 10000000000000000000ull, 18446744073709551614ull, 18446744073709551615ull};
    uint64_t a = mc::pick(num), b = mc::pick(num);
    sv.run(store(SET, "n", std::to_string(a), 12)); sv.run(key_cmd(mc::flip() ? INCR : DECR, "n", b, mc::flip())); sv.run(get({"n"}, true)); sv.run(key_cmd(mc::flip() ? INCR : DECR, "n", 1)); sv.run(get({"n"}));
    mc::state(mc::hcombine(a, b));
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("sequences-1key", [=] { sequences(th ? 5 : 4, {"k"}); });
    mc::add("sequences-2keys", [=] { sequences(th ? 4 : 3, {"a", "bb"}); });
    mc::add("shapes", shapes); mc::add("big", big, false, 2, 60); mc::add("multiget", [=] { multiget(th ? 5 : 4); }); mc::add("counters", counters); mc::add("wide-get", widget);
    return mc::main_(argc, argv);
}
