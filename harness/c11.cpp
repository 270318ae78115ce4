// C11: replies do not depend on how the request stream is split
#define VCLOCK_IMPL
#define NETSIM_IMPL
#include "netsim.h"
using namespace proto; using namespace netsim;

// A connection whose commands are all fixed up front.  After every delivered piece: the replies received are
// exactly those of the commands that have fully arrived, and the cache holds exactly their effects.
struct Stream {
    World w; Client & k; Model m; std::vector<Cmd> cmds; std::vector<size_t> ends; string bytes; size_t sent = 0, done = 0, matched = 0; bool closed = false;
    std::vector<string> keys{"k", "q"};
    Stream(size_t rcv = 1 << 20, size_t page = 4096) : w(16 * page, page, 4, true, rcv, 1 << 22), k(w.connect()) { vclock::reset(); }
    void add(Cmd c) { bytes += m.wire(c); cmds.push_back(c); ends.push_back(bytes.size()); }
    void now(Cmd c) { add(c); piece(bytes.size() - sent); }                         // deliver alone (preparation)
    void piece(size_t n) {
        string p = bytes.substr(sent, n); w.send(k, p); sent += p.size(); w.settle();
        mc::note("  +%zu bytes '%s' -> %zu bytes of reply so far", p.size(), show(p).c_str(), k.got.size());
        while (done < cmds.size() && ends[done] <= sent) {
            bool err; string pat = m.apply(cmds[done], err);
            size_t e = m.match(cmds[done], pat, k.got, matched, ("command #" + std::to_string(done)).c_str());
            if (e == string::npos) mc::fail("after %zu of %zu bytes command #%zu has arrived but its reply has not: received '%s', expected '%s'", sent, bytes.size(), done, show(k.got.substr(matched)).c_str(), show(pat).c_str());
            matched = e; ++done;
        }
        if (k.got.size() > matched) mc::fail("after %zu of %zu bytes: unexpected output '%s'", sent, bytes.size(), show(k.got.substr(matched)).c_str());
        if (k.eof) mc::fail("connection was closed by the server");
        contents();
        mc::state(mc::hcombine(m.hash(), sent - (done ? ends[done - 1] : 0)));
    }
    void contents() {
        for (auto & key : keys) {
            cache::HashFunction hf; auto i = w.c.do_get(slice(key.data(), key.size()), hf(slice(key.data(), key.size()))); auto it = m.m.find(key);
            if ((i != nullptr) != (it != m.m.end())) mc::fail("after %zu of %zu bytes: '%s' is %s the cache", sent, bytes.size(), key.c_str(), i ? "in" : "not in");
            if (i && (i->value().str() != it->second.v || i->opaque_flags() != it->second.flags)) mc::fail("after %zu of %zu bytes: value of '%s' is '%s', expected '%s'", sent, bytes.size(), key.c_str(), show(i->value().str()).c_str(), show(it->second.v).c_str());
        }
    }
};
static const int N = 18;
static Cmd cmd(int c, int d) {
    switch (c) {
    case 0: return store(SET, "k", std::to_string(20 + d), 7);
    case 1: return store(SET, "k", "a\r\nget k\r\n", 1, 0);
    case 2: return store(SET, "q", "", 2, 0, true);
    case 3: return get({"k"}); case 4: return get({"q", "k", "none"}); case 5: return get({"k"}, true);
    case 6: return store(APPEND, "k", "7"); case 7: return store(PREPEND, "q", "\r\n", 0, 0, true);
    case 8: return key_cmd(INCR, "k", 5); case 9: return key_cmd(INCR, "k", 1, true);
    case 10: return key_cmd(DELETE, "k"); case 11: return key_cmd(DELETE, "q", 0, true);
    case 12: return store(ADD, "q", "nine", 65535, 50); case 13: return key_cmd(TOUCH, "k", 9); case 14: return plain(VERSION);
    case 15: return plain(FLUSH, true); case 16: return store(CAS, "k", "swapped", 4); case 17: return plain(STATS);
    }
    return plain(VERSION);
}
static void prepare(Stream & s) { s.now(store(SET, "k", "10", 3)); s.now(get({"k"}, true)); }
// all streams of `n` commands, delivered in pieces cut at every choice of `cuts` positions
static void cuts(int n, int ncuts, int maxop) {
    Stream s; prepare(s); for (int i = 0; i < n; ++i) s.add(cmd(mc::choose(maxop), i));
    size_t at = s.sent, end = s.bytes.size();
    for (int c = 0; c < ncuts; ++c) { int room = (int)(end - at); if (room <= 1) break; int x = mc::choose(room); if (x == 0) continue; s.piece(x); at += x; }
    s.piece(end - at);
    s.now(get({"k", "q"}, true));
}
// one byte at a time
static void bytewise(int n) {
    Stream s; prepare(s); for (int i = 0; i < n; ++i) s.add(cmd(mc::choose(N - 1), i));
    while (s.sent < s.bytes.size()) s.piece(1);
    s.now(get({"k", "q"}));
}
// everything in one piece
static void pipelined(int n) {
    Stream s; prepare(s); for (int i = 0; i < n; ++i) s.add(cmd(mc::choose(N), i));
    s.piece(s.bytes.size() - s.sent); s.now(get({"k", "q"}));
}
// long pipelines: the boundaries of commands meet the boundaries of the receive buffer at every offset
static void long_pipeline() {
    Stream s(1 << 16); prepare(s);
    int pad = mc::choose(140); static const int count[] = {2, 9, 40, 200}; int n = mc::pick(count); int kind = mc::choose(3);
    s.add(store(SET, "q", string(pad, 'p')));
    for (int i = 0; i < n; ++i) { switch (kind) { case 0: s.add(get({"k"})); break; case 1: s.add(store(SET, "k", fill(i % 97, i), i, 0, i % 3 != 0)); break; case 2: s.add(i % 2 ? key_cmd(INCR, "k", i, true) : get({"q", "k"})); break; } }
    s.piece(s.bytes.size() - s.sent); s.now(get({"k", "q"}));
}
// a value of every critical size, delivered in two pieces cut around every critical position
static void big_values() {
    Stream s(1 << 16); prepare(s);
    static const size_t len[] = {375, 400, 470, 480, 490, 499, 500, 501, 625, 999, 1000, 1001, 1500, 2000, 3000, 3900};
    size_t n = mc::pick(len); s.add(store(SET, "q", fill(n, 3), 1)); s.add(get({"q"})); s.add(store(APPEND, "q", "+"));
    size_t total = s.bytes.size() - s.sent; std::vector<size_t> cut; for (size_t i = 1; i < total; ++i) if (i < 40 || i > total - 60 || (i > 360 && i < 380) || (i > 490 && i < 510) || (i > 995 && i < 1005) || i % 125 < 2 || (i > n && i < n + 30)) cut.push_back(i);
    size_t a = mc::pick(cut); s.piece(a); if (mc::flip()) s.piece(1); s.piece(s.bytes.size() - s.sent);
    s.now(get({"k", "q"}));
}
// values around the powers of two up to 1 MiB: in one piece, or cut at critical positions
static void huge_values(bool th) {
    static const size_t len[] = {32767, 32768, 65475, 65500, 65534, 65535, 65536, 65537, 70000, 131072, 1048575, 1048576, 1100000};
    Stream s(size_t(1) << 22, size_t(1) << 21); prepare(s);
    size_t n = mc::pick(len); s.add(store(SET, "q", fill(n, 3), 1)); s.add(get({"q"})); s.add(store(mc::flip() ? APPEND : PREPEND, "q", fill(n / 2, 4))); s.add(get({"q", "k"})); 
    size_t b = s.sent, total = s.bytes.size() - b; std::vector<size_t> cut{0};
    size_t marks[] = {s.ends[2] - b, s.ends[3] - b, s.ends[4] - b, 65536, 131072, (size_t)1 << 20};
    for (size_t m : marks) for (int d = -3; d <= 3; ++d) if (m + d > 0 && m + d < total && (th || d == 0 || d == -1 || d == -2)) cut.push_back(m + d);
    for (size_t i = 1; i < 24 && i < total; i += th ? 1 : 3) cut.push_back(i);
    size_t a = mc::pick(cut); if (a) s.piece(a); if (mc::flip()) s.piece(1); if (s.sent < s.bytes.size()) s.piece(s.bytes.size() - s.sent);
    s.now(get({"k", "q"}));
}
// small receive buffer, a stream much longer than it: the pieces end within a command again and again
static void rolling(bool th) {
    static const size_t lim[] = {600, 1000, 1500, 4096}; static const size_t len[] = {0, 3, 50, 130, 200};
    size_t rcv = mc::pick(lim), n = mc::pick(len); Stream s(rcv); prepare(s); int kind = mc::choose(3);
    size_t b = s.sent; for (int i = 0; s.bytes.size() - b < 6 * rcv; ++i) { if (kind == 0) s.add(store(SET, i % 3 ? "q" : "k", fill(n, i), i)); else if (kind == 1) { s.add(store(SET, "q", fill(n, i), 1, 0, true)); s.add(get({"q", "k"})); } else { s.add(store(i % 2 ? SET : REPLACE, "q", fill(n, i))); s.add(key_cmd(INCR, "k", i, true)); s.add(key_cmd(TOUCH, "q", 0)); } }
    if (mc::flip()) { static const size_t ps[] = {1, 7, 16, 61, 97, 128, 200, 331}; size_t p = mc::pick(ps); if (p == 1 && rcv > 1000) throw mc::Prune(); while (s.sent < s.bytes.size()) s.piece(p); }
    else {  // every piece but the last ends `c` bytes into a command
        size_t c = 1 + mc::choose(th ? 24 : 12) * (th ? 1 : 2); bool every = mc::flip();
        for (size_t i = s.done; i < s.cmds.size(); ++i) { size_t begin = s.ends[i - 1], l = s.ends[i] - begin; if (!every && i % 2) continue; s.piece(begin + std::min(c, l - 1) - s.sent); }
        s.piece(s.bytes.size() - s.sent);
    }
    s.now(get({"k", "q"}));
}
// quit: everything before it is answered, nothing after it is executed
static void quit() {
    Stream s; prepare(s); int n = mc::choose(3); for (int i = 0; i < n; ++i) s.add(cmd(mc::choose(N - 1), i));
    string w = s.bytes.substr(s.sent) + "quit\r\n" + "delete k\r\ndelete q\r\n"; size_t cutpos = mc::choose((int)w.size());
    s.w.send(s.k, w.substr(0, cutpos)); s.w.settle(); s.w.send(s.k, w.substr(cutpos)); s.w.settle();
    mc::note("  '%s' | '%s' -> '%s'", show(w.substr(0, cutpos)).c_str(), show(w.substr(cutpos)).c_str(), show(s.k.got.substr(s.matched)).c_str());
    for (; s.done < s.cmds.size(); ++s.done) { bool err; string pat = s.m.apply(s.cmds[s.done], err); size_t e = s.m.match(s.cmds[s.done], pat, s.k.got, s.matched, "command before quit"); if (e == string::npos) mc::fail("reply of command #%zu before quit is missing: '%s'", s.done, show(s.k.got.substr(s.matched)).c_str()); s.matched = e; }
    if (s.matched != s.k.got.size()) mc::fail("output after quit: '%s'", show(s.k.got.substr(s.matched)).c_str());
    if (!s.k.eof) mc::fail("the connection is still open after quit");
    s.contents(); mc::state(mc::hcombine(s.m.hash(), cutpos));
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("pipelined", [=] { pipelined(th ? 5 : 4); });
    mc::add("cut1-pairs", [=] { cuts(2, 1, N - 1); });
    mc::add("cut3-single", [=] { cuts(1, 3, N - 1); });
    mc::add("cut2-pairs", [=] { cuts(2, 2, N - 1); });
    mc::add("cut1-triples", [=] { cuts(3, 1, N - 1); });
    mc::add("bytewise", [=] { bytewise(3); });
    if (th) { mc::add("cut2-triples", [=] { cuts(3, 2, N - 1); }); mc::add("cut3-pairs", [=] { cuts(2, 3, 8); }); }
    mc::add("long-pipeline", long_pipeline); mc::add("big-values", big_values); mc::add("huge-values", [=] { huge_values(th); }); mc::add("rolling", [=] { rolling(th); }); mc::add("quit", quit);
    return mc::main_(argc, argv);
}
