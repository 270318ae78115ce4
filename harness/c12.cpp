// C12: every reply is delivered to its client exactly once and in order
#define VCLOCK_IMPL
#define NETSIM_IMPL
#include "netsim.h"
#include <sys/un.h>
#include <sys/stat.h>
using namespace proto; using namespace netsim;

struct Peer {
    Client * k = nullptr; std::vector<string> pieces; size_t next = 0, off = 0; string expect; bool closed = false, half = false, may_reset = false;
    Model m; string key;
    void script(std::vector<Cmd> cs, string & out) { for (auto & c : cs) { out += m.wire(c); bool e; expect += m.apply(c, e); } }
};
static const size_t BIG = 12000;
// what a client received is always a prefix of the replies to its commands, in order
static void prefix(Peer & p, int i) {
    if (p.k->got.size() > p.expect.size() || p.expect.compare(0, p.k->got.size(), p.k->got) != 0) {
        size_t d = 0; while (d < p.k->got.size() && d < p.expect.size() && p.k->got[d] == p.expect[d]) ++d;
        mc::fail("client %d: after %zu correct bytes of reply it received '%s', expected '%s'", i, d, show(p.k->got.substr(d)).c_str(), show(p.expect.substr(d)).c_str());
    }
}
static void deliver(World & w, Peer & p) {       // hand over the next piece, as much as the socket takes
    if (p.next >= p.pieces.size() || p.k->fd < 0) return;
    const string & s = p.pieces[p.next]; ssize_t r = p.k->send_raw(s.data() + p.off, s.size() - p.off);
    if (r > 0) p.off += r;
    if (p.off == s.size()) { p.next++; p.off = 0; }
}
static void finish(World & w, std::vector<Peer> & ps) {
    for (int rounds = 0; rounds < 100000; ++rounds) {
        bool more = false; w.settle();
        for (auto & p : ps) if (p.k->fd >= 0 && !p.half && !p.k->eof && p.next < p.pieces.size()) { deliver(w, p); more = true; }
        if (!more) break;
    }
    w.settle();
}
static void end_check(World & w, std::vector<Peer> & ps) {
    finish(w, ps);
    for (size_t i = 0; i < ps.size(); ++i) {
        auto & p = ps[i];
        if (p.closed) { if (!p.k->conv.expired()) mc::fail("the server keeps the connection of client %zu which has gone", i); continue; }
        prefix(p, (int)i);
        if (p.half) { if (!p.k->eof) mc::fail("client %zu ended its stream but the connection stays open", i); if (!p.k->conv.expired()) mc::fail("the server keeps the connection of client %zu", i); }
        else if (p.k->eof) mc::fail("client %zu was disconnected", i);
        size_t want = p.expect.size();
        if (p.half) { // only what was sent before the end of the stream is answered
            if (p.next < p.pieces.size() || p.off) continue;
        }
        if (p.k->got.size() != want) mc::fail("client %zu received %zu of %zu bytes of replies", i, p.k->got.size(), want);
    }
}
// expected replies of a half closed client whose pieces were not all sent cannot be predicted here: such executions only check the prefix

static void make(Peer & p, World & w, int i, int kind, int sndbuf) {
    p.k = &w.connect(sndbuf); p.key = string(1, 'a' + i); string a, b;
    switch (kind) {
    case 0: // a big value read several times in one piece, then a small command cut in two
        p.script({store(SET, p.key, fill(BIG, i + 1), 5 + i), get({p.key}), get({p.key}), plain(VERSION) }, a);
        a.clear(); p.expect.clear(); p.m = Model();
        p.script({store(SET, p.key, fill(BIG, i + 1), 5 + i, 0, true), get({p.key}), get({p.key})}, a);
        p.script({store(SET, p.key, "x", 1), get({p.key})}, b);
        p.pieces = {a, b.substr(0, 3), b.substr(3)}; break;
    case 1: // small pipelined commands
        p.script({store(SET, p.key, "v" + p.key, i), get({p.key}), store(APPEND, p.key, "+"), get({p.key}) }, a);
        p.script({key_cmd(DELETE, p.key), get({p.key}), key_cmd(DELETE, p.key)}, b);
        p.pieces = {a, b}; break;
    case 3: // values beyond 64 KiB
        p.script({store(SET, p.key, fill(70000, i + 1), 5 + i), get({p.key}), store(APPEND, p.key, fill(66000, i + 2)), get({p.key, p.key})}, a);
        p.script({store(SET, p.key, "x", 1), get({p.key})}, b);
        p.pieces = {a, b.substr(0, 3), b.substr(3)}; break;
    case 2: // many small commands, one by one
        for (int n = 0; n < 4; ++n) { string s; p.script({store(SET, p.key, std::to_string(n) + p.key, n), get({p.key})}, s); p.pieces.push_back(s); }
        break;
    }
}
// every interleaving of client sends, client reads and single steps of the event loop
static void schedules(int depth, int clients, std::vector<int> kinds, int sndbuf, bool slow, bool closing, size_t page = 65536) {
    vclock::reset(); World w(16 * page, page, 16, true, 1 << 20, 1 << 20);
    std::vector<Peer> ps(clients); for (int i = 0; i < clients; ++i) make(ps[i], w, i, kinds[i], sndbuf);
    int per = 1 + (slow ? 1 : 0) + (closing ? 2 : 0); bool anyclose = false;
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(1 + per * clients);
        if (c == 0) { size_t n = w.poll_one(); mc::note("  server step (%zu)", n); if (!slow) for (auto & x : w.cl) x->drain(); }
        else {
            int i = (c - 1) / per, a = (c - 1) % per; Peer & p = ps[i];
            if (p.closed) continue;
            if (a == 0) { if (!p.half) { deliver(w, p); mc::note("  client %d sends (piece %zu)", i, p.next); } }
            else if (a == 1 && slow) { p.k->drain(page > 65536 ? 70000 : 5000); mc::note("  client %d reads, has %zu", i, p.k->got.size()); }
            else if (a == per - 2) { if (!p.half) { ::shutdown(p.k->fd, SHUT_WR); p.half = true; mc::note("  client %d ends its stream", i); } }
            else if (closing) { p.k->drain(); prefix(p, i); p.k->close(); p.closed = true; anyclose = true; mc::note("  client %d closes", i); }
        }
        for (int i = 0; i < clients; ++i) if (!ps[i].closed) prefix(ps[i], i);
    }
    uint64_t h = 3; for (auto & p : ps) h = mc::hcombine(h, p.next * 1000003 + p.off * 17 + p.k->got.size() * 5 + p.half * 2 + p.closed); mc::state(h);
    end_check(w, ps);
    // the server still accepts and serves
    Peer z; z.k = &w.connect(); string s; z.script({store(SET, "z", "last", 1), get({"z"})}, s); w.send(*z.k, s); w.settle();
    if (z.k->got != z.expect) mc::fail("a new client received '%s', expected '%s'", show(z.k->got).c_str(), show(z.expect).c_str());
}
// the kernel accepts only a part of every write: every combination of the sizes of the first writes
static void short_writes(int nlimits) {
    vclock::reset(); World w(16 * 4096, 4096, 16, true, 1 << 20, 1 << 20);
    std::vector<Peer> ps(2); ps[0].k = &w.connect(); ps[1].k = &w.connect();
    string a, b; ps[0].script({store(SET, "a", "0123456789", 5), get({"a"}), store(APPEND, "a", "!"), get({"a", "a"})}, a);
    ps[1].script({store(SET, "b", "other", 6), get({"b"}), get({"b"})}, b);
    std::vector<size_t> l0, l1; for (int i = 0; i < nlimits; ++i) l0.push_back(mc::choose(14)); l1.push_back(mc::choose(6)); l1.push_back(mc::choose(6));
    plan.limits[ps[0].k->server_fd] = l0; plan.limits[ps[1].k->server_fd] = l1;
    bool together = mc::flip();
    if (together) { w.send(*ps[0].k, a); w.send(*ps[1].k, b); } else { w.send(*ps[0].k, a); for (int i = 0; i < 3; ++i) w.poll_one(); w.send(*ps[1].k, b); }
    ps[0].pieces = {a}; ps[1].pieces = {b}; ps[0].next = ps[1].next = 1;
    for (auto x : l0) mc::note("  limit of client 0: %zu", x);
    w.settle(); for (int i = 0; i < 2; ++i) prefix(ps[i], i);
    uint64_t h = 5; for (auto x : l0) h = mc::hcombine(h, x); for (auto x : l1) h = mc::hcombine(h, x); mc::state(h);
    end_check(w, ps);
}
// small buffers, far more requests and replies than they hold at once
static void long_lived() {
    vclock::reset(); static const size_t lim[] = {600, 1000, 1500, 4096}; static const size_t len[] = {0, 10, 90, 200}; size_t snd = mc::pick(lim), rcv = mc::pick(lim), n = mc::pick(len);
    World w(16 * 4096, 4096, 16, true, rcv, snd); std::vector<Peer> ps(2); int batch = 1 + mc::choose(4), how = mc::choose(3);
    for (int i = 0; i < 2; ++i) { ps[i].k = &w.connect(); string key(1, 'a' + i), s; ps[i].script({store(SET, key, fill(n, i), 3)}, s); ps[i].pieces.push_back(s);
        for (size_t total = 0, x = 0; total < 5 * std::max(snd, rcv); ++x) { s.clear(); size_t before = ps[i].expect.size(); for (int b = 0; b < batch; ++b) { if (how == 0) ps[i].script({get({key})}, s); else if (how == 1) ps[i].script({store(b % 2 ? SET : REPLACE, key, fill(n, x + b), b, 0, b == 3), get({key})}, s); else ps[i].script({get({key, "none"}), key_cmd(DELETE, "none")}, s); } total += ps[i].expect.size() - before; ps[i].pieces.push_back(s); } }
    mc::note("  send buffer %zu, receive buffer %zu, values of %zu bytes, %d in a batch, %zu + %zu bytes of replies", snd, rcv, n, batch, ps[0].expect.size(), ps[1].expect.size());
    mc::state(mc::hcombine(mc::hcombine(snd, rcv), n * 16 + batch * 3 + how)); end_check(w, ps);
}
// two clients race on one counter: every increment is applied once and reported once
static void counter(int depth) {
    vclock::reset(); World w(16 * 4096, 4096, 16, true, 1 << 20, 1 << 20);
    Client & a = w.connect(), & b = w.connect(); w.send(a, "set n 0 0 1\r\n0\r\n"); w.settle(); a.got.clear();
    std::vector<string> pa{"incr n 1\r\nincr n 1\r\nin", "cr n 1\r\n"}, pb{"incr n 1\r\n", "incr n 1\r\nincr n 1\r\n"}; size_t na = 0, nb = 0;
    auto send = [&](Client & k, std::vector<string> & p, size_t & n) { if (n < p.size()) { k.send_raw(p[n].data(), p[n].size()); n++; } };
    for (int d = 0; d < depth; ++d) { int c = mc::choose(3); mc::note("  %s", c == 0 ? "server step" : c == 1 ? "a sends" : "b sends"); if (c == 0) w.poll_one(); else if (c == 1) send(a, pa, na); else send(b, pb, nb); }
    while (na < pa.size()) { send(a, pa, na); w.settle(); } while (nb < pb.size()) { send(b, pb, nb); w.settle(); }
    w.settle();
    std::vector<int> all; for (Client * k : {&a, &b}) { int last = 0, n = 0; size_t at = 0; while (at < k->got.size()) { size_t e = k->got.find("\r\n", at); if (e == string::npos) mc::fail("incomplete reply '%s'", show(k->got).c_str()); int v = atoi(k->got.substr(at, e - at).c_str()); if (v <= last) mc::fail("counter replies of one client are not increasing: '%s'", show(k->got).c_str()); last = v; all.push_back(v); at = e + 2; ++n; } if (n != 3) mc::fail("a client sent 3 increments and got %d replies", n); }
    std::sort(all.begin(), all.end()); for (int i = 0; i < 6; ++i) if (all[i] != i + 1) mc::fail("replies of the increments are not 1..6");
    mc::state(mc::hcombine(mc::hstr(a.got), mc::hstr(b.got)));
}
// connections through the real acceptor, which may fail to accept; some vanish before they are accepted or in the middle of a command
static void acceptor(int depth) {
    vclock::reset();
    char dir[] = "/tmp/verif-c12-XXXXXX"; if (!mkdtemp(dir)) abort(); string path = string(dir) + "/s";
    struct Clean { string d, p; ~Clean() { unlink(p.c_str()); rmdir(d.c_str()); } } clean{dir, path};
    fail_accept = accept_errors = 0; World w(16 * 4096, 4096, 16, true, 1 << 20, 1 << 20); w.srv->start(net::local::stream_protocol::endpoint(path));
    auto dial = [&] { std::unique_ptr<Client> k(new Client); k->fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, path.c_str()); if (::connect(k->fd, (sockaddr *)&a, sizeof a)) mc::fail("connect failed: %s", strerror(errno)); w.cl.push_back(std::move(k)); return w.cl.back().get(); };
    std::vector<Client *> cs; size_t used = 0;
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(7);
        switch (c) {
        case 0: w.poll_one(); mc::note("  server step"); break;
        case 1: if (cs.size() < 4) { cs.push_back(dial()); mc::note("  client %zu connects", cs.size() - 1); } break;
        case 2: if (!cs.empty() && cs.back()->fd >= 0) { cs.back()->close(); mc::note("  client %zu closes", cs.size() - 1); } break;
        case 3: if (!cs.empty() && cs.back()->fd >= 0) { string s = "set x"; cs.back()->send_raw(s.data(), s.size()); mc::note("  client %zu sends half a command and closes", cs.size() - 1); cs.back()->close(); } break;
        case 4: if (!cs.empty() && cs[0]->fd >= 0) { cs[0]->close(); mc::note("  client 0 closes"); } break;
        case 5: if (!cs.empty() && cs.back()->fd >= 0) { string s = "quit\r\n"; cs.back()->send_raw(s.data(), s.size()); mc::note("  client %zu quits", cs.size() - 1); } break;
        case 6: fail_accept = EMFILE; mc::note("  next accept fails with %s", strerror(fail_accept)); break;
        }
    }
    w.settle();
    for (int i = 0; i < 2; ++i) { Client * k = dial(); Model m; string s, e; bool er; for (auto c : {store(SET, "y", std::to_string(i), i), get({"y"})}) { s += m.wire(c); e += m.apply(c, er); } w.send(*k, s); w.settle(); if (k->got != e) mc::fail("a new client received '%s', expected '%s'", show(k->got).c_str(), show(e).c_str()); }
    for (size_t i = 0; i < cs.size(); ++i) if (cs[i]->fd >= 0 && !cs[i]->eof) { w.send(*cs[i], "delete none\r\n"); w.settle(); if (cs[i]->got != "NOT_FOUND\r\n") mc::fail("client %zu received '%s'", i, show(cs[i]->got).c_str()); }
    mc::state(cs.size() * 64 + used + accept_errors * 4096);
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("slow-readers", [=] { schedules(th ? 9 : 7, 2, {0, 0}, 1, true, false); });
    mc::add("slow-one", [=] { schedules(th ? 13 : 10, 1, {0}, 1, true, false); });
    mc::add("slow-and-fast", [=] { schedules(th ? 9 : 7, 2, {0, 1}, 1, true, false); });
    mc::add("small", [=] { schedules(th ? 11 : 9, 2, {1, 1}, 0, false, false); });
    mc::add("three", [=] { schedules(th ? 8 : 6, 3, {1, 2, 2}, 0, false, false); });
    mc::add("closing", [=] { schedules(th ? 6 : 5, 2, {0, 1}, 1, true, true); });
    mc::add("closing-one", [=] { schedules(th ? 9 : 7, 1, {0}, 1, true, true); });
    mc::add("short-writes", [=] { short_writes(th ? 4 : 3); });
    mc::add("huge-replies", [=] { schedules(th ? 9 : 7, 1, {3}, th ? 1 : 0, true, false, 1 << 18); });
    mc::add("huge-replies-2", [=] { schedules(th ? 7 : 5, 2, {3, 3}, 0, true, false, 1 << 18); });
    mc::add("long-lived", long_lived);
    mc::add("counter", [=] { counter(th ? 13 : 10); });
    mc::add("acceptor", [=] { acceptor(th ? 7 : 6); });
    return mc::main_(argc, argv);
}
