// C14: UDP replies match their request
#define VCLOCK_IMPL
#include "udpsim.h"
using namespace proto; using namespace cachelot; using namespace udpsim;

struct Expect { string head; Cmd cmd; string pat; bool error; bool optional; };
struct Udp {
    net::io_service ios; cache::Cache c; std::unique_ptr<memcached::UdpServer> srv;
    struct Peer { std::vector<Expect> exp; size_t got = 0; }; std::vector<Peer> ps; Model m; int seq = 0;
    Udp(int clients, size_t page = 4096) : c(cache::Cache::Create(16 * page, page, 16, true)) {
        vclock::reset(); settings.cache.page_size = page; busy.clear(); send_no = 0; blocked = 0; server_fd = -1;
        srv.reset(new memcached::UdpServer(c, ios)); capture = true; srv->start(net::udp::endpoint(net::asio::ip::address_v4::loopback(), 0)); capture = false;
        if (server_fd < 0) { fprintf(stderr, "server socket not found\n"); abort(); }
        ps.resize(clients);
    }
    ~Udp() { srv->close(); ios.restart(); ios.poll(); srv.reset(); ::close(net_fd); server_fd = net_fd = -1; }
    string head(int i) { int id = 0x1100 * (i + 1) + ++seq; string h(8, 0); h[0] = (char)(id >> 8); h[1] = (char)id; h[5] = 1; return h; }
    void raw(int i, const string & d) { ssize_t r = ::syscall(SYS_sendto, net_fd, d.data(), d.size(), MSG_DONTWAIT, nullptr, 0); if (r != (ssize_t)d.size()) { perror("sendto"); fprintf(stderr, "cannot send %zu bytes\n", d.size()); abort(); } senders.push_back((uint16_t)(40000 + i)); mc::step(); }
    void valid(int i, Cmd x, bool reply_fits = true) { string h = head(i), w = m.wire(x); bool e; string pat = m.apply(x, e); raw(i, h + w); mc::note("  client %d: '%s'", i, show(w).c_str()); if (!x.noreply && reply_fits) ps[i].exp.push_back(Expect{h, x, pat, false, false}); }
    void invalid_command(int i, const string & w) { string h = head(i); raw(i, h + w); mc::note("  client %d: '%s'", i, show(w).c_str()); ps[i].exp.push_back(Expect{h, Cmd(), "", true, true}); }
    void dropped(int i, const string & d) { raw(i, d); mc::note("  client %d: dropped '%s'", i, show(d).c_str()); }
    size_t step() { ios.restart(); size_t n = ios.poll_one(); mc::step(); recv(); unblock(); return n; }
    void settle() { for (int idle = 0; idle < 2;) { ios.restart(); bool any = ios.poll() > 0; any |= recv(); any |= unblock(); idle = any ? 0 : idle + 1; mc::step(); } }
    bool recv() {
        std::vector<std::pair<uint16_t, string>> in; in.swap(outgoing);
        for (auto & d : in) { size_t i = (size_t)d.first - 40000; if (i >= ps.size()) mc::fail("a datagram is sent to port %u where nobody asked anything", d.first); arrived((int)i, d.second); }
        return !in.empty();
    }
    void arrived(int i, const string & d) {
        Peer & p = ps[i]; mc::note("    client %d receives %zu bytes '%s'", i, d.size(), show(d).c_str());
        while (p.got < p.exp.size() && p.exp[p.got].optional && d.compare(0, 8, p.exp[p.got].head) != 0) p.got++;
        if (p.got == p.exp.size()) mc::fail("client %d received an unexpected datagram '%s'", i, show(d, 200).c_str());
        Expect & e = p.exp[p.got++];
        if (d.size() < 8 || d.compare(0, 8, e.head) != 0) mc::fail("client %d: the reply has frame header '%s', the request had '%s'", i, show(d.substr(0, 8)).c_str(), show(e.head).c_str());
        string body = d.substr(8);
        if (e.error) { if (!(body.compare(0, 5, "ERROR") == 0 || body.compare(0, 13, "CLIENT_ERROR ") == 0 || body.compare(0, 13, "SERVER_ERROR ") == 0) || body.find("\r\n") != body.size() - 2) mc::fail("client %d: an invalid command is answered '%s'", i, show(body).c_str()); return; }
        size_t n = m_match(e, body); if (n != body.size()) mc::fail("client %d: reply '%s' differs from '%s'", i, show(body, 120).c_str(), show(e.pat, 120).c_str());
    }
    size_t m_match(Expect & e, const string & body) { return m.match(e.cmd, e.pat, body, 0, "datagram"); }
    void end() {
        settle();
        for (size_t i = 0; i < ps.size(); ++i) { Peer & p = ps[i]; while (p.got < p.exp.size() && p.exp[p.got].optional) p.got++; if (p.got != p.exp.size()) mc::fail("client %zu: no reply to the request with header '%s'", i, show(p.exp[p.got].head).c_str()); }
    }
    void probe() { end(); for (size_t i = 0; i < ps.size(); ++i) { valid((int)i, get({"k", "b", "q"})); end(); } valid(0, store(SET, "fin", "x", 3)); valid(0, get({"fin"})); end(); }
};
static const int N = 21;
static void send(Udp & u, int i, int c, int d) {
    switch (c) {
    case 0: u.valid(i, store(SET, "k", std::to_string(10 + d), d)); break;
    case 1: u.valid(i, get({"k"})); break;
    case 2: u.valid(i, key_cmd(INCR, "k", 1)); break;
    case 3: u.valid(i, store(SET, "k", "7", 5, 0, true)); break;                                   // no reply
    case 4: u.dropped(i, u.head(i) + "get k"); break;                                              // incomplete command
    case 5: u.dropped(i, u.head(i).substr(0, 5)); break;                                           // truncated header
    case 6: u.invalid_command(i, "bogus\r\n"); break;
    case 7: { string h = u.head(i); h[3] = 1; h[5] = 2; u.dropped(i, h + "delete k\r\n"); break; } // fragment
    case 8: u.valid(i, get({"b"})); break;                                                         // a big reply
    case 9: u.dropped(i, u.head(i) + "set k 0 0 5\r\nabc"); break;                                 // incomplete data
    case 10: u.valid(i, key_cmd(DELETE, "k")); break;
    case 11: u.dropped(i, u.head(i) + "quit\r\n"); break;
    case 12: { string h = u.head(i); h[7] = 1; u.dropped(i, h + "delete k\r\n"); break; }          // reserved is not zero
    case 13: u.dropped(i, u.head(i) + "\x80" "delete k\r\n"); break;                               // binary protocol
    case 14: u.dropped(i, u.head(i)); break;                                                       // nothing but header
    case 15: u.dropped(i, ""); break;
    case 16: { string h = u.head(i); h[5] = 2; u.dropped(i, h + "delete k\r\n"); break; }          // first of two fragments
    case 17: u.valid(i, store(SET, "b", fill(2500, d), d)); break;                                 // big request
    case 18: u.invalid_command(i, "incr b x\r\n"); break;
    case 19: u.valid(i, key_cmd(DELETE, "k", 0, true)); break;
    case 20: u.valid(i, store(APPEND, "q", "+", 0)); break;
    }
}
static void prepare(Udp & u) { u.valid(0, store(SET, "k", "1", 1)); u.valid(0, store(SET, "b", fill(1800, 1), 2)); u.end(); }
// every sequence of datagrams; after each the server runs until it is idle
static void sequences(int depth, int n, int clients) {
    Udp u(clients); prepare(u); uint64_t h = 1;
    for (int d = 0; d < depth; ++d) { int c = mc::choose(n * clients); send(u, c / n, c % n, d); u.settle(); h = mc::hcombine(h, c); }
    u.end(); mc::state(mc::hcombine(h, u.m.hash())); u.probe();
}
// every interleaving of arriving datagrams and single steps of the event loop, some sends have to wait
static void schedules(int depth, std::vector<int> kinds, int clients, int delays) {
    Udp u(clients); prepare(u); uint64_t h = 1; send_no = 0; busy.clear(); for (int i = 0; i < delays; ++i) busy.push_back((char)mc::choose(2));
    int n = (int)kinds.size();
    for (int d = 0; d < depth; ++d) { int c = mc::choose(1 + n * clients); h = mc::hcombine(h, c); if (c == 0) { mc::note("  server step"); u.step(); } else send(u, (c - 1) / n, kinds[(c - 1) % n], d); }
    u.end(); mc::state(mc::hcombine(h, u.m.hash())); u.probe();
}
// requests and replies of every critical size
static void sizes() {
    Udp u(1, 131072); static const size_t len[] = {0, 1, 100, 460, 470, 480, 490, 500, 510, 620, 1000, 1400, 1472, 1500, 2000, 4096, 9000, 16384, 32768, 40000, 60000, 65000, 65400, 65420, 65424, 65425, 65426, 65440, 65470};
    size_t n = mc::pick(len); string v = fill(n, 7); int twice = mc::choose(2); static const int before[] = {0, 1, 2}; int pre = mc::pick(before);
    if (pre == 1) { u.dropped(0, u.head(0) + "get k"); u.settle(); } else if (pre == 2) { u.valid(0, store(SET, "q", fill(3000, 2), 0, 0, true)); u.settle(); }
    u.valid(0, store(SET, "k", v, 3)); if (twice) u.settle(); u.valid(0, get({"k"})); u.end();
    u.valid(0, store(APPEND, "k", fill(n ? 50 : 0, 3))); u.end(); size_t whole = n ? n + 50 : 0, reply = 8 + 10 + std::to_string(whole).size() + 2 + whole + 2 + 5; u.valid(0, get({"k"}), reply <= 65507); u.end();
    u.valid(0, store(SET, "k", "small", 1)); u.end(); u.valid(0, get({"k"})); mc::state(n * 8 + twice * 4 + pre); u.probe();
}
// all headers: every value of every header field byte, one field at a time
static void headers() {
    Udp u(1); prepare(u); int byte = mc::choose(8), val = mc::choose(256); string h(8, 0); h[5] = 1; h[byte] = (char)val;
    bool frag = (h[2] || h[3]) || h[4] || (unsigned char)h[5] > 1; bool res = h[6] || h[7]; bool zero = h[4] == 0 && h[5] == 0;
    string w = "incr k 1\r\n"; u.raw(0, h + w); mc::note("  header '%s'", show(h).c_str());
    if (!frag && !res && !zero) { Cmd c = key_cmd(INCR, "k", 1); bool e; string pat = u.m.apply(c, e); u.ps[0].exp.push_back(Expect{h, c, pat, false, false}); }
    else if (zero && !frag && !res) { Cmd c = key_cmd(INCR, "k", 1); bool e; string pat = u.m.apply(c, e); u.ps[0].exp.push_back(Expect{h, c, pat, false, true}); u.settle(); u.end(); u.valid(0, store(SET, "k", "5", 1)); }
    u.end(); mc::state(byte * 256 + val); u.probe();
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("sequences", [=] { sequences(th ? 4 : 3, N, 1); });
    mc::add("sequences-2clients", [=] { sequences(th ? 4 : 3, 13, 2); });
    mc::add("sequences-deep", [=] { sequences(th ? 7 : 5, 8, 1); });
    mc::add("schedules", [=] { schedules(th ? 7 : 6, {0, 1, 4}, 2, 2); });
    mc::add("schedules-big", [=] { schedules(th ? 7 : 6, {8, 1, 17}, 1, 3); });
    mc::add("schedules-drop", [=] { schedules(th ? 6 : 5, {2, 3, 5, 7}, 2, 2); });
    mc::add("schedules-3clients", [=] { schedules(th ? 7 : 6, {2}, 3, 3); });
    mc::add("sizes", sizes); mc::add("headers", headers);
    return mc::main_(argc, argv);
}
