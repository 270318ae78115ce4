// C21: the server program serves one cache on all configured endpoints and obeys its signals
#include "mc.h"
#include <sys/socket.h>
#include <sys/file.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <poll.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <map>
#include <memory>
#include <stddef.h>
#include <set>
#include <vector>
#include <string>
using std::string;
static const int WAIT = 30000;   // ms; only reached when something is wrong
static string show(const string & s) { string r; for (unsigned char c : s.substr(0, 120)) { char b[8]; if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }

// a pair of ports this process owns; an abstract local socket serves as the lock of a port
static bool port_free(int p) {
    struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); int t = socket(AF_INET, SOCK_STREAM, 0), u = socket(AF_INET, SOCK_DGRAM, 0), one = 1; setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    bool ok = bind(t, (struct sockaddr *)&a, sizeof a) == 0 && listen(t, 1) == 0 && bind(u, (struct sockaddr *)&a, sizeof a) == 0; close(t); close(u); return ok;
}
// another process serves at the port (connections left over by a server that ended do not count)
static bool port_served(int p, bool udp) {
    struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(p); if (!udp) a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int t = socket(AF_INET, udp ? SOCK_DGRAM : SOCK_STREAM, 0);
    bool ok = (udp ? bind(t, (struct sockaddr *)&a, sizeof a) : connect(t, (struct sockaddr *)&a, sizeof a)) == 0; close(t); return udp ? !ok : ok;
}
static int own_port(int which, bool others = false) {
    static int port[2] = {0, 0}, lock[2] = {-1, -1}, next = 21000; static bool done = false;
    if (others) { done = false; for (auto & l : lock) { close(l); l = -1; } }
    if (!done) {
        int found = 0;
        for (int p = next; p < 26000 && found < 2; ++p) {
            struct sockaddr_un n; memset(&n, 0, sizeof n); n.sun_family = AF_UNIX; int len = snprintf(n.sun_path + 1, 100, "cachelot-verif-port-%d", p); int l = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0); if (bind(l, (struct sockaddr *)&n, offsetof(struct sockaddr_un, sun_path) + 1 + len)) { close(l); continue; }
            if (port_free(p)) { lock[found] = l; port[found++] = p; } else close(l); next = p + 1;
        }
        if (found < 2) mc::fail("no free ports"); done = true;
    }
    return port[which];
}
struct Scratch {
    string dir; Scratch() { char t[] = "/tmp/c21XXXXXX"; if (!mkdtemp(t)) mc::fail("no scratch directory"); dir = t; }
    ~Scratch() { DIR * d = opendir(dir.c_str()); if (d) { while (auto * e = readdir(d)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str()); closedir(d); } rmdir(dir.c_str()); }
};
struct Server {
    pid_t pid = -1; string outf, errf; int status = 0;
    void start(const Scratch & s, const std::vector<string> & args) {
        outf = s.dir + "/out"; errf = s.dir + "/err"; string dir = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "."; std::vector<string> a{dir + "/cachelotd"}; a.insert(a.end(), args.begin(), args.end()); string line; for (size_t i = 1; i < a.size(); ++i) line += " " + a[i]; mc::note("  cachelotd%s", line.c_str());
        std::vector<char *> v; for (auto & x : a) v.push_back((char *)x.c_str()); v.push_back(nullptr);
        pid = fork(); if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int o = open(outf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600), e = open(errf.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600), n = open("/dev/null", O_RDONLY); dup2(n, 0); dup2(o, 1); dup2(e, 2); for (int i = 3; i < 256; ++i) close(i); for (int i = 1; i < 32; ++i) if (i != SIGKILL && i != SIGSTOP) signal(i, SIG_DFL); sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, nullptr); execv(v[0], v.data()); _exit(99); }
    }
    static string slurp(const string & f) { FILE * x = fopen(f.c_str(), "r"); string r; char b[4096]; size_t n; if (x) { while ((n = fread(b, 1, sizeof b, x)) > 0) r.append(b, n); fclose(x); } return r; }
    string out() { return slurp(outf); } string err() { return slurp(errf); }
    bool ended() { if (pid < 0) return true; int st; if (waitpid(pid, &st, WNOHANG) == pid) { status = st; pid = -1; return true; } return false; }
    bool wait_end() { for (int i = 0; i < 3000; ++i) { if (ended()) return true; usleep(i < 100 ? 500 : 10000); mc::step(); } return false; }
    void must_run(const char * when) { if (ended()) mc::fail("the server ended %s (status %x): %s", when, status, show(err()).c_str()); }
    ~Server() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } }
};
struct End { bool tcp, udp, local; };
// the signal handlers are installed after the endpoints: caught signals of the process
static bool handlers_ready(pid_t pid) { string s = Server::slurp("/proc/" + std::to_string(pid) + "/status"); size_t at = s.find("SigCgt:"); if (at == string::npos) return false; unsigned long long m = strtoull(s.c_str() + at + 7, 0, 16); auto has = [&](int n) { return (m >> (n - 1)) & 1; }; return has(SIGTERM) && has(SIGINT) && has(SIGQUIT) && has(SIGUSR1); }
// sockets the process has bound: TCP ports it listens at, UDP ports, paths
static void endpoints(pid_t pid, std::set<int> & tcp, std::set<int> & udp, std::set<string> & local) {
    std::set<string> ino; string fd = "/proc/" + std::to_string(pid) + "/fd"; DIR * d = opendir(fd.c_str()); if (d) { while (auto * e = readdir(d)) { char b[64]; ssize_t n = readlink((fd + "/" + e->d_name).c_str(), b, sizeof b - 1); if (n > 9) { b[n] = 0; if (!strncmp(b, "socket:[", 8)) { b[n - 1] = 0; ino.insert(b + 8); } } } closedir(d); }
    auto inet = [&](const char * f, const char * state, std::set<int> & to) { string s = Server::slurp(f); size_t at = 0; while (at < s.size()) { size_t e = s.find('\n', at); if (e == string::npos) e = s.size(); char l[64], r[64], st[8], in[32], t[64]; if (sscanf(s.substr(at, e - at).c_str(), " %*s %63s %63s %7s %63s %*s %*s %*s %*s %31s", l, r, st, t, in) == 5 && ino.count(in) && (!state || !strcmp(st, state))) { char * c = strrchr(l, ':'); if (c) to.insert((int)strtol(c + 1, 0, 16)); } at = e + 1; } };
    inet("/proc/net/tcp", "0A", tcp); inet("/proc/net/tcp6", "0A", tcp); inet("/proc/net/udp", nullptr, udp); inet("/proc/net/udp6", nullptr, udp);
    string s = Server::slurp("/proc/net/unix"); size_t at = 0; while (at < s.size()) { size_t e = s.find('\n', at); if (e == string::npos) e = s.size(); char flags[32], in[32], path[256]; if (sscanf(s.substr(at, e - at).c_str(), "%*s %*s %*s %31s %*s %*s %31s %255s", flags, in, path) == 3 && ino.count(in) && !strcmp(flags, "00010000")) local.insert(path); at = e + 1; }
}
struct Conn {
    int fd = -1; string half;    // half: rest of a command sent in part
    ~Conn() { drop(); } void drop(bool reset = false) { if (fd < 0) return; if (reset) { struct linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(fd); fd = -1; half.clear(); }
    bool try_open(int kind, int port, const string & path) {
        drop(); if (kind == 2) { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, path.c_str()); fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); if (connect(fd, (struct sockaddr *)&a, sizeof a) == 0) return true; }
        else { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); fd = socket(AF_INET, (kind ? SOCK_DGRAM : SOCK_STREAM) | SOCK_CLOEXEC, 0); if (connect(fd, (struct sockaddr *)&a, sizeof a) == 0) return true; }
        close(fd); fd = -1; return false;
    }
    void put(const string & q) { size_t at = 0; while (at < q.size()) { ssize_t n = send(fd, q.data() + at, q.size() - at, MSG_NOSIGNAL); if (n <= 0) mc::fail("connection is lost"); at += n; } }
    void some() { struct pollfd p{fd, POLLIN, 0}; if (poll(&p, 1, WAIT) <= 0) mc::fail("no reply"); char b[1000]; if (read(fd, b, sizeof b) <= 0) mc::fail("connection is lost"); }
    string line_reply(const string & end) { string r; char b[65536]; while (r.size() < end.size() || r.compare(r.size() - end.size(), end.size(), end) != 0) { struct pollfd p{fd, POLLIN, 0}; if (poll(&p, 1, WAIT) <= 0) mc::fail("no reply, only '%s'", show(r).c_str()); ssize_t n = read(fd, b, sizeof b); if (n <= 0) mc::fail("connection is lost, received '%s'", show(r).c_str()); r.append(b, n); } return r; }
};
struct World {
    Scratch dir; Server s; End e; int pt, pu; string path; Conn c[3]; std::map<string, string> m; int sets = 0, gets = 0, hits = 0; uint16_t req = 0; size_t printed = 0; int signals = 0; bool exact = true;
    World(End e_, bool same_port) : e(e_) { pt = own_port(0); pu = same_port ? pt : own_port(1); path = dir.dir + "/sock"; launch(); }
    std::vector<string> args() { return {"-m", "1M", "-P", "64K", "-H", "16", "-p", e.tcp ? std::to_string(pt) : "0", "-U", e.udp ? std::to_string(pu) : "0"}; }
    bool foreign() { return (e.tcp && port_served(pt, false)) || (e.udp && port_served(pu, true)); }
    void launch() {
        // somebody else may have taken the ports in the meantime
        for (int i = 0; i < 20 && foreign(); ++i) { bool same = pt == pu; usleep(200000); if (!foreign()) break; pt = own_port(0, true); pu = same ? pt : own_port(1); }
        auto a = args(); if (e.local) { a.push_back("-s"); a.push_back(path); }
        s.start(dir, a); m.clear(); sets = gets = hits = 0; exact = true; printed = 0; signals = 0;
        for (int i = 0; !handlers_ready(s.pid); ++i) { s.must_run("although nothing is wrong"); usleep(i < 100 ? 500 : 10000); mc::step(); if (i > 3000) mc::fail("the server does not install its signal handlers"); }
        for (int k = 0; k < 3; ++k) if (on(k)) connect_(k);
    }
    bool on(int k) const { return k == 0 ? e.tcp : k == 1 ? e.udp : e.local; }
    void connect_(int k) { if (!c[k].try_open(k, k == 0 ? pt : pu, path)) { s.must_run("while a client connects"); mc::fail("endpoint %d does not accept connections", k); } }
    string ask(int k, const string & q, const string & end) {
        mc::step(); s.must_run("while it served"); static const char * name[] = {"tcp", "udp", "unix"};
        if (k != 1) { if (!c[k].half.empty()) finish(k); c[k].put(q); string r = c[k].line_reply(end); mc::note("  %s: %s -> %s", name[k], show(q).c_str(), show(r).c_str()); return r; }
        // datagrams may be lost in principle: on the loopback with one in flight they are not
        ++req; string h; h += (char)(req >> 8); h += (char)req; h += string("\0\0\0\1\0\0", 6); string dg = h + q; if (send(c[1].fd, dg.data(), dg.size(), 0) != (ssize_t)dg.size()) mc::fail("cannot send a datagram: %s", strerror(errno));
        struct pollfd p{c[1].fd, POLLIN, 0}; if (poll(&p, 1, WAIT) <= 0) { s.must_run("while it served"); mc::fail("no reply to the datagram '%s'", show(q).c_str()); } char b[65536]; ssize_t n = recv(c[1].fd, b, sizeof b, 0); if (n < 8) mc::fail("reply datagram of %zd bytes", n); if (memcmp(b, h.data(), 2)) mc::fail("reply to another datagram"); string r(b + 8, n - 8); mc::note("  udp: %s -> %s", show(q).c_str(), show(r).c_str()); return r;
    }
    void set(int k, const string & key, const string & v) { string r = ask(k, "set " + key + " 3 0 " + std::to_string(v.size()) + "\r\n" + v + "\r\n", "\r\n"); if (r != "STORED\r\n") mc::fail("set is answered '%s'", show(r).c_str()); m[key] = v; sets++; }
    void get(int k, const string & key) { string r = ask(k, "get " + key + "\r\n", "END\r\n"); gets++; string want = m.count(key) ? (hits++, "VALUE " + key + " 3 " + std::to_string(m[key].size()) + "\r\n" + m[key] + "\r\nEND\r\n") : string("END\r\n"); if (r != want) mc::fail("get through endpoint %d returns '%s', expected '%s'", k, show(r).c_str(), show(want).c_str()); }
    void half(int k, const string & v) { if (!c[k].half.empty()) finish(k); string w = "set h 3 0 " + std::to_string(v.size()) + "\r\n" + v + "\r\n"; size_t cut = w.size() / 2; c[k].put(w.substr(0, cut)); c[k].half = w.substr(cut); mc::note("  half of a command through %d", k); hv[k] = v; }
    string hv[3];
    void finish(int k) { string rest = c[k].half; c[k].half.clear(); c[k].put(rest); string r = c[k].line_reply("\r\n"); if (r != "STORED\r\n") mc::fail("command sent in two parts is answered '%s'", show(r).c_str()); m["h"] = hv[k]; sets++; mc::note("  the other half through %d", k); }
    static bool number_after(const string & s, const char * name, unsigned long long & v) { size_t at = 0; size_t len = strlen(name); while ((at = s.find(name, at)) != string::npos) { size_t e = at + len; bool before = at == 0 || !(isalnum((unsigned char)s[at - 1]) || s[at - 1] == '_'), after = e < s.size() && !(isalnum((unsigned char)s[e]) || s[e] == '_'); if (before && after) { while (e < s.size() && s[e] != '\n' && !isdigit((unsigned char)s[e])) ++e; if (e < s.size() && isdigit((unsigned char)s[e])) { size_t d = e; while (d < s.size() && isdigit((unsigned char)s[d])) ++d; if (d < s.size()) { v = strtoull(s.c_str() + e, 0, 10); return true; } } return false; } at = e; } return false; }
    // SIGUSR1 prints the counters
    void usr1() {
        mc::note("  SIGUSR1"); s.must_run("before the signal"); kill(s.pid, SIGUSR1); signals++; static const char * names[] = {"cmd_set", "cmd_get", "get_hits", "get_misses", "set_new", "num_malloc", "limit_maxbytes", "evictions"}; unsigned long long v[8]; string o;
        for (int i = 0;; ++i) { o = s.out().substr(printed); bool all = true; for (int n = 0; n < 8; ++n) if (!number_after(o, names[n], v[n])) all = false; if (all) break; if (s.ended()) mc::fail("the server ended on SIGUSR1 (status %x)", s.status); usleep(i < 100 ? 500 : 10000); mc::step(); if (i > 2000) mc::fail("statistics were not printed on SIGUSR1 number %d", signals); }
        if (v[0] != (unsigned)sets || (exact && (v[1] != (unsigned)gets || v[2] != (unsigned)hits || v[3] != (unsigned)(gets - hits)))) mc::fail("printed statistics: cmd_set %llu cmd_get %llu get_hits %llu get_misses %llu, expected %d %d %d %d", v[0], v[1], v[2], v[3], sets, gets, hits, gets - hits);
        if (v[6] != 1 << 20 || v[7] != 0) mc::fail("printed statistics: limit_maxbytes %llu evictions %llu", v[6], v[7]);
        // the rest of the output: wait until the output stands still with its end
        size_t before = 0; for (int i = 0; i < 40; ++i) { size_t n = s.out().size(); if (n == before && i > 3) break; before = n; usleep(500); } printed = before;
    }
    void stop(int sig) { mc::note("  signal %d", sig); s.must_run("before the signal"); kill(s.pid, sig); if (!s.wait_end()) mc::fail("the server does not end on signal %d (after %d SIGUSR1)", sig, signals); if (!WIFEXITED(s.status) || WEXITSTATUS(s.status)) mc::fail("the server ends with status %x on signal %d", s.status, sig); for (auto & x : c) x.drop(); }
    void all() { for (int k = 0; k < 3; ++k) if (on(k)) { for (auto key : {"a", "h"}) { if (!c[k].half.empty()) finish(k); get(k, key); } } for (int k = 0; k < 3; ++k) if (on(k)) get(k, "a"); }
    // listings of /proc are not atomic: entries may be missed while others come and go, hence the repetition
    void check_endpoints() {
        for (int i = 0;; ++i) {
            std::set<int> t, u; std::set<string> l; endpoints(s.pid, t, u, l); std::set<int> wt, wu; std::set<string> wl; if (e.tcp) wt.insert(pt); if (e.udp) wu.insert(pu); if (e.local) wl.insert(path); if (t == wt && u == wu && l == wl) return; s.must_run("while it served"); if (i < 40) { usleep(5000); mc::step(); continue; }
            if (t != wt) mc::fail("%zu TCP ports are open (first %d)", t.size(), t.empty() ? 0 : *t.begin()); if (u != wu) mc::fail("%zu UDP ports are open (first %d)", u.size(), u.empty() ? 0 : *u.begin()); mc::fail("%zu local sockets are open", l.size());
        }
    }
};
static const int stops[] = {SIGTERM, SIGINT, SIGQUIT};
// every combination of endpoints: exactly these are served, all of them share one cache
static void combinations() {
    int which = mc::choose(8); bool same = (which & 3) == 3 ? mc::flip() : false; int usr = mc::choose(3), st = mc::pick(stops); World w(End{(which & 1) != 0, (which & 2) != 0, (which & 4) != 0}, same); w.check_endpoints(); int n = 0;
    for (int k = 0; k < 3; ++k) if (w.on(k)) { w.set(k, "a", "v" + std::to_string(++n)); for (int j = 0; j < 3; ++j) if (w.on(j)) w.get(j, "a"); }
    for (int i = 0; i < usr; ++i) { w.usr1(); for (int j = 0; j < 3; ++j) if (w.on(j)) w.get(j, "a"); } w.check_endpoints(); w.stop(st); mc::state(mc::hcombine(which * 2 + same, usr * 32 + st));
}
// any order of requests through the endpoints, partial requests, clients that come and go, and signals
static void session(int depth) {
    bool other = mc::flip(); int st = mc::pick(stops), k = other ? 2 : 0; World w(End{true, true, true}, !other); uint64_t h = other; string big(40000, 'b');
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(12); h = mc::hcombine(h, c); string v = "value" + std::to_string(d);
        switch (c) {
        case 0: w.usr1(); break;
        case 1: w.set(0, "a", v); break; case 2: w.set(1, "a", v); break; case 3: w.set(2, "a", v); break;
        case 4: w.get(0, "a"); break; case 5: w.get(1, "a"); break; case 6: w.get(2, "a"); break;
        case 7: w.half(k, v); break;
        case 8: mc::note("  client %d leaves and comes back", k); w.c[k].drop(); w.connect_(k); break;
        case 9: { mc::note("  a client asks for much and vanishes"); w.set(k, "big", big); Conn x; if (!x.try_open(k, w.pt, w.path)) mc::fail("no second connection"); string q; for (int i = 0; i < 60; ++i) q += "get big\r\n"; x.put(q); x.some(); x.drop(true); w.exact = false; string r = w.ask(k, "delete big\r\n", "\r\n"); if (r != "DELETED\r\n") mc::fail("delete is answered '%s'", show(r).c_str()); w.m.erase("big"); break; }
        case 10: { mc::note("  worthless datagrams"); for (string q : {string("x"), string("\0\1\0\1\0\2\0\0get a\r\n", 15), string()}) if (send(w.c[1].fd, q.data(), q.size(), 0) < 0) mc::fail("send"); break; }
        case 11: { string r = w.ask(k, "bogus\r\n", "\r\n"); if (r.compare(0, 5, "ERROR")) mc::fail("unknown command is answered '%s'", show(r).c_str()); w.c[k].drop(); w.connect_(k); break; }
        }
    }
    w.all(); w.stop(st); mc::state(h);
}
// the server can be started again at once on the endpoints it just left, with clients still there
static void restart() {
    int st = mc::pick(stops), clients = mc::choose(3), usr = mc::choose(2), silent = mc::choose(2); World w(End{true, true, true}, true); w.set(0, "a", "1"); w.get(1, "a"); if (usr) w.usr1(); std::vector<std::unique_ptr<Conn>> more; for (int i = 0; i < clients * 10; ++i) { more.emplace_back(new Conn); if (!more.back()->try_open(0, w.pt, w.path)) mc::fail("no connection"); if (!silent) { more.back()->put("get a\r\n"); if (more.back()->line_reply("END\r\n") != "VALUE a 3 1\r\n1\r\nEND\r\n") mc::fail("bad reply"); } }
    kill(w.s.pid, st); if (!w.s.wait_end()) mc::fail("the server does not end on signal %d", st); if (!WIFEXITED(w.s.status) || WEXITSTATUS(w.s.status)) mc::fail("the server ends with status %x on signal %d", w.s.status, st);
    unlink(w.path.c_str()); mc::note("  started again"); w.launch(); w.check_endpoints(); w.get(0, "a"); w.set(2, "a", "2"); w.get(1, "a"); w.stop(st); mc::state(mc::hcombine(st, clients * 4 + usr * 2 + silent));
}
// endpoints that cannot be had: the server ends with an error and a message
static void unusable() {
    Scratch dir; int kind = mc::choose(11); int t = -1; std::vector<string> a{"-m", "1M", "-P", "64K", "-H", "16"}; auto opt = [&](string p, string u, string s) { a.insert(a.end(), {"-p", p, "-U", u}); if (!s.empty()) { a.push_back("-s"); a.push_back(s); } }; string pt = std::to_string(own_port(0)); struct sockaddr_in ad; memset(&ad, 0, sizeof ad); ad.sin_family = AF_INET; ad.sin_port = htons(own_port(0));
    struct Fd { int & f; ~Fd() { if (f >= 0) close(f); } } guard{t};
    switch (kind) {
    case 0: { t = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (bind(t, (struct sockaddr *)&ad, sizeof ad) || listen(t, 1)) mc::fail("cannot occupy the port"); opt(pt, "0", ""); break; }
    case 1: { t = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); if (bind(t, (struct sockaddr *)&ad, sizeof ad)) mc::fail("cannot occupy the port"); opt("0", pt, ""); break; }
    case 2: opt("0", "0", dir.dir + "/none/sock"); break;
    case 3: opt("0", "0", dir.dir + "/" + string(120, 'x')); break;
    case 4: { FILE * f = fopen((dir.dir + "/file").c_str(), "w"); if (f) fclose(f); opt("0", "0", dir.dir + "/file"); break; }
    case 5: opt("65536", "0", ""); break; case 6: opt("abc", "0", ""); break; case 7: opt("0", "70000", ""); break; case 8: opt("0", "1x", ""); break;
    case 9: opt("0", "0", ""); a.push_back("--nonsense"); break; case 10: opt("0", "0", ""); a.push_back("-p"); a.push_back("1"); break;
    }
    Server s; s.start(dir, a); if (!s.wait_end()) mc::fail("the server keeps running"); if (!WIFEXITED(s.status) || WEXITSTATUS(s.status) == 0 || WEXITSTATUS(s.status) == 99) mc::fail("the server ends with status %x", s.status); if (s.err().size() + s.out().size() < 4) mc::fail("the server ends without a message"); mc::state(kind);
}
// many clients at a time
static void crowd() {
    static const int ns[] = {1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 200}; int n = mc::pick(ns), k = mc::flip() ? 2 : 0, leave = mc::choose(3), st = mc::pick(stops); World w(End{true, true, true}, true); std::vector<std::unique_ptr<Conn>> cs; w.set(k, "a", "1");
    auto talk = [&](int i, const string & q, const string & want) { cs[i]->put(q); string r = cs[i]->line_reply(want.substr(want.size() - 2)); for (int j = 0; r.size() < want.size() && j < 100; ++j) r += cs[i]->line_reply("\r\n"); if (r != want) mc::fail("client %d of %d: '%s' is answered '%s'", i, n, show(q).c_str(), show(r).c_str()); };
    auto open_ = [&](int i) { if (!cs[i]->try_open(k, w.pt, w.path)) { w.s.must_run("while clients connect"); mc::fail("client %d of %d cannot connect", i, n); } };
    for (int i = 0; i < n; ++i) { cs.emplace_back(new Conn); open_(i); }
    for (int i = 0; i < n; ++i) talk(i, "set c" + std::to_string(i) + " 1 0 4\r\n" + std::to_string(1000 + i) + "\r\n", "STORED\r\n");
    for (int i = 0; i < n; ++i) { string key = "c" + std::to_string((i * 7 + 1) % n); talk(i, "get " + key + "\r\n", "VALUE " + key + " 1 4\r\n" + std::to_string(1000 + (i * 7 + 1) % n) + "\r\nEND\r\n"); }
    if (leave) { for (int i = 0; i < n; i += leave) cs[i]->drop(leave == 2 && i % 4 == 0); for (int i = 0; i < n; i += leave) open_(i); for (int i = 0; i < n; ++i) talk(i, "get a\r\n", "VALUE a 3 1\r\n1\r\nEND\r\n"); }
    w.get(0, "a"); w.get(1, "a"); w.get(2, "a"); w.stop(st); mc::state(mc::hcombine(n * 4 + k, leave));
}
// signals sent while clients keep the server busy: the replies are complete
static void busy(int depth) {
    World w(End{true, true, true}, true); int st = mc::pick(stops); string big(30000, 'b'); w.set(0, "a", big); uint64_t h = 5;
    for (int d = 0; d < depth; ++d) { int c = mc::choose(4); h = mc::hcombine(h, c); if (c == 3) { kill(w.s.pid, SIGUSR1); mc::note("  SIGUSR1 (not waited for)"); w.signals++; } else for (int i = 0; i < 3; ++i) w.get((c + i) % 3, "a"); }
    w.stop(st); mc::state(h);
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    mc::add("combinations", combinations, false, 2, 120);
    mc::add("session", [=] { session(th ? 4 : 3); }, false, 3, 120);
    mc::add("restart", restart, false, 2, 120);
    mc::add("crowd", crowd, false, 2, 120);
    mc::add("unusable", unusable, false, 1, 120);
    mc::add("busy", [=] { busy(th ? 5 : 4); }, false, 2, 120);
    return mc::main_(argc, argv);
}
