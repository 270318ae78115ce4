// C13: malformed input never harms the server or stored data
#define VCLOCK_IMPL
#define NETSIM_IMPL
#define HEAP_IMPL
#include "heap.h"
#include "netsim.h"
using namespace proto; using namespace netsim;

static bool is_error(const string & l) { return l == "ERROR" || (l.compare(0, 13, "CLIENT_ERROR ") == 0 && l.size() > 13) || (l.compare(0, 13, "SERVER_ERROR ") == 0 && l.size() > 13); }
struct Reply { int replies = 0, errors = 0; bool complete = true; };
// splits what was received into replies; anything that is not a reply of the protocol is a violation
static Reply parse(const string & got, const char * what) {
    Reply r; size_t at = 0;
    auto line = [&](string & l) { size_t e = got.find("\r\n", at); if (e == string::npos) return false; l = got.substr(at, e - at); at = e + 2; return true; };
    auto bad = [&](const string & l) { mc::fail("%s: '%s' is not a reply, received '%s'", what, show(l).c_str(), show(got, 200).c_str()); };
    string l;
    while (at < got.size()) {
        if (!line(l)) { r.complete = false; return r; }
        r.replies++;
        if (is_error(l)) { r.errors++; continue; }
        static const char * simple[] = {"STORED", "NOT_STORED", "EXISTS", "NOT_FOUND", "DELETED", "TOUCHED", "OK", "END"};
        bool ok = false; for (auto s : simple) ok |= l == s; if (ok) continue;
        if (l.compare(0, 8, "VERSION ") == 0 && l.size() > 8) continue;
        if (!l.empty() && l.size() <= 20 && l.find_first_not_of("0123456789") == string::npos) continue;
        if (l.compare(0, 5, "STAT ") == 0) { do { if (!line(l)) { r.complete = false; return r; } if (l != "END" && l.compare(0, 5, "STAT ")) bad(l); } while (l != "END"); continue; }
        if (l.compare(0, 6, "VALUE ") == 0) {
            for (;;) {
                size_t d = l.find_last_not_of("0123456789"); // the length (or the unique id) is the last number
                size_t p1 = l.rfind(' '); if (d == string::npos || p1 == string::npos) bad(l);
                size_t len = strtoull(l.c_str() + p1 + 1, nullptr, 10);
                size_t e = at + len;
                if (!(e + 2 <= got.size() && got.compare(e, 2, "\r\n") == 0)) { // `gets`: the length precedes the unique id
                    size_t p0 = p1 ? l.rfind(' ', p1 - 1) : string::npos; if (p0 == string::npos) bad(l);
                    len = strtoull(l.c_str() + p0 + 1, nullptr, 10); e = at + len;
                    if (!(e + 2 <= got.size() && got.compare(e, 2, "\r\n") == 0)) { r.complete = false; return r; }
                }
                at = e + 2; if (!line(l)) { r.complete = false; return r; }
                if (l == "END") break; if (l.compare(0, 6, "VALUE ")) bad(l);
            }
            continue;
        }
        bad(l);
    }
    return r;
}
static const size_t PAGE = 1024;
struct Rig {
    World w; Client * k; Client * other; Model m; size_t rcv, snd; string okey = "other"; int n = 0;
    struct Snap { bool have; string v; unsigned f; uint64_t id; bool operator==(const Snap & o) const { return have == o.have && v == o.v && f == o.f && id == o.id; } };
    std::vector<string> keys{"victim", "k", "other"}; std::vector<Snap> last;
    Rig(size_t rcv_ = 1 << 16, size_t snd_ = 1 << 16) : w(16 * PAGE, PAGE, 16, true, rcv_, snd_), rcv(rcv_), snd(snd_) {
        vclock::reset(); heap::reset(); k = &w.connect(); other = &w.connect();
        exact(*other, store(SET, "victim", "1234", 77)); exact(*other, store(SET, "k", "10", 5)); exact(*other, store(SET, "other", "o", 1));
        last = snap();
    }
    std::vector<Snap> snap() { std::vector<Snap> r; cache::HashFunction hf; for (auto & key : keys) { auto i = w.c.do_get(slice(key.data(), key.size()), hf(slice(key.data(), key.size()))); r.push_back(i ? Snap{true, i->value().str(), i->opaque_flags(), i->timestamp()} : Snap{false, "", 0, 0}); } return r; }
    // a well-formed command on a healthy connection
    void exact(Client & c, Cmd x) {
        string s = m.wire(x); size_t from = c.got.size(); bool er; string pat = m.apply(x, er);
        w.send(c, s); w.settle();
        size_t e = m.match(x, pat, c.got, from, "well-formed command");
        if (e != c.got.size()) mc::fail("well-formed command '%s': reply is '%s', expected '%s'", show(s).c_str(), show(c.got.substr(from)).c_str(), show(pat).c_str());
    }
    void limits() {
        size_t lim = std::max(std::max(rcv, snd), (size_t)4096);
        if (heap::largest > lim) mc::fail("%llu bytes of memory were requested at once, buffers are limited to %zu", (unsigned long long)heap::largest, lim);
        if ((size_t)heap::bytes > 4 * rcv + 4 * snd + 65536) mc::fail("the connections hold %ld bytes of memory", heap::bytes);
    }
    // arbitrary input in one piece. `must`: it contains nothing but rejected input. `named`: it may change item k
    // returns the parsed reply
    bool quiet_change = false;  // a noreply command may be part of the input: an error reply does not rule out a change
    Reply poke(const string & s, bool must, bool may_change_k, int max_replies) {
        size_t from = k->got.size(); w.send(*k, s); w.settle();
        string got = k->got.substr(from); Reply r = parse(got, "malformed input");
        mc::note("  '%s' -> '%s'%s", show(s, 80).c_str(), show(got, 80).c_str(), k->eof ? " closed" : "");
        if (!r.complete && !k->eof) mc::fail("input '%s': incomplete reply '%s'", show(s).c_str(), show(got).c_str());
        if (r.replies > max_replies) mc::fail("input '%s': %d replies '%s', at most %d expected", show(s, 100).c_str(), r.replies, show(got, 200).c_str(), max_replies);
        if (must && r.replies != r.errors) mc::fail("input '%s' is not a valid command but is answered '%s'", show(s, 100).c_str(), show(got).c_str());
        if (must && r.errors == 0 && !k->eof) mc::fail("input '%s' is rejected without an error reply", show(s, 100).c_str());
        auto now = snap();
        for (size_t i = 0; i < keys.size(); ++i) if (!(now[i] == last[i]) && (keys[i] != "k" || !may_change_k || (r.replies > 0 && r.errors == r.replies && !quiet_change))) mc::fail("input '%s' (answered '%s') changed item '%s' from '%s' to '%s'", show(s, 100).c_str(), show(got).c_str(), keys[i].c_str(), last[i].have ? show(last[i].v).c_str() : "(none)", now[i].have ? show(now[i].v).c_str() : "(none)");
        last = now; limits();
        return r;
    }
    void resync() { auto s = snap(); m.m.erase("k"); if (s[1].have) { m.m["k"] = Item{s[1].v, s[1].f, true, 0, s[1].id}; m.ids.insert(s[1].id); } }
    // the connection is closed, or serves well-formed commands; the other one always does
    void probe() {
        n++; resync();
        if (!k->eof) { exact(*k, get({"victim", "k", "other"})); exact(*k, store(SET, "probe", std::to_string(n), n)); exact(*k, get({"probe"})); exact(*k, key_cmd(DELETE, "probe")); }
        else { if (!k->conv.expired()) mc::fail("the server still holds the closed connection"); }
        exact(*other, get({"victim", "other"})); exact(*other, store(SET, "probe", "p" + std::to_string(n), n)); exact(*other, get({"probe"})); exact(*other, key_cmd(DELETE, "probe"));
        if (k->eof) { k->close(); k = &w.connect(); exact(*k, get({"victim", "none"})); }
        last = snap(); limits();
    }
};
static int lines(const string & s) { int n = 0; for (size_t p = s.find("\r\n"); p != string::npos; p = s.find("\r\n", p + 2)) ++n; return n; }

// ---------------------------------------------------------------- corrupted commands
struct Tok { const char * t; bool bad; };
static string rep(const string & t) { if (t == "@251") return string(251, 'K'); if (t == "@300") return string(300, 'K'); if (t == "@NUL") return string(1, '\0'); return t; }
static void grammar(int which) {
    Rig g;
    static const Tok K[] = {{"k", 0}, {"@251", 1}, {"@300", 1}, {"", 1}};
    static const Tok N[] = {{"0", 0}, {"x", 1}, {"", 1}, {"1x", 1}, {"x1", 1}, {"999999999999999999999999", 1}, {"@NUL", 1}, {"0x1", 1}, {"+", 1}, {"1.5", 1}, {"\x80", 1}, {"\r", 1}, {"\n", 1}, {"18446744073709551616", 1}, {"100000000000000000000", 1}, {"-", 1}};
    static const Tok T[] = {{"", 0}, {"noreply", 0}, {"norepl", 1}, {"noreplyy", 1}, {"NOREPLY", 1}, {"noreply noreply", 1}, {"0", 1}, {"@NUL", 1}, {"noreply\r", 1}};
    static const char * st[] = {"set", "add", "replace", "append", "prepend", "cas"};
    string line; bool bad = false; size_t data = 0; bool storage = false, quiet = false;
    auto put = [&](const Tok & t) { line += " " + rep(t.t); bad |= t.bad; };
    auto tail = [&](const Tok & t) { if (*t.t) { put(t); if (!t.bad) quiet = true; } };
    if (which < 6) {
        storage = true; line = st[which]; put(mc::pick(K));
        int which_bad = mc::choose(which == 5 ? 4 : 3); // one numeric argument at a time takes all values
        static const Tok good[] = {{"0", 0}, {"0", 0}, {"4", 0}, {"0", 0}};
        for (int i = 0; i < (which == 5 ? 4 : 3); ++i) { if (i == which_bad) { const Tok & t = mc::pick(N); if (i == 2 && !t.bad) put(good[2]); else put(t); } else put(good[i]); }
        data = 4; tail(mc::pick(T));
    } else if (which == 6 || which == 7) { line = which == 6 ? "incr" : "decr"; put(mc::pick(K)); put(mc::pick(N)); tail(mc::pick(T)); }
    else if (which == 8) { line = "touch"; put(mc::pick(K)); put(mc::pick(N)); tail(mc::pick(T)); }
    else if (which == 9) { line = "delete"; put(mc::pick(K)); tail(mc::pick(T)); }
    else if (which == 10) { line = mc::flip() ? "get" : "gets"; put(mc::pick(K)); static const Tok more[] = {{"", 0}, {"victim", 0}, {"@251", 1}, {"@300", 1}}; const Tok & t = mc::pick(more); if (*t.t) put(t); }
    else { static const char * w[] = {"", " ", "g", "ge", "gett", "Get", "GET", "sets", "sett", "quit1", "quitt", "qui", "flush", "flush_al", "flush_alll", "stat", "statss", "versio", "versions", "deletee", "delet", "touc", "touchh", "app", "appen", "appendd", "prependd", "prepen", "replac", "replacee", "inc", "incrr", "dec", "decrr", "ca", "cass", "ad", "addd", "\x01", "\x7f", "\xff\xfe", "get", "gets", "set", "add", "cas", "append", "prepend", "replace", "delete", "incr", "decr", "touch", "set k", "set k 0", "set k 0 0", "cas k 0 0 4", "incr k", "decr k", "touch k", " get k", "aet k", "gat k", "sat k", "qet k", "get\tk", "set\tk 0 0 1", "verbosity 1", "version x", "stats nothing", "flush_all x", "flush_all noreplyx", "delete k x", "delete k 0 0"};
        line = mc::pick(w); bad = true; }
    bool with_data = storage && mc::flip(); string s = line + "\r\n"; if (with_data) s += string(data, 'D') + "\r\n";
    if (!bad) { // well-formed: only the effect on the named key is free
        Reply r = g.poke(s, false, true, 1);
        if (storage && !with_data) { if (r.replies) mc::fail("'%s' is answered before its data", show(line).c_str()); r = g.poke("DDDD\r\n", false, true, 1); }
        if (!quiet && r.replies != 1 && !g.k->eof) mc::fail("'%s' is not answered", show(line).c_str());
    } else { Reply r = g.poke(s, true, false, lines(s)); (void)r; }
    mc::state(mc::hstr(s)); g.probe();
}
// ---------------------------------------------------------------- arbitrary short inputs
static void finish(Rig & g) { // whatever is pending is completed: end of line, and data of a storage command
    for (int i = 0; i < 3 && !g.k->eof; ++i) { Reply r = g.poke("\r\n", false, true, 2); if (r.replies) return; }
    for (int i = 0; i < 200 && !g.k->eof; ++i) { Reply r = g.poke("delete none\r\n", false, true, 4); if (r.replies == 1 && !r.errors) return; }
    if (!g.k->eof) mc::fail("the connection neither serves commands nor is closed");
}
static void bytes(int len, const char * alpha, int n) {
    Rig g; string s; for (int i = 0; i < len; ++i) s += alpha[mc::choose(n)];
    g.poke(s, false, true, lines(s)); finish(g); mc::state(mc::hstr(s)); g.probe();
}
static void words(int len, int n) {
    static const string w[] = {"\r\n", " ", "get", "set", "k", "2", "\r", "\n", "noreply", "delete", "0", "\x80", "quit", "cas", string(1, '\0')};
    Rig g; string s; for (int i = 0; i < len; ++i) s += w[mc::choose(n)]; g.quiet_change = s.find("noreply") != string::npos;
    g.poke(s, false, true, lines(s)); finish(g); mc::state(mc::hstr(s)); g.probe();
}
// storage commands whose data block has another length than declared
static void data_length() {
    static const char * decl[] = {"0", "1", "2", "3", "4", "5", "6", "7", "10"}; static const string data[] = {"", "\r", "\n", "a", "ab", "abc", "abcd", "abcde", "ab\r\n", "\r\n", "\r\n\r\n", "get victim", "\r\rab", "ab\n\r"};
    static const char * op[] = {"set", "append", "cas", "prepend", "add", "replace"};
    Rig g; string o = mc::pick(op), d = mc::pick(decl), v = mc::pick(data); size_t n = strtoul(d.c_str(), nullptr, 10); bool nr = mc::flip(); g.quiet_change = nr;
    string h = o + " k 0 0 " + d + (o == "cas" ? " 1" : "") + (nr ? " noreply" : "") + "\r\n", b = v + "\r\n"; int cut = mc::choose(3);
    bool good = v.size() == n;
    if (cut == 0) g.poke(h + b, false, good || b.substr(std::min(n, b.size())).compare(0, 2, "\r\n") == 0, 1 + lines(b));
    else { Reply r = g.poke(cut == 1 ? h : h + b.substr(0, 1), false, true, 2); r = g.poke(cut == 1 ? b : b.substr(1), false, true, 1 + lines(b)); }
    if (good && g.k->eof) mc::fail("a valid command closed the connection");
    if (!good) finish(g);
    mc::state(mc::hstr(h + b)); g.probe();
}
// ---------------------------------------------------------------- sizes
// a line (or an argument list) of every length up to and beyond the limit of the receive buffer
static void long_line(size_t rcv, int step) {
    Rig g(rcv, 4096); int kind = mc::choose(4); size_t len = 1 + mc::choose((int)(rcv + 200) / step) * step; bool at_once = mc::flip();
    string s = kind == 0 ? string(len, 'x') : kind == 1 ? "get " + string(len, 'y') : kind == 2 ? string("set k 0 0 1 ") + string(len, ' ') : string("get"); if (kind == 3) while (s.size() < len) s += " k" ;
    if (at_once) { g.poke(s + "\r\n", kind == 0 || kind == 2 || (kind == 1 && len > 250), false, 1); }
    else { for (size_t at = 0; at < s.size() && !g.k->eof; at += 300) { Reply r = g.poke(s.substr(at, 300), false, false, 1); if (r.replies && r.errors != r.replies) mc::fail("an unfinished line is answered"); } if (!g.k->eof) g.poke("\r\n", false, false, 1); }
    mc::state(mc::hcombine(len, kind * 2 + at_once)); g.probe();
}
// never ending input without a line end
static void endless(size_t rcv) {
    Rig g(rcv, 4096); static const size_t piece[] = {1, 7, 100, 125, 499, 500, 501, 4096}; size_t p = mc::pick(piece); int kind = mc::choose(3);
    size_t total = 0, cap = 16 * rcv + 65536; if (kind == 1) { g.poke("set k 0 0 1000\r\n", false, false, 1); } 
    string chunk(p, kind == 2 ? '\r' : 'e');
    while (!g.k->eof && total < cap) { g.poke(chunk, false, false, 2000); total += p; }
    if (kind == 0 && !g.k->eof) mc::fail("%zu bytes of a single line were accepted, the buffer is limited to %zu", total, rcv);
    mc::state(p * 3 + kind); if (!g.k->eof) { g.poke("\r\n", false, false, 1); } g.probe();
}
// a well-formed storage command with data of any size: stored or refused as a whole, data are never taken for commands
static void big_data(size_t rcv, bool mtu) {
    static const size_t len[] = {0, 1, 100, 480, 500, 700, 900, 950, 960, 970, 975, 980, 985, 990, 995, 1000, 1005, 1010, 1015, 1016, 1017, 1020, 1023, 1024, 1025, 1026, 1100, 1500, 1990, 1998, 1999, 2000, 2001, 2047, 2048, 2049, 2050, 2500, 3000, 4000, 4090, 4094, 4095, 4096, 4097, 5000, 8000, 20000, 70000};
    static const char * op[] = {"set", "append", "add", "cas", "prepend", "replace"};
    Rig g(rcv, 4096); size_t n = mc::pick(len); string o = mc::pick(op); bool nr = mc::flip(); int pc = mc::choose(4);
    string evil = "\r\ndelete victim\r\nset victim 1 0 1\r\nX\r\nflush_all\r\ndelete other\r\ndelete k\r\n", v; while (v.size() < n) v += evil; v.resize(n);
    string h = o + " k 0 0 " + std::to_string(n) + (o == "cas" ? " 1" : "") + (nr ? " noreply" : "") + "\r\n", s = h + v + "\r\n";
    size_t from = g.k->got.size(); std::vector<size_t> cuts; if (pc == 1) cuts = {h.size()}; else if (pc == 2) cuts = {h.size() + n / 2}; else if (pc == 3) for (size_t c = 200; c < s.size(); c += 333) cuts.push_back(c);
    cuts.push_back(s.size()); size_t at = 0; for (size_t c : cuts) { if (c <= at || g.k->eof) continue; g.w.send(*g.k, s.substr(at, c - at)); g.w.settle(); at = c; }
    string got = g.k->got.substr(from); Reply r = parse(got, "data block"); mc::note("  '%s' with %zu bytes -> '%s'%s", show(h).c_str(), n, show(got).c_str(), g.k->eof ? " closed" : "");
    if (r.replies > 1) mc::fail("'%s' with its data got %d replies '%s'", show(h).c_str(), r.replies, show(got, 200).c_str());
    if (!g.k->eof && r.replies != (nr ? 0 : 1) && !(nr && r.errors == 1)) mc::fail("'%s' with its data got %d replies", show(h).c_str(), r.replies);
    auto now = g.snap(); for (size_t i = 0; i < 3; ++i) if (g.keys[i] != "k" && !(now[i] == g.last[i])) mc::fail("data of '%s' (%zu bytes) changed item '%s'", show(h).c_str(), n, g.keys[i].c_str());
    if (!now[1].have) mc::fail("data of '%s' removed item k", show(h).c_str());
    string want = now[1].v; bool changed = !(now[1] == g.last[1]);
    if (changed && want != (o == "append" ? "10" + v : o == "prepend" ? v + "10" : v)) mc::fail("'%s' stored something else", show(h).c_str());
    if (changed && r.replies && got != "STORED\r\n") mc::fail("'%s' was answered '%s' but stored", show(h).c_str(), show(got).c_str());
    if (!changed && got == "STORED\r\n") mc::fail("'%s' was answered STORED but not stored", show(h).c_str());
    bool fits = n + 100 < PAGE && s.size() + 130 < rcv; if (fits && g.k->eof) mc::fail("'%s' closed the connection", show(h).c_str());
    g.last = now; g.limits(); mc::state(mc::hcombine(mc::hstr(h), pc)); g.probe();
}
// declared lengths that can not be received at all
static void huge_length() {
    static const char * len[] = {"65535", "65536", "1000000", "2147483647", "2147483648", "4294967293", "4294967294", "4294967295", "4294967296", "4294967298", "9223372036854775807", "18446744073709551613", "18446744073709551615", "-1", "-5"};
    static const char * op[] = {"set", "append", "cas", "replace"};
    Rig g(4096, 4096); string n = mc::pick(len), o = mc::pick(op); string h = o + " k 0 0 " + n + (o == "cas" ? " 1" : "") + (mc::flip() ? " noreply" : "") + "\r\n";
    g.poke(h, false, false, 1); for (int i = 0; i < 40 && !g.k->eof; ++i) g.poke("\r\ndelete none\r\n" + string(200, 'z'), false, false, 3);
    mc::state(mc::hstr(h)); if (!g.k->eof) finish(g); g.probe();
}
// replies that do not fit the send buffer
static void long_reply(size_t snd) {
    Rig g(4096, snd); static const int vlen[] = {0, 1, 50, 400, 800}; int nk = 1 + mc::choose(40); int vl = mc::pick(vlen); bool ids = mc::flip(); bool stats = mc::flip();
    g.exact(*g.other, store(SET, "k", fill(std::min<size_t>(vl, snd / 2), 4), 9)); g.last = g.snap();
    string s = ids ? "gets" : "get"; for (int i = 0; i < nk; ++i) s += " k"; s += "\r\n"; if (stats) s = "stats\r\n";
    size_t from = g.k->got.size(); g.w.send(*g.k, s); g.w.settle(); string got = g.k->got.substr(from); Reply r = parse(got, "long reply"); mc::note("  %d keys of %d bytes -> %zu bytes '%s'%s", nk, vl, got.size(), show(got).c_str(), g.k->eof ? " closed" : "");
    if (!g.k->eof && (r.replies != 1 || !r.complete)) mc::fail("%d replies (complete: %d) to one command", r.replies, r.complete);
    if (!stats && r.errors == 0 && !g.k->eof) { bool er; Cmd c = get(std::vector<string>(nk, "k"), ids); string one = "VALUE k 9 " + std::to_string(std::min<size_t>(vl, snd / 2)); size_t cnt = 0; for (size_t p = got.find(one); p != string::npos; p = got.find(one, p + 1)) cnt++; if ((int)cnt != nk) mc::fail("%zu of %d values are in the reply", cnt, nk); (void)er; (void)c; }
    g.limits(); mc::state(mc::hcombine(nk, vl * 4 + ids * 2 + stats)); g.probe();
}
// sequences of good and bad input on one connection, while another one is in the middle of a command
static void mixed(int depth) {
    static const char * in[] = {"bogus\r\n", "get\r\n", "set k 0 0 x\r\nDD\r\n", "set k 0 0 2\r\nlonger than declared\r\n", "incr victim x\r\n", "delete k nope\r\n", "\r\n", "set k 0 0 100000\r\n", "incr k -1\r\n", "touch k z\r\n", "stats what\r\n"};
    Rig g(8192, 4096); string half = "append other 0 0 3\r\nx\r"; g.w.send(*g.other, half); g.w.settle(); size_t from = g.other->got.size(); uint64_t h = 1;
    for (int d = 0; d < depth; ++d) {
        int c = mc::choose(11 + 4); h = mc::hcombine(h, c);
        if (c < 11) { if (c == 7) { g.poke(in[c], false, false, 1); if (!g.k->eof) { size_t f = g.k->got.size(); string v(100000, 'q'); g.w.send(*g.k, v + "\r\n"); g.w.settle(); Reply r = parse(g.k->got.substr(f), "big"); if (r.replies != r.errors) mc::fail("data answered '%s'", show(g.k->got.substr(f)).c_str()); } } else g.poke(in[c], true, false, lines(in[c])); }
        else if (!g.k->eof) { g.resync(); switch (c - 11) { case 0: g.exact(*g.k, store(SET, "k", std::to_string(d), d)); break; case 1: g.exact(*g.k, get({"k", "victim"}, true)); break; case 2: g.exact(*g.k, key_cmd(INCR, "k", 3)); break; case 3: g.exact(*g.k, store(APPEND, "k", "7", 0, 0, true)); break; } g.last = g.snap(); }
        if (g.k->eof) { g.k->close(); g.k = &g.w.connect(); }
    }
    mc::state(h);
    if (g.other->got.size() != from) mc::fail("the other connection received '%s'", show(g.other->got.substr(from)).c_str());
    g.w.send(*g.other, "y\r\n"); // the declared 3 bytes are "x\ry"
    g.w.settle(); if (g.other->got.substr(from) != "STORED\r\n") mc::fail("the other connection received '%s' for its append", show(g.other->got.substr(from)).c_str());
    g.m.m["other"].v += "x\ry"; g.m.m["other"].id = 0; g.last = g.snap(); g.probe();
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    for (int i = 0; i < 12; ++i) mc::add("grammar-" + std::to_string(i), [=] { grammar(i); });
    for (int l = 1; l <= (th ? 7 : 5); ++l) mc::add("bytes-" + std::to_string(l), [=] { bytes(l, "g \r\nk\x80\0s0", th ? 8 : 7); });
    for (int l = 1; l <= (th ? 5 : 4); ++l) mc::add("words-" + std::to_string(l), [=] { words(l, th ? 15 : 15); });
    mc::add("data-length", data_length);
    mc::add("long-line-600", [=] { long_line(600, 1); }); mc::add("long-line-1500", [=] { long_line(1500, th ? 1 : 13); }); mc::add("long-line-4096", [=] { long_line(4096, th ? 1 : 41); });
    mc::add("endless-600", [] { endless(600); }); mc::add("endless-4096", [] { endless(4096); });
    mc::add("big-data-2000", [] { big_data(2000, false); }); mc::add("big-data-4096", [] { big_data(4096, false); }); mc::add("big-data-64k", [] { big_data(1 << 16, false); });
    mc::add("huge-length", huge_length);
    mc::add("long-reply-500", [] { long_reply(500); }); mc::add("long-reply-1200", [] { long_reply(1200); }); mc::add("long-reply-4096", [] { long_reply(4096); });
    mc::add("mixed", [=] { mixed(th ? 5 : 4); });
    return mc::main_(argc, argv);
}
