// Reference model of the memcached text protocol (the subset cachelot serves) and wire encoding of commands.
#ifndef PROTO_H
#define PROTO_H
#include "mc.h"
#include "vclock.h"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace proto {
using std::string;

inline string show(const string & s, size_t max = 60) {
    string o; char b[8];
    for (size_t i = 0; i < s.size() && i < max; ++i) { unsigned char c = s[i]; if (c == '\r') o += "\\r"; else if (c == '\n') o += "\\n"; else if (c >= 32 && c < 127 && c != '\\') o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } }
    if (s.size() > max) o += "...(" + std::to_string(s.size()) + ")";
    return o;
}
inline string fill(size_t n, unsigned seed) { string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = (char)('A' + (seed * 7 + i * 13 + (i >> 8) * 5) % 61); return s; }

enum Op { GET, GETS, SET, ADD, REPLACE, APPEND, PREPEND, CAS, DELETE, TOUCH, INCR, DECR, FLUSH, VERSION, STATS };
struct Cmd {
    Op op; std::vector<string> ks; string v; unsigned flags = 0; uint64_t exp = 0; uint64_t n = 0; bool noreply = false; bool bogus_id = false;
    uint64_t id = 0;    // of a cas, filled in by wire()
};
inline Cmd get(const std::vector<string> & ks, bool ids = false) { Cmd c; c.op = ids ? GETS : GET; c.ks = ks; return c; }
inline Cmd store(Op op, const string & k, const string & v, unsigned flags = 0, uint64_t exp = 0, bool noreply = false) { Cmd c; c.op = op; c.ks = {k}; c.v = v; c.flags = flags; c.exp = exp; c.noreply = noreply; return c; }
inline Cmd key_cmd(Op op, const string & k, uint64_t n = 0, bool noreply = false) { Cmd c; c.op = op; c.ks = {k}; c.n = n; c.exp = n; c.noreply = noreply; return c; }
inline Cmd plain(Op op, bool noreply = false) { Cmd c; c.op = op; c.noreply = noreply; return c; }

struct Item { string v; unsigned flags; bool forever; uint64_t exp; uint64_t id; };

struct Model {
    std::map<string, Item> m;
    std::map<string, uint64_t> seen;        // last unique id reported for the key
    std::set<uint64_t> ids;                 // every unique id ever reported
    size_t item_limit = (size_t)-1;         // bigger items (value + key + overhead) are refused; 0..: see too_big()
    static const uint64_t BOGUS = 18446744073709551615ull;

    void reap() { for (auto it = m.begin(); it != m.end();) if (!it->second.forever && it->second.exp <= vclock::now_s) m.erase(it++); else ++it; }
    uint64_t hash() const {
        uint64_t h = 17;
        for (auto & x : m) { h = mc::hcombine(h, mc::hstr(x.first)); h = mc::hcombine(h, mc::hstr(x.second.v)); h = mc::hcombine(h, x.second.flags * 2 + (x.second.id != 0)); h = mc::hcombine(h, x.second.forever ? 0 : 1 + x.second.exp - vclock::now_s); }
        return h;
    }
    string wire(Cmd & c) const {
        static const char * nm[] = {"get", "gets", "set", "add", "replace", "append", "prepend", "cas", "delete", "touch", "incr", "decr", "flush_all", "version", "stats"};
        string w = nm[c.op];
        for (auto & k : c.ks) w += " " + k;
        bool st = c.op >= SET && c.op <= CAS;
        if (st) {
            w += " " + std::to_string(c.flags) + " " + std::to_string(c.exp) + " " + std::to_string(c.v.size());
            if (c.op == CAS) { auto s = seen.find(c.ks[0]); c.id = c.bogus_id || s == seen.end() ? BOGUS : s->second; w += " " + std::to_string(c.id); }
        } else if (c.op == TOUCH) w += " " + std::to_string(c.exp);
        else if (c.op == INCR || c.op == DECR) w += " " + std::to_string(c.n);
        if (c.noreply) w += " noreply";
        w += "\r\n";
        if (st) w += c.v + "\r\n";
        return w;
    }
    static bool number(const string & s, uint64_t & out) {
        if (s.empty() || s.size() > 20) return false;
        unsigned __int128 v = 0; for (char ch : s) { if (ch < '0' || ch > '9') return false; v = v * 10 + (ch - '0'); }
        if (v > (unsigned __int128)~0ULL) return false;
        out = (uint64_t)v; return true;
    }
    // expected reply of the command; '\x01' + 2 byte index stands for the unique id of c.ks[index], "\x02" for the rest of one line, "\x03" for a list of STAT lines
    string apply(const Cmd & c, bool & error) {
        string r; error = false; reap();
        auto put = [&](const string & k, const string & v, unsigned f, uint64_t exp) { m[k] = Item{v, f, exp == 0, vclock::now_s + exp, 0}; };
        switch (c.op) {
        case GET: case GETS:
            for (size_t i = 0; i < c.ks.size(); ++i) {
                auto it = m.find(c.ks[i]); if (it == m.end()) continue;
                r += "VALUE " + it->first + " " + std::to_string(it->second.flags) + " " + std::to_string(it->second.v.size());
                if (c.op == GETS) { r += " "; r += '\x01'; r += (char)('0' + i % 64); r += (char)('0' + i / 64); }
                r += "\r\n" + it->second.v + "\r\n";
            }
            return r + "END\r\n";
        case SET: if (big(c.ks[0], c.v.size())) { error = true; r = "SERVER_ERROR \x02"; break; } put(c.ks[0], c.v, c.flags, c.exp); r = "STORED\r\n"; break;
        case ADD: if (m.count(c.ks[0])) r = "NOT_STORED\r\n"; else { put(c.ks[0], c.v, c.flags, c.exp); r = "STORED\r\n"; } break;
        case REPLACE: if (!m.count(c.ks[0])) r = "NOT_STORED\r\n"; else { put(c.ks[0], c.v, c.flags, c.exp); r = "STORED\r\n"; } break;
        case APPEND: case PREPEND: {
            auto it = m.find(c.ks[0]); if (it == m.end()) { r = "NOT_STORED\r\n"; break; }
            if (big(c.ks[0], c.v.size() + it->second.v.size())) { error = true; r = "SERVER_ERROR \x02"; break; }
            it->second.v = c.op == APPEND ? it->second.v + c.v : c.v + it->second.v; it->second.id = 0; r = "STORED\r\n"; break; }
        case CAS: {
            auto it = m.find(c.ks[0]); if (it == m.end()) { r = "NOT_FOUND\r\n"; break; }
            if (it->second.id == 0 || it->second.id != c.id) { r = "EXISTS\r\n"; break; }
            put(c.ks[0], c.v, c.flags, c.exp); r = "STORED\r\n"; break; }
        case DELETE: r = m.erase(c.ks[0]) ? "DELETED\r\n" : "NOT_FOUND\r\n"; break;
        case TOUCH: { auto it = m.find(c.ks[0]); if (it == m.end()) { r = "NOT_FOUND\r\n"; break; } it->second.forever = c.exp == 0; it->second.exp = vclock::now_s + c.exp; r = "TOUCHED\r\n"; break; }
        case INCR: case DECR: {
            auto it = m.find(c.ks[0]); if (it == m.end()) { r = "NOT_FOUND\r\n"; break; }
            uint64_t v; if (!number(it->second.v, v)) { error = true; r = "CLIENT_ERROR \x02"; break; }
            v = c.op == INCR ? (v > ~0ULL - c.n ? ~0ULL : v + c.n) : (v < c.n ? 0 : v - c.n);
            it->second.v = std::to_string(v); it->second.id = 0; r = it->second.v + "\r\n"; break; }
        case FLUSH: r = "OK\r\n"; break;
        case VERSION: return "VERSION \x02";
        case STATS: return "\x03";
        }
        return c.noreply ? string() : r;
    }
    std::function<bool(const string &, size_t)> too_big;
    bool big(const string & k, size_t n) const { return too_big && too_big(k, n); }

    // matches a prefix of `got` against the expected reply; returns the number of bytes consumed or npos when `got` is a proper prefix of a match; calls fail on mismatch
    size_t match(const Cmd & c, const string & pat, const string & got, size_t from, const char * what) {
        size_t g = from;
        for (size_t p = 0; p < pat.size(); ++p) {
            if (pat[p] == '\x01' && c.op == GETS) {
                size_t i = pat[p + 1] - '0' + 64 * (pat[p + 2] - '0'); p += 2; const string & k = c.ks[i]; size_t b = g; unsigned __int128 v = 0;
                while (g < got.size() && got[g] >= '0' && got[g] <= '9' && g - b < 21) v = v * 10 + (got[g++] - '0');
                if (g == got.size()) return string::npos;
                if (g == b || g - b > 20 || v > (unsigned __int128)~0ULL || (got[b] == '0' && g - b > 1)) mc::fail("%s: unique id '%s' is not a number", what, show(got.substr(b, 24)).c_str());
                uint64_t id = (uint64_t)v; auto & it = m.at(k);
                if (it.id == 0) { if (ids.count(id)) mc::fail("%s: unique id %llu of modified '%s' was reported before", what, (unsigned long long)id, show(k).c_str()); it.id = id; ids.insert(id); }
                else if (it.id != id) mc::fail("%s: unique id of '%s' changed from %llu to %llu without a modification", what, show(k).c_str(), (unsigned long long)it.id, (unsigned long long)id);
                seen[k] = id;
                continue;
            }
            if (pat[p] == '\x02' && c.op != GET && c.op != GETS) {
                size_t e = got.find('\n', g); if (e == string::npos) return e;
                if (e < g + 2 || got[e - 1] != '\r' || got.find('\r', g) != e - 1) mc::fail("%s: the line '%s' is empty or not ended by \\r\\n", what, show(got.substr(g)).c_str());
                g = e + 1; continue;
            }
            if (pat[p] == '\x03' && c.op == STATS) {
                std::set<string> names;
                for (;;) {
                    size_t e = got.find("\r\n", g); if (e == string::npos) return e;
                    string line = got.substr(g, e - g); g = e + 2;
                    if (line == "END") break;
                    size_t sp = line.find(' ', 5);
                    if (line.compare(0, 5, "STAT ") != 0 || sp == string::npos || sp == 5 || sp + 1 == line.size() || line.find(' ', sp + 1) != string::npos) mc::fail("%s: malformed stats line '%s'", what, show(line).c_str());
                    if (!names.insert(line.substr(5, sp - 5)).second) mc::fail("%s: '%s' reported twice", what, show(line).c_str());
                }
                if (names.size() < 5) mc::fail("%s: only %zu statistics", what, names.size());
                continue;
            }
            if (g == got.size()) return string::npos;
            if (got[g] != pat[p]) mc::fail("%s: reply is '%s', expected '%s'", what, show(got.substr(from), 200).c_str(), show(pat, 200).c_str());
            ++g;
        }
        return g;
    }
};
}
#endif
