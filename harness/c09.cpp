#include <cmath>
// C09: decimal conversion is exact in both directions
#include "mc.h"
#include <cachelot/common.h>
#include <cachelot/slice.h>
#include <cachelot/error.h>
#include <cachelot/string_conv.h>
#include <string>
#include <limits>
#include <set>
using namespace cachelot;
using std::string;
typedef __int128 wide;

// memory whose end (and beginning) borders on an inaccessible page
struct Fence {
    char * base; static const size_t SZ = 8192;
    Fence() { char * m = (char *)mmap(nullptr, SZ + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); base = m + 4096; mprotect(base, SZ, PROT_READ | PROT_WRITE); memset(base, '7', SZ); }
    char * at_end(const char * s, size_t n) { char * p = base + SZ - n; memcpy(p, s, n); if (p > base) p[-1] = '5'; return p; }
    char * at_begin(const char * s, size_t n) { memcpy(base, s, n); base[n] = '5'; base[n + 1] = 'x'; return base; }
};
static Fence & fin() { static Fence f; return f; }
static Fence & fout() { static Fence f; return f; }

template <class T> struct name;
#define NM(t) template <> struct name<t> { static const char * s() { return #t; } }
NM(int8); NM(int16); NM(int32); NM(int64); NM(uint8); NM(uint16); NM(uint32); NM(uint64);

static string esc(const string & s) { string o; char b[8]; for (unsigned char c : s) if (c > 32 && c < 127) o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } return o; }
static string wstr(wide v) { if (v == 0) return "0"; bool n = v < 0; if (n) v = -v; string s; while (v) { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } return n ? "-" + s : s; }
static size_t ndigits(unsigned __int128 v) { size_t n = 1; while (v >= 10) { v /= 10; n++; } return n; }

// longest canonical text of the type
template <class T> size_t maxlen() { return std::max(wstr((wide)std::numeric_limits<T>::max()).size(), wstr((wide)std::numeric_limits<T>::min()).size()); }

// reference: does text denote a number of type T?
template <class T> bool ref_parse(const char * s, size_t n, wide & out) {
    bool neg = false;
    if (std::is_signed<T>::value && n && s[0] == '-') { neg = true; s++; n--; }
    if (n == 0 || n > 20) return false;
    wide v = 0;
    for (size_t i = 0; i < n; ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); }
    if (neg) v = -v;
    if (v < (wide)std::numeric_limits<T>::min() || v > (wide)std::numeric_limits<T>::max()) return false;
    out = v; return true;
}
template <class T> void parse_at(const char * p, size_t n) {
    wide exp = 0; bool ok = ref_parse<T>(p, n, exp);
    error_code ec;
    T r = str_to_int<T>(p, p + n, ec);
    if (ok) {
        if (ec) mc::fail("str_to_int<%s>(\"%s\"): valid number is rejected", name<T>::s(), esc(string(p, n)).c_str());
        if ((wide)r != exp) mc::fail("str_to_int<%s>(\"%s\") = %s", name<T>::s(), esc(string(p, n)).c_str(), wstr((wide)r).c_str());
    } else if (!ec) mc::fail("str_to_int<%s>(\"%s\"): accepted as %s", name<T>::s(), esc(string(p, n)).c_str(), wstr((wide)r).c_str());
}
template <class T> void parse_throwing(const char * p, size_t n) {
    wide exp = 0; bool ok = ref_parse<T>(p, n, exp); bool thrown = false; T r = 0;
    try { r = str_to_int<T>(p, p + n); } catch (const system_error &) { thrown = true; }
    if (ok == thrown) mc::fail("str_to_int<%s>(\"%s\") %s", name<T>::s(), esc(string(p, n)).c_str(), thrown ? "throws for a valid number" : "does not throw for an invalid text");
    if (ok && (wide)r != exp) mc::fail("str_to_int<%s>(\"%s\") = %s", name<T>::s(), esc(string(p, n)).c_str(), wstr((wide)r).c_str());
}
template <class T> void parse_one(const char * s, size_t n) {
    mc::step();
    const char * a = fin().at_end(s, n); parse_at<T>(a, n);
    const char * b = fin().at_begin(s, n); parse_at<T>(b, n);
}
template <class T> void parse_full(const string & s) { parse_one<T>(s.data(), s.size()); parse_throwing<T>(s.data(), s.size()); }
static void parse_all_types(const string & s) {
    parse_full<int8>(s); parse_full<int16>(s); parse_full<int32>(s); parse_full<int64>(s); parse_full<uint8>(s); parse_full<uint16>(s); parse_full<uint32>(s); parse_full<uint64>(s);
}
template <class T> typename std::enable_if<std::is_unsigned<T>::value, size_t>::type text_length(T v) { return uint_ascii_length(v); }
template <class T> typename std::enable_if<std::is_signed<T>::value, size_t>::type text_length(T v) { return int_ascii_length(v); }
template <class T> void print_one(T v) {
    static const size_t M = maxlen<T>();
    mc::step();
    // reference digits
    char ref[48]; size_t rn = 0; { unsigned __int128 u = v < 0 ? (unsigned __int128)(-(wide)v) : (unsigned __int128)v; char t[48]; size_t k = 0; do { t[k++] = (char)('0' + (int)(u % 10)); u /= 10; } while (u); if (v < 0) ref[rn++] = '-'; while (k) ref[rn++] = t[--k]; }
    char * d = fout().base + Fence::SZ - M; memset(d - 8, '#', M + 8);
    size_t n = int_to_str(v, d);
    if (n != rn || memcmp(d, ref, rn) != 0) mc::fail("int_to_str<%s>(%s) gives \"%s\" of length %zu", name<T>::s(), string(ref, rn).c_str(), esc(string(d, M)).c_str(), n);
    if (text_length(v) != rn) mc::fail("length of the text of %s %s is computed as %zu", name<T>::s(), string(ref, rn).c_str(), text_length(v));
    if (d[-1] != '#') mc::fail("int_to_str<%s>(%s) writes before the buffer", name<T>::s(), string(ref, rn).c_str());
    for (size_t i = n; i < M; ++i) if (d[i] != '#') mc::fail("int_to_str<%s>(%s) writes past the text", name<T>::s(), string(ref, rn).c_str());
    const char * p = fin().at_end(ref, rn); error_code ec; T r = str_to_int<T>(p, p + rn, ec);
    if (ec || r != v) mc::fail("str_to_int<%s>(\"%s\"): %s", name<T>::s(), string(ref, rn).c_str(), ec ? "valid number is rejected" : wstr((wide)r).c_str());
}
template <class T> void print_if_fits(wide v) { if (v >= (wide)std::numeric_limits<T>::min() && v <= (wide)std::numeric_limits<T>::max()) print_one<T>((T)v); }
static void print_all_types(wide v) { print_if_fits<int8>(v); print_if_fits<int16>(v); print_if_fits<int32>(v); print_if_fits<int64>(v); print_if_fits<uint8>(v); print_if_fits<uint16>(v); print_if_fits<uint32>(v); print_if_fits<uint64>(v); }

// all values of a type of up to 32 bits, in blocks
template <class T> void all_values(int blocks) {
    wide lo = std::numeric_limits<T>::min(), span = (wide)std::numeric_limits<T>::max() - lo + 1;
    int b = mc::choose(blocks);
    for (wide v = lo + span * b / blocks; v < lo + span * (b + 1) / blocks; ++v) print_one<T>((T)v);
    mc::state(mc::hcombine(sizeof(T) + std::is_signed<T>::value * 100, b));
}
// all texts of a length over an alphabet
static void all_texts(const string & alpha, int len) {
    string s(len, 0);
    int lead = std::min(len, 2);
    for (int i = 0; i < lead; ++i) s[i] = alpha[mc::choose((int)alpha.size())];
    std::vector<int> idx(len - lead, 0);
    for (;;) {
        for (size_t i = 0; i < idx.size(); ++i) s[lead + i] = alpha[idx[i]];
        parse_all_types(s);
        int i = (int)idx.size() - 1; while (i >= 0 && ++idx[i] == (int)alpha.size()) idx[i--] = 0;
        if (i < 0) break;
    }
    mc::state(mc::hstr(s, len));
}
static std::vector<wide> anchors() {
    std::set<string> seen; std::vector<wide> r;
    auto add = [&](wide v) { if (seen.insert(wstr(v)).second) r.push_back(v); };
    wide p = 1; for (int i = 0; i <= 20; ++i) { for (int a = 1; a <= 9; ++a) { add(p * a); add(-p * a); } p *= 10; }
    for (int b = 0; b <= 65; ++b) { add((wide)1 << b); add(-((wide)1 << b)); }
    add(0);
    return r;
}
// neighbourhoods of all powers of two and multiples of powers of ten, in and just out of range
static void around(int radius) {
    static const std::vector<wide> A = anchors();
    wide a = A[mc::choose((int)A.size())];
    for (wide v = a - radius; v <= a + radius; ++v) { print_all_types(v); string t = wstr(v); parse_all_types(t); }
    mc::state(mc::hstr(wstr(a)));
}
// digits chosen freely in the three-digit groups of 64-bit numbers
static void groups(int limit) {
    static const int g[] = {0, 1, 9, 10, 99, 100, 101, 500, 999};
    uint64 v = 0; int n = 1 + mc::choose(6); 
    for (int i = 0; i < n; ++i) v = v * 1000 + g[mc::choose(i < limit ? 9 : 3)];
    wide w = v; print_all_types(w); print_all_types(-w); print_all_types(w * 10 + 7); print_all_types((w * 100 + 42));
    mc::state(v);
}
// every single and double digit deviation of the longest texts
static void deviations(bool two) {
    static const char * base[] = {"18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "4294967295", "4294967296", "2147483647", "2147483648", "-2147483648", "-2147483649", "65535", "65536", "32767", "-32768", "255", "256", "127", "128", "-128", "-129", "00000000000000000000", "00000000000000000255", "-00000000000000000128", "99999999999999999999", "10000000000000000000", "184467440737095516150", "000000000000000000000", "-00000000000000000000"};
    static const string chars = string("0123456789-+ /:a\r\n\x80\xff") + string(1, '\0');
    string s = base[mc::choose(30)];
    int i = mc::choose((int)s.size());
    for (char c : chars) {
        string t = s; t[i] = c; parse_all_types(t);
        string u = s; u.insert(u.begin() + i, c); parse_all_types(u);
        if (two) for (size_t j = i + 1; j < s.size(); ++j) for (char e : string("059-a")) { string w = t; w[j] = e; parse_all_types(w); }
        for (char e : string("09")) { string w = t; for (size_t j = i + 1; j < s.size(); ++j) w[j] = e; parse_all_types(w); }
    }
    string d = s; d.erase(i, 1); parse_all_types(d); parse_all_types(s); parse_all_types(s + s.substr(0, i));
    mc::state(mc::hstr(s, i + 1));
}
// lengths from empty to far beyond any number
static void lengths() {
    int n = mc::choose(60); static const char lead[] = {'0', '1', '9', '-'};
    for (char c : lead) for (char f : string("0159")) { string s(n, f); if (n) s[0] = c; parse_all_types(s); if (n > 1) { s[n - 1] = '3'; parse_all_types(s); } }
    mc::state(n + 1);
}
int main(int argc, char ** argv) {
    string bytes; for (int i = 0; i < 256; ++i) bytes += (char)i;
    mc::add("all-int8", [] { all_values<int8>(2); }); mc::add("all-uint8", [] { all_values<uint8>(2); });
    mc::add("all-int16", [] { all_values<int16>(16); }); mc::add("all-uint16", [] { all_values<uint16>(16); });
    mc::add("all-int32", [] { all_values<int32>(4096); }, true, 0, 300); mc::add("all-uint32", [] { all_values<uint32>(4096); }, true, 0, 300);
    mc::add("text-1", [=] { all_texts(bytes, 1); }); mc::add("text-2", [=] { all_texts(bytes, 2); });
    mc::add("text-3-all-bytes", [=] { all_texts(bytes, 3); }, true, 0, 120);
    mc::add("text-3", [=] { all_texts(string("0123456789-+ ./:;aA\0\x7f\x80\xb0\xff", 24), 3); });
    mc::add("text-4", [=] { all_texts("0123456789-+/:a ", 4); });
    mc::add("text-5", [=] { all_texts("0123569-/:", 5); });
    mc::add("text-6", [=] { all_texts("0129-:", 6); }); mc::add("text-7", [=] { all_texts("019-/", 7); });
    mc::add("text-8", [=] { all_texts("0123456789-", 6); }, true, 0, 300);
    mc::add("around", [] { around(mc::thorough() ? 4000 : 300); }, false, 0, 120);
    mc::add("groups", [] { groups(mc::thorough() ? 6 : 4); });
    mc::add("deviations", [] { deviations(mc::thorough()); });
    mc::add("lengths", lengths);
    return mc::main_(argc, argv);
}
