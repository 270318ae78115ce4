// C19: I/O buffers deliver bytes once, in order, within their limit
#include "mc.h"
#define FENCE_IMPL
#include "fence.h"
#include <cachelot/common.h>
#include <server/io_buffer.h>
#include <string>
#include <memory>
using namespace cachelot; using std::string;

struct Buf {
    std::unique_ptr<io_buffer> b; size_t max; string data; size_t r = 0; unsigned seq = 0;   // data = everything since the last compaction
    bool has_rs = false, has_ws = false; io_buffer::read_savepoint_type rs; io_buffer::write_savepoint_type ws; size_t rs_m = 0, ws_m = 0;
    Buf(size_t initial, size_t max_) : max(max_) { b.reset(new io_buffer(initial, max)); check("construction"); }
    void check(const char * what) {
        mc::step();
        if (b->capacity() > max) mc::fail("%s: capacity is %zu, maximum is %zu", what, b->capacity(), max);
        if (b->non_read() != data.size() - r) mc::fail("%s: %zu bytes to read, expected %zu", what, b->non_read(), data.size() - r);
        if (b->non_read() && memcmp(b->begin_read(), data.data() + r, data.size() - r) != 0) mc::fail("%s: unread bytes differ", what);
        if (b->size() + b->available() != b->capacity()) mc::fail("%s: size %zu + available %zu != capacity %zu", what, b->size(), b->available(), b->capacity());
        if (fence::max_block > max) mc::fail("%s: %zu bytes were allocated, maximum is %zu", what, (size_t)fence::max_block, max);
        if (fence::live > 1) mc::fail("%s: %zu blocks are allocated", what, (size_t)fence::live);
    }
    // text with terminators in it: \r, \n, \r\n and lookalikes
    string pattern(size_t n, int kind) {
        string s(n, 0);
        for (size_t i = 0; i < n; ++i) { unsigned x = seq++; s[i] = kind == 0 ? (char)('a' + x % 23) : kind == 1 ? (x % 3 == 0 ? '\r' : x % 3 == 1 ? '\r' : '\n') : (char)x; }
        return s;
    }
    bool write_text(size_t at_least, const string & s) {
        const size_t room = max - b->size(); bool thrown = false; char * p = nullptr;
        try { p = b->begin_write(at_least); } catch (const std::exception &) { thrown = true; }
        mc::note("  begin_write(%zu) -> %s", at_least, thrown ? "refused" : "ok");
        if (at_least > room) { if (!thrown) mc::fail("begin_write(%zu) succeeded with at most %zu bytes left", at_least, room); check("refused write"); return false; }
        if (thrown) mc::fail("begin_write(%zu) refused although %zu bytes are left", at_least, room);
        if (b->available() < at_least) mc::fail("begin_write(%zu): only %zu bytes available", at_least, b->available());
        check("begin_write");
        memset(p, '?', at_least); memset(p, '!', b->available());                  // all of it is writable
        size_t n = std::min(s.size(), b->available()); memcpy(p, s.data(), n); b->confirm_write(n); data.append(s, 0, n);
        check("confirm_write"); return true;
    }
    void write(size_t at_least, size_t n, int kind) { string s = pattern(std::min(n, at_least < 100000 ? at_least : 0), kind); write_text(at_least, s); }
    void read(size_t n) {
        n = std::min(n, b->non_read()); slice s = b->confirm_read(n); mc::note("  confirm_read(%zu)", n);
        if (s.length() != n || (n && memcmp(s.begin(), data.data() + r, n))) mc::fail("confirm_read(%zu) returned other bytes", n);
        r += n; check("confirm_read");
    }
    void read_all() { slice s = b->read_all(); mc::note("  read_all -> %zu", s.length()); if (s.length() != data.size() - r || (s.length() && memcmp(s.begin(), data.data() + r, s.length()))) mc::fail("read_all returned %zu bytes, expected %zu", s.length(), data.size() - r); r = data.size(); check("read_all"); }
    void until(const string & t) {
        slice s = b->try_read_until(slice(t.data(), t.size())); size_t at = data.find(t, r); mc::note("  try_read_until -> %zu bytes", s.length());
        size_t n = at == string::npos ? 0 : at + t.size() - r;
        if (s.length() != n) mc::fail("try_read_until returned %zu bytes, expected %zu", s.length(), n);
        if (n && memcmp(s.begin(), data.data() + r, n)) mc::fail("try_read_until returned other bytes");
        r += n; check("try_read_until");
    }
    void save_r() { rs = b->read_savepoint(); rs_m = r; has_rs = true; mc::note("  read_savepoint"); check("read_savepoint"); }
    void save_w() { ws = b->write_savepoint(); ws_m = data.size(); has_ws = true; mc::note("  write_savepoint"); check("write_savepoint"); }
    void back_r() { if (!has_rs || rs_m > r) return; b->rollback_read_transaction(rs); r = rs_m; mc::note("  rollback_read"); check("rollback_read"); }
    void back_w() { if (!has_ws || ws_m > data.size() || ws_m < r) return; b->rollback_write_transaction(ws); data.resize(ws_m); mc::note("  rollback_write"); check("rollback_write"); }
    void compact() { b->compact(); data.erase(0, r); r = 0; has_rs = has_ws = false; mc::note("  compact"); if (b->size() != data.size()) mc::fail("compact left %zu bytes in the buffer, %zu are unread", b->size(), data.size()); check("compact"); }
    void reset() { b->reset(); data.clear(); r = 0; has_rs = has_ws = false; mc::note("  reset"); if (b->size() != 0) mc::fail("reset left %zu bytes", b->size()); check("reset"); }
    void record() { mc::state(mc::hcombine(mc::hcombine(data.size() * 8192 + r, b->capacity()), mc::hcombine(has_rs ? rs_m + 1 : 0, has_ws ? ws_m + 1 : 0))); }
    void end() { while (b->non_read()) read(97); b.reset(); if (fence::live) mc::fail("memory of the buffer is leaked"); }
};
static void sequences(size_t initial, size_t max, int depth, bool wide) {
    fence::setup(65536, 4);
    if (initial > max) { bool thrown = false; try { io_buffer x(initial, max); } catch (const std::exception &) { thrown = true; } if (!thrown) mc::fail("initial size beyond the maximum is accepted"); return; }
    Buf u(initial, max);
    const size_t asks[] = {1, 10, 499, 501, max / 2 + 1, max, max + 1, ~(size_t)0};
    for (int d = 0; d < depth; ++d) {
        const int nw = wide ? 14 : 7;
        int c = mc::choose(nw + 9);
        if (c < 7) { size_t a[] = {1, 10, 499, 501, max / 2 + 1, max, max + 1}; u.write(a[c], a[c], d % 2); }
        else if (c < nw) { c -= 7; if (c == 0) u.write(500, 0, 0); else if (c == 1) u.write(300, 7, 1); else if (c == 2) u.write(~(size_t)0, 0, 0); else if (c == 3) u.write(~(size_t)0 - 200, 0, 0); else if (c == 4) u.write(max - 1, 3, 1); else if (c == 5) u.write((size_t)1 << 32, 0, 0); else u.write(max / 3, max / 3, 2); }
        else switch (c - nw) {
            case 0: u.read(1); break; case 1: u.read(13); break; case 2: u.read_all(); break; case 3: u.until("\r\n"); break;
            case 4: u.save_r(); u.save_w(); break; case 5: u.back_r(); break; case 6: u.back_w(); break; case 7: u.compact(); break; case 8: u.reset(); break;
        }
        u.record();
    }
    u.end();
}
// any growth may find no memory: the request fails, the contents stay, later requests work
static void no_memory(size_t initial, size_t max, int depth) {
    fence::setup(65536, 4);
    Buf u(initial, max);
    for (int d = 0; d < depth; ++d) {
        const size_t a[] = {1, 10, 501, max / 2 + 1};
        int c = mc::choose(12);
        if (c < 8) {
            size_t n = a[c % 4]; bool fault = c >= 4; string s = u.pattern(n, d % 2); const size_t avail = u.b->available();
            if (!fault || avail >= n || n > max - u.b->size()) { u.write_text(n, s); }
            else { bool thrown = false; fence::fail_after = 0; try { u.b->begin_write(n); } catch (const std::exception &) { thrown = true; } fence::fail_after = -1; mc::note("  begin_write(%zu) without memory -> %s", n, thrown ? "refused" : "ok"); if (!thrown && u.b->available() < n) mc::fail("begin_write(%zu) succeeded without memory", n); u.check("write without memory"); }
        } else switch (c) { case 8: u.read(3); break; case 9: u.read_all(); break; case 10: u.compact(); break; case 11: u.until("\r\n"); break; }
        u.record();
    }
    u.end();
}
// every text of a length over a small alphabet, arriving in two pieces, searched with every short terminator
static void search(int len, int alpha) {
    fence::setup(65536, 4);
    static const char A[] = {'\r', '\n', 'x'};
    string s(len, 0); for (int i = 0; i < len; ++i) s[i] = A[mc::choose(alpha)];
    static const std::vector<string> terms{"\r\n", "\n", "\r", "\r\r\n", "\r\n\r\n", "xx", "\nx\n"};
    for (int cut = 0; cut <= len; ++cut) for (auto & t : terms) {
        Buf u(16, 600);
        if (cut) u.write_text(cut, s.substr(0, cut));
        for (int i = 0; i < 3; ++i) u.until(t);
        u.write_text(len - cut + 1, s.substr(cut));
        for (size_t i = 0; i <= s.size(); ++i) { u.until(t); }
        u.compact(); u.until(t);
        u.end();
    }
    mc::state(mc::hstr(s));
}
// a long stream pumped through the buffer with every (write size, read size, compaction period)
static void pump(size_t initial, size_t max) {
    fence::setup(65536, 4);
    static const size_t ws[] = {1, 7, 64, 125, 333, 500}; static const size_t rs_[] = {1, 5, 64, 200, 499};
    size_t w = mc::pick(ws), r = mc::pick(rs_); int per = 1 + mc::choose(5); bool line = mc::flip();
    Buf u(initial, max); size_t total = 0;
    for (int i = 0; i < 400; ++i) {
        if (u.data.size() + w <= max) { u.write(w, w, line); total += w; } else u.write(w, w, line);
        if (line) u.until("\r\n"); else u.read(r);
        if (i % per == 0) u.compact();
        if (i % 97 == 96) { u.read_all(); u.compact(); }
    }
    u.record(); u.end();
}
int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    struct C { size_t i, m; } cs[] = {{0, 600}, {16, 600}, {500, 500}, {500, 2000}, {1, 10}, {600, 1100}, {500, 100}, {1000, 40000}};
    for (auto & c : cs) {
        mc::add("seq-" + std::to_string(c.i) + "-" + std::to_string(c.m), [=] { sequences(c.i, c.m, th ? 6 : 5, false); });
        mc::add("seq-wide-" + std::to_string(c.i) + "-" + std::to_string(c.m), [=] { sequences(c.i, c.m, th ? 5 : 4, true); });
        if (c.i <= c.m) mc::add("pump-" + std::to_string(c.i) + "-" + std::to_string(c.m), [=] { pump(c.i, c.m); });
    }
    mc::add("no-memory-0", [=] { no_memory(0, 3000, th ? 6 : 5); }); mc::add("no-memory-500", [=] { no_memory(500, 2000, th ? 6 : 5); });
    for (int n = 0; n <= (th ? 10 : 8); ++n) mc::add("search-" + std::to_string(n), [=] { search(n, 3); });
    return mc::main_(argc, argv);
}
