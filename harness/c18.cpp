// C18: every configuration is either refused or works
#define VCLOCK_IMPL
#define ARENA_IMPL
#include "cl.h"
#include "arena.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <poll.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
using namespace cl;
using cache::Cache; using cache::seconds;

// ---- memory of the process: requests for more than `heap_limit` at once fail, as on a machine of that size
extern "C" { void * __libc_malloc(size_t); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); }
static size_t heap_limit = (size_t)600 << 20; static bool heap_refused = false;
static inline bool too_much(size_t n) { if (n <= heap_limit) return false; heap_refused = true; errno = ENOMEM; return true; }
extern "C" void * malloc(size_t n) noexcept { return too_much(n) ? nullptr : __libc_malloc(n); }
extern "C" void * calloc(size_t a, size_t b) noexcept { size_t n; if (__builtin_mul_overflow(a, b, &n) || too_much(n)) return nullptr; return __libc_calloc(a, b); }
extern "C" void * realloc(void * p, size_t n) noexcept { return too_much(n) ? nullptr : __libc_realloc(p, n); }

static const size_t K1 = 1024, M1 = K1 * 1024, G1 = M1 * 1024, T1 = G1 * 1024;
static const size_t ARENA_MAX = 64 * G1;
static bool pow2(size_t n) { return n && !(n & (n - 1)); }
static string sz(size_t n) { if (n >= G1 && n % G1 == 0) return std::to_string(n / G1) + "G"; if (n >= M1 && n % M1 == 0) return std::to_string(n / M1) + "M"; return std::to_string(n); }
static slice S(const string & s) { return slice(s.data(), s.size()); }
struct Cfg { size_t mem, page, dict; bool ev; };
static const char * bad(const Cfg & c) {
    if (c.mem == 0) return "no memory"; if (!pow2(c.mem)) return "memory limit is not a power of 2";
    if (c.page == 0) return "no page size"; if (!pow2(c.page)) return "page size is not a power of 2"; if (c.page < 256) return "page is too small"; if (c.page > 2 * G1) return "page is too big";
    if (c.mem / c.page < 4) return "less than four pages";
    if (c.dict == 0) return "no index"; if (!pow2(c.dict)) return "index size is not a power of 2";
    return nullptr;
}
static void release_unused() { auto & r = arena::regions(); for (size_t i = 0; i < r.size();) if (!r[i].live && r[i].size > 4 * M1) { munmap(r[i].map, r[i].map_size); r.erase(r.begin() + i); } else ++i; }
static std::unique_ptr<Cache> make(const Cfg & c, string & err) {
    release_unused(); arena::fill_byte = -1; arena::max_size = ARENA_MAX; heap_refused = false; std::unique_ptr<Cache> r; err.clear();
    mc::note("  Create(%s, %s, %zu, %d)", sz(c.mem).c_str(), sz(c.page).c_str(), c.dict, c.ev);
    try { r.reset(new Cache(Cache::Create(c.mem, c.page, c.dict, c.ev))); } catch (const std::exception & e) { err = e.what(); }
    mc::step(); return r;
}
// items are marked at both ends only, so that huge ones do not use up real memory
struct Big {
    Cache * c; cache::HashFunction hf; std::map<string, size_t> m; size_t page; uint64 evicted = 0; bool ev;
    explicit Big(Cache * c_, size_t page_, bool ev_) : c(c_), page(page_), ev(ev_) { hook(); }
    void hook() { c->on_eviction = [this](cache::ConstItemPtr i) { ++evicted; if (!ev) mc::fail("eviction although evictions are disabled"); string k = i->key().str(); if (!m.count(k)) mc::fail("'%s' is evicted but not stored", show(k).c_str()); look(k, i); m.erase(k); }; }
    ~Big() { if (c) c->on_eviction = nullptr; }
    static unsigned char mark(const string & k, size_t i) { return (unsigned char)(mc::hstr(k) >> (i % 8 * 8)) + (unsigned char)(i * 31); }
    static uint16 fl(const string & k) { return (uint16)mc::hstr(k); }
    template <class F> static void places(size_t n, F f) { for (size_t i = 0; i < n && i < 16; ++i) f(i); for (size_t i = n > 32 ? n - 16 : 16; i < n; ++i) f(i); if (n > 4096) f(n / 2); }
    void look(const string & k, cache::ConstItemPtr i) {
        size_t n = m[k]; if (i->key() != S(k)) mc::fail("key of '%s' is damaged", show(k).c_str()); if (i->value().length() != n) mc::fail("value of '%s' has %zu bytes, %zu were stored", show(k).c_str(), i->value().length(), n); if (i->opaque_flags() != fl(k)) mc::fail("flags of '%s' are damaged", show(k).c_str());
        const char * v = i->value().begin(); places(n, [&](size_t p) { if ((unsigned char)v[p] != mark(k, p)) mc::fail("byte %zu of the value of '%s' is damaged", p, show(k).c_str()); });
    }
    bool set(const string & k, size_t n) {
        mc::step();
        try {
            auto it = c->create_item(S(k), hf(S(k)), n, fl(k), seconds(0)); auto r = arena::find_live(); const char * v = it->value().begin();
            if (r && arena::live_count() == 1) { if (v < r->base || v + n > r->base + r->size) mc::fail("value of '%s' lies outside of the memory of the cache", show(k).c_str()); if ((v - r->base) / page != (v + (n ? n - 1 : 0) - r->base) / page) mc::fail("item crosses a page boundary"); }
            places(n, [&](size_t p) { const_cast<char *>(v)[p] = (char)mark(k, p); });
            c->do_set(it); m[k] = n; return true;
        } catch (const system_error & e) { int r = classify(e); if (r != ERR_OOM) mc::fail("store of '%s' with %zu bytes: %s", show(k).c_str(), n, rname(r)); if (ev) mc::fail("store of an item that fits fails for lack of memory with evictions enabled"); }
        catch (const std::exception & e) { mc::fail("store of '%s' with %zu bytes: exception %s", show(k).c_str(), n, e.what()); }
        return false;
    }
    void del(const string & k) { bool r = c->do_delete(S(k), hf(S(k))); mc::step(); if (r != (m.count(k) > 0)) mc::fail("delete of '%s' returned %d", show(k).c_str(), r); m.erase(k); }
    void get(const string & k) { auto i = c->do_get(S(k), hf(S(k))); mc::step(); if (!i) mc::fail("item '%s' is lost", show(k).c_str()); look(k, i); }
    void all() { for (auto & x : m) get(x.first); if (c->do_get(S("missing"), hf(S("missing")))) mc::fail("a key never stored is found"); }
    size_t max_value(const string & k) const { return page - memalloc::header_size() - sizeof(cache::Item) - k.size(); }
    size_t fill_max(size_t limit, const char * prefix = "max") { size_t n = 0; for (; n < limit; ++n) { string k = prefix + std::to_string(n); if (!set(k, max_value(k))) break; } return n; }
    void clear() { std::vector<string> ks; for (auto & x : m) ks.push_back(x.first); for (auto & k : ks) del(k); }
};
// a cache of that configuration is usable everywhere
static void exercise(const Cfg & cf, Cache * c, size_t max_items) {
    size_t pages = cf.mem / cf.page; Big b(c, cf.page, cf.ev);
    // every page takes one item of the maximum size
    size_t np = std::min(pages, max_items);
    if (!cf.ev) { size_t n = b.fill_max(np + 1); if (n != (pages <= max_items ? pages : np + 1)) mc::fail("%zu items of the maximum size fit into %zu pages", n, pages); }
    else { size_t n = b.fill_max(np); if (n != np || b.m.size() != np) mc::fail("%zu items of the maximum size are stored, %zu pages", b.m.size(), pages); b.fill_max(3, "more"); }
    b.all();
    std::vector<string> ks; for (auto & x : b.m) ks.push_back(x.first); for (size_t i = 0; i < ks.size(); i += 2) b.del(ks[i]); b.all();
    // small items, so many that the index must grow, and of mixed sizes
    size_t want = std::min(max_items, std::min<size_t>(cf.dict * 3 + 20, 3000)), stored = 0;
    for (size_t i = 0; i < want; ++i) { string k = "s" + std::to_string(i); size_t n = i % 7 == 6 ? b.max_value(k) / 3 : i % 5 * 11; if (!b.set(k, n)) break; ++stored; }
    if (!stored) mc::fail("no small item is stored"); b.all();
    b.clear(); b.all();
    if (!cf.ev) { size_t n = b.fill_max(np + 1, "again"); if (n != (pages <= max_items ? pages : np + 1)) mc::fail("%zu items of the maximum size fit into the emptied memory of %zu pages", n, pages); b.all(); b.clear(); }
    // many tiny items
    size_t tiny = 0; for (; tiny < max_items * 2; ++tiny) { string k = "t" + std::to_string(tiny); if (!b.set(k, 1)) break; } b.all();
    if (cf.mem >= tiny * 4096 && tiny < max_items * 2) mc::fail("only %zu items of one byte fit into %s", tiny, sz(cf.mem).c_str());
    mc::state(mc::hcombine(mc::hcombine(cf.mem, cf.page), mc::hcombine(cf.dict * 2 + cf.ev, b.m.size())));
}
static void try_config(const Cfg & cf, size_t max_items) {
    string err; const char * why = bad(cf); auto c = make(cf, err);
    if (why) { if (c) mc::fail("a cache of %s with pages of %s and index %zu is created although: %s", sz(cf.mem).c_str(), sz(cf.page).c_str(), cf.dict, why); if (err.empty()) mc::fail("refused without a description"); mc::state(mc::hstr(why)); }
    else if (!c) { if (!heap_refused && cf.mem <= ARENA_MAX && cf.dict <= ((size_t)1 << 24)) mc::fail("a valid configuration (%s, pages of %s, index %zu) is refused: %s", sz(cf.mem).c_str(), sz(cf.page).c_str(), cf.dict, err.c_str()); mc::state(mc::hstr("too much")); }
    else { exercise(cf, c.get(), max_items); c.reset(); }
    if (arena::live_count()) mc::fail("memory of the cache is not released");
    // what happened before does not matter to the next cache
    string e2; Cfg ok{16 * K1, K1, 4, false}; auto d = make(ok, e2); if (!d) mc::fail("an ordinary cache cannot be created afterwards: %s", e2.c_str());
    { Big b(d.get(), K1, false); if (b.fill_max(17) != 16) mc::fail("ordinary cache created afterwards is not usable"); b.all(); }
}
static std::vector<size_t> around(std::initializer_list<size_t> x) { std::set<size_t> r; for (size_t v : x) { r.insert(v); r.insert(v - 1); r.insert(v + 1); } return std::vector<size_t>(r.begin(), r.end()); }
// refusals and small valid ones: everything against everything
static void grid() {
    static const std::vector<size_t> mems = [] { auto r = around({0, 256, 512, 1024, 2048, 4096, 16 * K1, 64 * K1, M1, 4 * M1, G1, 4 * G1}); for (size_t x : {(size_t)1000, 3 * K1, 5 * K1, 768 * K1, 3 * M1, 6 * G1, 8 * G1, T1, (size_t)1 << 62, (size_t)1 << 63, (size_t)3 << 62, ~(size_t)1023}) r.push_back(x); return r; }();
    static const std::vector<size_t> pgs = [] { auto r = around({0, 64, 128, 256, 512, 1024, 4096, M1, G1, 2 * G1, 4 * G1}); for (size_t x : {(size_t)2, (size_t)4, (size_t)8, (size_t)16, (size_t)32, (size_t)100, (size_t)192, (size_t)384, (size_t)1000, (size_t)3000, 3 * K1, 64 * K1, 96 * K1, 3 * M1, 4 * G1 + 256, 4 * G1 + 1024, 8 * G1, (size_t)1 << 40, (size_t)1 << 61, (size_t)1 << 62, (size_t)1 << 63, (size_t)3 << 61}) r.push_back(x); return r; }();
    static const std::vector<size_t> dicts = [] { auto r = around({2, 16, 4096, 65536}); for (size_t x : {(size_t)0, (size_t)4, (size_t)6, (size_t)12, (size_t)100, (size_t)1000, (size_t)1 << 20, (size_t)3 << 20, (size_t)1 << 28, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 16, (size_t)1 << 40, (size_t)1 << 58, (size_t)1 << 60, (size_t)1 << 61, (size_t)1 << 62, (size_t)1 << 63, (size_t)3 << 62}) r.push_back(x); return r; }();
    Cfg c; c.mem = mc::pick(mems); c.page = mc::pick(pgs); c.dict = mc::pick(dicts); c.ev = mc::flip();
    // large metadata makes a valid one slow: covered by `large` instead
    if (!bad(c) && c.mem / c.page > 65536 && c.mem <= ARENA_MAX) throw mc::Prune();
    if (!bad(c) && c.dict > 65536 && c.mem > M1) throw mc::Prune();
    try_config(c, c.dict > 4096 ? 40 : 120);
}
// every valid power of two in range
static void powers() {
    Cfg c; int p = 8 + mc::choose(mc::thorough() ? 15 : 13); int n = 2 + mc::choose(mc::thorough() ? 11 : 8); int d = mc::choose(mc::thorough() ? 15 : 13);
    c.page = (size_t)1 << p; c.mem = c.page << n; c.dict = (size_t)1 << d; c.ev = mc::flip();
    try_config(c, mc::thorough() ? 5000 : 600);
}
// memory beyond the range of 32-bit numbers
static void large() {
    static const struct { size_t mem, page; } L[] = {{4 * G1, G1}, {8 * G1, 2 * G1}, {8 * G1, G1}, {8 * G1, 64 * M1}, {8 * G1, 4 * M1}, {16 * G1, 2 * G1}, {16 * G1, M1 * 16}, {64 * G1, 256 * M1}, {64 * G1, 2 * G1}, {2 * G1, 512 * M1}, {2 * G1, M1}, {4 * G1, M1}};
    auto & l = L[mc::choose(sizeof L / sizeof L[0])]; static const size_t dicts[] = {1, 16, 65536}; Cfg c{l.mem, l.page, mc::pick(dicts), false}; c.ev = mc::flip();
    try_config(c, 20000);
}
// items of the three kinds in every order while the first half of the memory is taken, then holes are reused
static void mixed_large(int depth) {
    static const struct { size_t mem, page; } L[] = {{8 * G1, G1}, {8 * G1, 2 * G1}, {16 * G1, 2 * G1}, {1 * M1, 256 * K1}, {4096, 1024}};
    auto & l = L[mc::choose(sizeof L / sizeof L[0])]; Cfg cf{l.mem, l.page, 4, mc::flip()}; string err; auto c = make(cf, err); if (!c) mc::fail("refused: %s", err.c_str());
    { Big b(c.get(), cf.page, cf.ev); size_t half = cf.mem / cf.page / 2; bool taken = mc::flip(); if (taken) b.fill_max(half);
      for (int i = 0; i < depth; ++i) {
          int op = mc::choose(6); string k = "k" + std::to_string(i); size_t mx = b.max_value(k);
          switch (op) { case 0: b.set(k, mx); break; case 1: b.set(k, mx / 2); break; case 2: b.set(k, 5); break; case 3: b.set(k, mx - 100); break; case 4: if (b.m.empty()) throw mc::Prune(); b.del(b.m.begin()->first); break; case 5: if (b.m.size() < 2) throw mc::Prune(); b.del(b.m.rbegin()->first); break; }
          b.all();
      }
      mc::state(mc::hcombine(mc::hcombine(cf.mem, cf.page), b.m.size())); for (auto & x : b.m) mc::state(mc::hcombine(mc::hstr(x.first), x.second)); b.clear();
      size_t n = b.fill_max(cf.mem / cf.page); if (n != cf.mem / cf.page || b.m.size() != n) mc::fail("%zu items of the maximum size fit into %zu emptied pages", b.m.size(), cf.mem / cf.page); b.all(); }
    c.reset(); if (arena::live_count()) mc::fail("memory of the cache is not released");
}
// index sizes: the index starts from any power of two and grows
static void index_sizes() {
    int d = mc::choose(mc::thorough() ? 25 : 23); static const int parts[] = {0, 50, 92, 93, 94, 100, 130, 250}; int part = mc::pick(parts); bool ev = mc::flip();
    size_t dict = (size_t)1 << d; size_t n = d > 18 ? 300 : dict * part / 100 + (part ? 1 : 0); Cfg cf{64 * M1, M1, dict, ev}; if (d > 18 && part > 50) throw mc::Prune(); if (d > 14 && part != 130 && part != 94) throw mc::Prune(); if (d > 16 && !mc::thorough() && d <= 18) throw mc::Prune();
    string err; auto c = make(cf, err); if (!c) mc::fail("index of %zu is refused: %s", dict, err.c_str());
    { Big b(c.get(), cf.page, ev); for (size_t i = 0; i < n; ++i) if (!b.set("i" + std::to_string(i), 3)) mc::fail("item %zu is refused", i); if (b.m.size() != n) mc::fail("%zu of %zu items are stored", b.m.size(), n); b.all(); for (size_t i = 0; i < n; i += 2) b.del("i" + std::to_string(i)); b.all(); b.clear(); }
    mc::state(mc::hcombine(dict, n));
}
// the cache object is moved (that is how Create returns it) at any point of a history
static void moved() {
    static const struct { size_t mem, page; } L[] = {{4096, 1024}, {64 * K1, 4096}}; auto & l = L[mc::choose(2)]; static const size_t dicts[] = {1, 4, 64}; Cfg cf{l.mem, l.page, mc::pick(dicts), mc::flip()};
    int before = mc::choose(40), times = 1 + mc::choose(2), after = mc::choose(3), keep = mc::choose(2);
    string err; auto c = make(cf, err); if (!c) mc::fail("refused: %s", err.c_str());
    { Big b(c.get(), cf.page, cf.ev); std::vector<std::unique_ptr<Cache>> old;
      auto put = [&](int i) { b.set("m" + std::to_string(i), i % 4 * 20); if (i % 3 == 2) b.del("m" + std::to_string(i / 2)); };
      for (int i = 0; i < before; ++i) put(i);
      for (int t = 0; t < times; ++t) { std::unique_ptr<Cache> d(new Cache(std::move(*c))); if (keep) old.push_back(std::move(c)); c = std::move(d); b.c = c.get(); b.hook(); b.all(); for (int i = 0; i < after * 15; ++i) put(before + t * 40 + i); b.all(); }
      old.clear(); b.all(); for (int i = 0; i < 10; ++i) put(200 + i); b.all(); b.clear(); if (!cf.ev) { size_t n = b.fill_max(100); if (n != cf.mem / cf.page) mc::fail("%zu items of the maximum size fit after the cache was moved", n); } }
    c.reset(); if (arena::live_count()) mc::fail("memory of the cache is not released");
    mc::state(mc::hcombine(before * 100 + times * 10 + after, cf.mem + cf.dict));
}
// ---- the server program started with command lines
struct Proc {
    pid_t pid = -1; string sock, errf; int fd = -1;
    Proc(const std::vector<string> & args) {
        string dir = getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "."; char tmp[] = "/tmp/c18XXXXXX"; if (!mkdtemp(tmp)) mc::fail("no scratch directory"); sock = string(tmp) + "/s"; errf = string(tmp) + "/e";
        string exe = dir + "/cachelotd"; std::vector<string> a{exe, "-p", "0", "-U", "0", "-s", sock}; a.insert(a.end(), args.begin(), args.end());
        std::vector<char *> v; for (auto & x : a) v.push_back((char *)x.c_str()); v.push_back(nullptr); const char * ef = errf.c_str();
        pid = fork(); if (pid == 0) { int e = open(ef, O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(e, 1); dup2(e, 2); for (int i = 3; i < 64; ++i) close(i); execv(v[0], v.data()); _exit(99); }
    }
    string err() { FILE * f = fopen(errf.c_str(), "r"); string r; char b[512]; size_t n; if (f) { while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); } return r; }
    // true: serves; false: ended, status in st
    bool wait_ready(int & st) {
        struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, sock.c_str());
        for (int i = 0;; ++i) {
            if (waitpid(pid, &st, WNOHANG) == pid) { pid = -1; return false; }
            fd = socket(AF_UNIX, SOCK_STREAM, 0); if (connect(fd, (struct sockaddr *)&a, sizeof a) == 0) return true; close(fd); fd = -1;
            usleep(i < 50 ? 2000 : 20000); mc::step(); if (i > 2500) mc::fail("the server neither ends nor accepts connections");
        }
    }
    string talk(const string & q, const string & end) {
        size_t at = 0; while (at < q.size()) { ssize_t n = send(fd, q.data() + at, q.size() - at, MSG_NOSIGNAL); if (n <= 0) mc::fail("connection is lost"); at += n; }
        string r; char b[65536]; while (r.size() < end.size() || r.compare(r.size() - end.size(), end.size(), end) != 0) { struct pollfd p{fd, POLLIN, 0}; if (poll(&p, 1, 20000) <= 0) mc::fail("no reply to '%s': '%s'", show(q).c_str(), show(r).c_str()); ssize_t n = read(fd, b, sizeof b); if (n <= 0) mc::fail("connection is lost after '%s'", show(q).c_str()); r.append(b, n); if (r.size() > 4 && r.compare(0, 4, "SERV") == 0 && r.find("\r\n") != string::npos) break; }
        mc::step(); return r;
    }
    int stop() { kill(pid, SIGTERM); int st = 0; for (int i = 0; i < 2500; ++i) { if (waitpid(pid, &st, WNOHANG) == pid) { pid = -1; return st; } usleep(i < 50 ? 1000 : 10000); mc::step(); } mc::fail("the server does not end on SIGTERM"); }
    ~Proc() { if (fd >= 0) close(fd); if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } unlink(sock.c_str()); unlink(errf.c_str()); string d = sock.substr(0, sock.size() - 2); rmdir(d.c_str()); }
};
static void program() {
    struct V { const char * s; long long n; };   // n: amount, 0: refused, -1: not given
    static const V mem[] = {{"", -1}, {"64", (long long)(64 * M1)}, {"64M", (long long)(64 * M1)}, {"1024K", (long long)M1}, {"4096K", (long long)(4 * M1)}, {"1G", (long long)G1}, {"8G", (long long)(8 * G1)}, {"3M", 0}, {"0", 0}, {"abc", 0}, {"M", 0}, {"12Q", 0}, {"65K", 0}, {"1K", (long long)K1}, {"17592186044420", 0}, {"17179869188G", 0}, {"18446744073709551616", 0}};
    static const V page[] = {{"", -1}, {"1", (long long)M1}, {"4K", (long long)(4 * K1)}, {"1K", (long long)K1}, {"64K", (long long)(64 * K1)}, {"2G", (long long)(2 * G1)}, {"4G", 0}, {"0K", 0}, {"3K", 0}, {"x", 0}};
    static const V hash[] = {{"", -1}, {"1", 1}, {"1024", 1024}, {"0", 0}, {"3", 0}, {"y", 0}};
    const V & m = mc::pick(mem); const V & p = mc::pick(page); const V & h = mc::pick(hash); bool oom = mc::flip();
    if (!mc::thorough() && (h.n == 0 || oom) && !(m.n == -1 || m.n == (long long)M1 || m.n == 0)) throw mc::Prune();
    std::vector<string> a; if (m.n != -1) { a.push_back("-m"); a.push_back(m.s); } if (p.n != -1) { a.push_back("-P"); a.push_back(p.s); } if (h.n != -1) { a.push_back("-H"); a.push_back(h.s); } if (oom) a.push_back("-M");
    Cfg cf{m.n == -1 ? 64 * M1 : (size_t)m.n, p.n == -1 ? M1 : (size_t)p.n, h.n == -1 ? 65536 : (size_t)h.n, !oom}; const char * why = m.n == 0 || p.n == 0 || h.n == 0 ? "bad argument" : bad(cf);
    if (!why && cf.mem / cf.page > 65536) throw mc::Prune();    // touches all of the memory of this machine
    string line; for (auto & x : a) line += " " + x; mc::note("  cachelotd%s", line.c_str());
    Proc s(a); int st = 0; bool up = s.wait_ready(st);
    if (why) { if (up) mc::fail("server started with '%s' works although: %s", line.c_str(), why); if (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 99) mc::fail("server started with '%s' ends with status %x instead of an error", line.c_str(), st); if (s.err().size() < 4) mc::fail("server started with '%s' ends without an error message", line.c_str()); mc::state(mc::hstr(why)); return; }
    if (!up) mc::fail("server started with '%s' is refused: %s", line.c_str(), show(s.err(), 80).c_str());
    string r = s.talk("stats\r\n", "END\r\n");
    if (r.find("STAT limit_maxbytes " + std::to_string(cf.mem) + "\r\n") == string::npos) mc::fail("stats do not report the memory limit %zu: %s", cf.mem, show(r, 200).c_str());
    if (s.talk("set a 5 0 3\r\nabc\r\n", "\r\n") != "STORED\r\n" || s.talk("get a\r\n", "END\r\n") != "VALUE a 5 3\r\nabc\r\nEND\r\n") mc::fail("the server does not store an item");
    // the biggest item depends on the page
    size_t mx = cf.page - memalloc::header_size() - sizeof(cache::Item) - 3; bool huge = cf.page > 4 * M1;
    if (!huge) {
        auto put = [&](const string & k, size_t n) { return s.talk("set " + k + " 0 0 " + std::to_string(n) + "\r\n" + string(n, 'v') + "\r\n", "\r\n"); };
        string g = put("big", mx); if (g != "STORED\r\n") mc::fail("an item of %zu bytes is not stored with pages of %zu: %s", mx, cf.page, show(g).c_str());
        string e = put("bog", mx + 1); if (e.compare(0, 7, "SERVER_") != 0) mc::fail("an item bigger than the page is answered '%s'", show(e).c_str());
        // memory: one page is in use by `a`; with evictions everything goes on, without there is an end
        if (cf.mem <= 8 * M1) { size_t stored = 0, pages = cf.mem / cf.page; size_t lim = std::min<size_t>(pages + 2, 300); for (size_t i = 0; i < lim; ++i) { string x = "p" + std::to_string(i % 10) + (char)('a' + i / 10); size_t n = cf.page - memalloc::header_size() - sizeof(cache::Item) - x.size(); string q = put(x, n); if (q == "STORED\r\n") ++stored; else { if (!oom) mc::fail("store fails with '%s' although evictions are enabled", show(q).c_str()); break; } }
            if (oom && pages < lim && stored != pages - 2) mc::fail("%zu items of the maximum size fit next to two items in %zu pages", stored, pages); if (s.talk("get big\r\n", "END\r\n").size() < 20 && oom) mc::fail("item is lost without evictions"); }
    }
    close(s.fd); s.fd = -1; st = s.stop(); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) mc::fail("server ends with status %x on SIGTERM", st);
    mc::state(mc::hcombine(mc::hcombine(cf.mem, cf.page), cf.dict * 2 + cf.ev));
}
int main(int argc, char ** argv) {
    mc::add("grid", grid, false, 2, 60);
    mc::add("powers", powers, false, 2, 60);
    mc::add("large", large, false, 2, 120);
    mc::add("mixed-3", [] { mixed_large(3); }, false, 2, 60);
    mc::add("mixed-5", [] { mixed_large(5); }, true, 2, 60);
    mc::add("index-sizes", index_sizes, false, 2, 120);
    mc::add("moved", moved, false, 2);
    mc::add("program", program, false, 2, 120);
    return mc::main_(argc, argv);
}
