// C04: the allocator never hands out overlapping or misplaced memory
#define ARENA_IMPL
#include "arena.h"
#include "mc.h"
#include <cachelot/common.h>
#include <cachelot/memalloc.h>
#include <memory>
using namespace cachelot;
using std::string;

struct Blk { uint8 * p; size_t size; unsigned seed; };
static inline uint8 pat(unsigned seed, size_t i) { return (uint8)(seed * 37 + i * 11 + (i >> 8) * 3 + 1); }
// patterns of small blocks are precomputed; all different for 256 consecutive seeds
static const uint8 * pattern(unsigned seed) { static uint8 t[256][8192]; static bool init = false; if (!init) { init = true; for (unsigned s = 0; s < 256; ++s) for (size_t i = 0; i < 8192; ++i) t[s][i] = pat(s, i); } return t[seed & 255]; }

struct Sut {
    size_t pages, page; std::unique_ptr<memalloc> a; std::vector<Blk> live; unsigned seed = 1;
    char * base; size_t arena_size; bool big;
    size_t maxsz() const { return page - memalloc::header_size(); }
    Sut(size_t pages_, size_t page_, int fillb) : pages(pages_), page(page_) {
        arena::fill_byte = fillb;
        a.reset(new memalloc(pages * page, (uint32)page));
        auto r = arena::find_live(); base = r ? r->base : nullptr; arena_size = pages * page; big = page > 8192;
    }
    // large blocks are filled and compared at their edges and at a stride
    template <class F> void each(size_t n, F f) const { if (n <= 8192) { for (size_t i = 0; i < n; ++i) f(i); } else { for (size_t i = 0; i < 128; ++i) { f(i); f(n - 1 - i); } for (size_t i = 128; i < n - 128; i += 509) f(i); } }
    void fillb(Blk & b) { if (b.size <= 8192) memcpy(b.p, pattern(b.seed), b.size); else each(b.size, [&](size_t i) { b.p[i] = pat(b.seed, i); }); }
    bool intact(const Blk & b, size_t n) const { if (b.size <= 8192) return memcmp(b.p, pattern(b.seed), n) == 0; bool ok = true; each(b.size, [&](size_t i) { if (i < n && b.p[i] != pat(b.seed, i)) ok = false; }); return ok; }
    void placed(const char * op, uint8 * p, size_t n) {
        MC_CHECK(((uintptr_t)p % sizeof(void *)) == 0, "%s(%zu): address %p is not aligned", op, n, (void *)p);
        if (base) {
            MC_CHECK((char *)p >= base && (char *)p + n <= base + arena_size, "%s(%zu): block at offset %td leaves the arena", op, n, (char *)p - base);
            MC_CHECK(((char *)p - base) / page == ((char *)p + n - 1 - base) / page, "%s(%zu): block at offset %td crosses a page boundary", op, n, (char *)p - base);
        }
        for (auto & b : live) if (b.p != p || true) MC_CHECK(p + n <= b.p || b.p + b.size <= p, "%s(%zu): block %p overlaps live block %p(%zu)", op, n, (void *)p, (void *)b.p, b.size);
        MC_CHECK(a->reveal_actual_size(p) >= n, "%s(%zu): actual size is only %zu", op, n, a->reveal_actual_size(p));
    }
    void check_all(const char * op) { for (auto & b : live) MC_CHECK(intact(b, b.size), "%s changed the contents of live block %p(%zu)", op, (void *)b.p, b.size); }
    long off(const void * p) const { return base ? (long)((char *)p - base) : 0; }
    // a page with no live block at all (the whole page is available as one block)
    bool free_page() const { if (!base) return live.empty(); uint64 used[4] = {0, 0, 0, 0}; if (pages > 256) return live.empty(); for (auto & b : live) { size_t p = ((char *)b.p - base) / page; used[p / 64] |= 1ull << p % 64; } for (size_t p = 0; p < pages; ++p) if (!(used[p / 64] >> p % 64 & 1)) return true; return false; }
    bool alloc(size_t n, bool evict) {
        mc::step();
        const bool room = free_page();
        auto cb = [&](void * p) {
            MC_CHECK(!room, "alloc_or_evict(%zu) evicts although a whole page is free", n);
            MC_CHECK(evict, "block evicted although eviction was not allowed");
            size_t i = 0; while (i < live.size() && live[i].p != p) ++i;
            MC_CHECK(i < live.size(), "eviction reported for %p which is not a live block (or was reported before)", p);
            MC_CHECK(intact(live[i], live[i].size), "evicted block %p(%zu) was already damaged when reported", p, live[i].size);
            mc::note("      evict @%ld", off(p));
            memset(live[i].p, 0xEE, live[i].size); // the owner may scribble over its memory one last time
            live.erase(live.begin() + i);
        };
        uint8 * p = (uint8 *)(evict ? a->alloc_or_evict(n, true, cb) : a->alloc(n));
        mc::note("  alloc%s(%zu) -> @%ld", evict ? "_or_evict" : "", n, p ? off(p) : -1);
        if (!p) { MC_CHECK(!evict, "alloc_or_evict(%zu) failed", n); MC_CHECK(!room, "alloc(%zu) failed although a whole page is free", n); return false; }
        placed("alloc", p, n);
        Blk b{p, n, seed++}; fillb(b); live.push_back(b);
        check_all("alloc");
        return true;
    }
    void free(size_t i) { mc::step(); mc::note("  free @%ld(%zu)", off(live[i].p), live[i].size); Blk b = live[i]; MC_CHECK(intact(b, b.size), "block was damaged"); live.erase(live.begin() + i); a->free(b.p); check_all("free"); }
    void realloc(size_t i, size_t n) {
        mc::step();
        Blk b = live[i];
        uint8 * p = (uint8 *)a->realloc_inplace(b.p, n);
        mc::note("  realloc @%ld(%zu -> %zu) -> %d", off(b.p), b.size, n, p != nullptr);
        if (!p) { MC_CHECK(n > b.size, "in-place shrink from %zu to %zu failed", b.size, n); MC_CHECK(intact(b, b.size), "failed realloc changed the block"); placed_other("realloc", i); check_all("failed realloc"); return; }
        MC_CHECK(p == b.p, "in-place realloc moved the block");
        MC_CHECK(intact(b, std::min(n, b.size)), "realloc changed the contents");
        live.erase(live.begin() + i);
        placed("realloc", p, n);
        b.size = n; b.seed = seed++; fillb(b); live.insert(live.begin() + i, b);
        check_all("realloc");
    }
    void placed_other(const char * op, size_t i) { MC_CHECK(a->reveal_actual_size(live[i].p) >= live[i].size, "%s: block got smaller", op); }
    void touch(size_t i) { mc::step(); mc::note("  touch @%ld", off(live[i].p)); a->touch(live[i].p); check_all("touch"); }
    uint64 hash() const { uint64 h = page; std::vector<std::pair<long, size_t>> v; for (auto & b : live) v.push_back({off(b.p), b.size}); std::sort(v.begin(), v.end()); for (auto & x : v) h = mc::hcombine(h, x.first * 131 + x.second); return h; }
    void record() { mc::state(hash()); }
    // free everything (order chosen by `order`), then every page must be available as one block
    void drain(int order) {
        while (!live.empty()) { size_t i = order == 0 ? 0 : order == 1 ? live.size() - 1 : live.size() / 2; free(i); }
        for (size_t k = 0; k < pages; ++k) { MC_CHECK(alloc(maxsz(), false), "only %zu of %zu pages can be allocated as one block after everything was freed", k, pages); }
        MC_CHECK(!alloc(1, false), "memory is left although all pages are allocated");
    }
};

static const char * PF[] = {"empty", "small", "checker", "mixed", "full", "holes"};
static void prefill(Sut & s, int kind) {
    size_t P = s.maxsz();
    switch (kind) {
    case 0: break;
    case 1: while (s.alloc(40, false)) { } break;                                   // packed with minimal blocks
    case 2: while (s.alloc(P / 4, false)) { } for (size_t i = 0; i < s.live.size(); ++i) s.free(i); break;  // every other freed
    case 3: { size_t z[] = {P / 2, 64, P / 3, 1, P / 5}; int k = 0; while (s.live.size() < 10 && s.alloc(z[k++ % 5], false)) { } break; }
    case 4: while (s.alloc(P, false)) { } break;
    case 5: while (s.alloc(56, false)) { } for (size_t i = s.live.size(); i-- > 0;) if (i % 3 != 0) s.free(i); break;
    }
}
static void explore(size_t pages, size_t page, const std::vector<size_t> & sizes, int kind, int depth, int fillb, int order) {
    Sut s(pages, page, fillb);
    prefill(s, kind);
    s.record();
    int ns = (int)sizes.size();
    for (int d = 0; d < depth; ++d) {
        // operate on up to 4 live blocks spread over the live set
        std::vector<size_t> cand; size_t L = s.live.size();
        if (L <= 4) for (size_t i = 0; i < L; ++i) cand.push_back(i); else { cand = {0, L / 3, L / 2, L - 1}; }
        int nc = (int)cand.size();
        int c = mc::choose(2 * ns + nc * (2 + 3));
        if (c < ns) s.alloc(sizes[c], false);
        else if (c < 2 * ns) s.alloc(sizes[c - ns], true);
        else {
            c -= 2 * ns; size_t i = cand[c / 5];
            switch (c % 5) { case 0: s.free(i); break; case 1: s.touch(i); break; case 2: s.realloc(i, 1); break; case 3: s.realloc(i, std::min(s.live[i].size + 64, s.maxsz())); break; case 4: s.realloc(i, s.maxsz()); break; }
        }
        s.record();
    }
    s.drain(order);
    mc::outcome(s.hash());
}
// every size of one page size, in combination with a few partner sizes
static void sizes_sweep(size_t page) {
    Sut s(4, page, 0x5A);
    size_t n; if (page <= 4096) { size_t blk = mc::choose((int)((s.maxsz() + 63) / 64)); n = 1 + blk * 64 + mc::choose(64); if (n > s.maxsz()) throw mc::Prune(); }
    else { // all class boundaries of large pages
        int p = mc::choose(24); size_t pw = (size_t)1 << (p + 1); int sub = mc::choose(33); size_t v = pw + pw / 32 * sub; n = v + mc::choose(5) - 2; if (n < 1 || n > s.maxsz()) throw mc::Prune();
    }
    size_t partner[] = {1, 56, 57, 64, n, std::min(n + 1, s.maxsz()), s.maxsz() - n > 16 ? s.maxsz() - n - 8 : 8, s.maxsz() / 2};
    size_t q = partner[mc::choose(8)];
    s.alloc(n, false); s.alloc(q, false); s.alloc(n, false); s.record();
    s.free(0); s.alloc(q, false); s.record();
    if (s.live.size() > 1) s.realloc(0, n);
    if (s.live.size() > 1) s.free(1);
    s.alloc(n, true); s.alloc(q, true); s.record();
    s.realloc(s.live.size() - 1, std::max<size_t>(1, q / 2)); s.alloc(n, true); s.record();
    for (int i = 0; i < 6; ++i) s.alloc(i % 2 ? n : q, true);
    s.drain(1);
}
// free lists of one size class: blocks of nearly equal sizes freed and requested in all orders
static void same_class(size_t page, size_t lo, size_t step, int n) {
    Sut s(4, page, 0xFF);
    std::vector<size_t> order; for (int i = 0; i < n; ++i) { s.alloc(lo + step * i, false); s.alloc(8, false); }
    // free the n blocks in every order
    std::vector<int> ids; for (int i = 0; i < n; ++i) ids.push_back(i);
    std::vector<uint8 *> ps; for (int i = 0; i < n; ++i) ps.push_back(s.live[2 * i].p);
    while (!ids.empty()) { int k = mc::choose((int)ids.size()); uint8 * p = ps[ids[k]]; ids.erase(ids.begin() + k); for (size_t i = 0; i < s.live.size(); ++i) if (s.live[i].p == p) { s.free(i); break; } }
    s.record();
    for (int i = 0; i < n; ++i) { s.alloc(lo + step * mc::choose(n), i == n - 1); s.record(); }
    s.drain(0);
}
// long churn with one deviation
static void churn(size_t pages, size_t page, int len, unsigned seed0, bool evict) {
    Sut s(pages, page, 0);
    int dev = mc::choose(len / 16) * 16 + mc::choose(16), dop = mc::choose(5);
    unsigned st = seed0;
    for (int i = 0; i < len; ++i) {
        st = st * 1103515245u + 12345u; unsigned r = (st >> 16) & 0x7fff; st = st * 1103515245u + 12345u; unsigned q = (st >> 16) & 0x7fff;
        int op = r % 8; size_t n = 1 + q % (q % 3 == 0 ? s.maxsz() : s.maxsz() / 6);
        if (i == dev) { op = dop * 2; }
        if (s.live.empty() || op <= 3) s.alloc(n, evict && op != 3);
        else if (op <= 5) s.free(q % s.live.size());
        else if (op == 6) s.realloc(q % s.live.size(), n);
        else s.touch(q % s.live.size());
        if (i % 8 == 7) s.record();
    }
    s.drain(2);
}

int main(int argc, char ** argv) {
    bool th = false; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--thorough")) th = true;
    for (int k = 0; k < 6; ++k) {
        mc::add(string("p256-") + PF[k], [=] { explore(4, 256, {1, 57, 120, 184, 248}, k, th ? 5 : 4, k % 2 ? 0xFF : 0, k % 3); });
        mc::add(string("p1024-") + PF[k], [=] { explore(4, 1024, {56, 200, 440, 1016}, k, th ? 5 : (k == 1 || k == 5 ? 3 : 4), 0xFF, (k + 1) % 3); });
        mc::add(string("p4096-") + PF[k], [=] { explore(4, 4096, {100, 1000, 2040, 4088}, k, th ? 4 : 3, 0x11, (k + 2) % 3); });
        mc::add(string("p512x8-") + PF[k], [=] { explore(8, 512, {1, 248, 504}, k, th ? 5 : 4, 0, k % 3); });
    }
    mc::add("p256-deep", [=] { explore(4, 256, {56, 184, 248}, 0, th ? 6 : 5, 0xAA, 1); });
    for (size_t p : {256, 512, 1024, 2048, 4096}) mc::add("sizes-" + std::to_string(p), [=] { sizes_sweep(p); });
    mc::add("sizes-1M", [=] { sizes_sweep(1 << 20); });
    mc::add("sizes-16M", [=] { sizes_sweep(1 << 24); }, true);
    mc::add("class-small", [=] { same_class(4096, 57, 3, th ? 5 : 4); });
    mc::add("class-300", [=] { same_class(4096, 256, 2, th ? 5 : 4); });
    mc::add("class-big", [=] { same_class(32768, 4096, 30, th ? 5 : 4); });
    mc::add("class-span", [=] { same_class(32768, 480, 24, th ? 5 : 4); });
    for (unsigned sd = 1; sd <= (th ? 12u : 3u); ++sd) {
        mc::add("churn-evict-" + std::to_string(sd), [=] { churn(4, 1024, 256, sd, true); });
        mc::add("churn-" + std::to_string(sd), [=] { churn(8, 2048, 256, sd + 100, false); });
    }
    return mc::main_(argc, argv);
}
