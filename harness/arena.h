// Interposes the allocation of the cache arena: the memory comes from its own mapping between
// inaccessible guard pages, pre-filled with a chosen byte, and its location is known to the harness.
#ifndef ARENA_H
#define ARENA_H
#include <sys/mman.h>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <errno.h>
#include <vector>
namespace arena {
    struct Region { char * base; size_t size; char * map; size_t map_size; bool live; };
    extern std::vector<Region> & regions();
    extern int fill_byte;       // -1: leave untouched
    extern bool enabled;
    extern bool fail_next;
    extern size_t max_size;     // bigger requests fail
    inline Region * find_live() { for (auto & r : regions()) if (r.live) return &r; return nullptr; }
    inline size_t live_count() { size_t n = 0; for (auto & r : regions()) n += r.live; return n; }
}
#ifdef ARENA_IMPL
namespace arena {
    std::vector<Region> & regions() { static std::vector<Region> r; return r; }
    int fill_byte = 0; bool enabled = true; bool fail_next = false; size_t max_size = ~(size_t)0;
    static void * get(size_t align, size_t size) {
        if (fail_next) { fail_next = false; return nullptr; }
        if (size > max_size) { errno = ENOMEM; return nullptr; }
        // reuse a released mapping of the same shape
        for (auto & r : regions()) if (!r.live && r.size == size && ((uintptr_t)r.base % align) == 0) { r.live = true; if (fill_byte >= 0) memset(r.base, fill_byte, size); return r.base; }
        size_t pg = 4096, len = ((size + align + pg - 1) / pg + 3) * pg;
        char * m = (char *)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return nullptr;
        uintptr_t b = ((uintptr_t)m + pg + align - 1) / align * align;
        // put the end of the arena right before an inaccessible page when the size allows
        if (size % pg != 0) { uintptr_t e = (b + size + pg - 1) / pg * pg; uintptr_t nb = (e - size) / align * align; if (nb >= (uintptr_t)m + pg) b = nb; }
        uintptr_t p0 = b / pg * pg, p1 = (b + size + pg - 1) / pg * pg;
        if (mprotect((void *)p0, p1 - p0, PROT_READ | PROT_WRITE) != 0) { munmap(m, len); return nullptr; }
        Region r{(char *)b, size, m, len, true}; regions().push_back(r);
        if (fill_byte >= 0) memset(r.base, fill_byte, size);
        return r.base;
    }
    static bool put(void * p) { for (auto & r : regions()) if (r.live && r.base == p) { r.live = false; return true; } return false; }
}
extern "C" void __libc_free(void *);
extern "C" void * __libc_memalign(size_t, size_t);
extern "C" void * aligned_alloc(size_t align, size_t size) noexcept { return arena::enabled ? arena::get(align, size) : __libc_memalign(align, size); }
extern "C" void * memalign(size_t align, size_t size) noexcept { return arena::enabled ? arena::get(align, size) : __libc_memalign(align, size); }
extern "C" int posix_memalign(void ** out, size_t align, size_t size) noexcept { void * p = arena::enabled ? arena::get(align, size) : __libc_memalign(align, size); if (!p) return ENOMEM; *out = p; return 0; }
extern "C" void free(void * p) { if (p && ((uintptr_t)p % 64) == 0 && arena::put(p)) return; __libc_free(p); }
#endif
#endif
