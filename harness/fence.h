// realloc/free stand-ins which put every block right before an inaccessible page, so that any
// access past its end is a crash, and which can fail on demand.  Define FENCE_IMPL in one file.
#ifndef FENCE_H
#define FENCE_H
#include <sys/mman.h>
#include <cstring>
#include <cstdint>
#include <cstdlib>
#include <vector>
namespace fence {
    extern bool enabled; extern long fail_after;   // fail_after: number of allocations that still succeed (-1: all)
    extern uint64_t calls, live, max_block;
    void setup(size_t slot_size, int slots);
    size_t size_of(const void * p);
}
#ifdef FENCE_IMPL
extern "C" void * __libc_realloc(void *, size_t);
extern "C" void __libc_free(void *);
namespace fence {
    bool enabled = false; long fail_after = -1; uint64_t calls = 0, live = 0, max_block = 0;
    static char * base = nullptr; static size_t slot = 0; static int nslots = 0; static size_t * sizes = nullptr; static int next = 0;
    void setup(size_t slot_size, int slots) {
        if (!base) {
            slot = (slot_size + 4095) / 4096 * 4096 + 4096; nslots = slots;
            base = (char *)mmap(nullptr, slot * slots + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            for (int i = 0; i < slots; ++i) mprotect(base + slot * (i + 1) - 4096, 4096, PROT_NONE);
            sizes = (size_t *)mmap(nullptr, sizeof(size_t) * slots, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        }
        for (int i = 0; i < nslots; ++i) sizes[i] = 0;
        live = 0; calls = 0; max_block = 0; fail_after = -1; next = 0; enabled = true;
    }
    static int index_of(const void * p) { if (!base || (const char *)p < base || (const char *)p >= base + slot * nslots) return -1; return (int)(((const char *)p - base) / slot); }
    size_t size_of(const void * p) { int i = index_of(p); return i < 0 ? 0 : sizes[i]; }
    static void release(int i) { size_t n = sizes[i]; memset(base + slot * (i + 1) - 4096 - n, 0xDD, n); sizes[i] = 0; live--; }
    static void * get(void * old, size_t n) {
        calls++;
        if (fail_after >= 0) { if (fail_after == 0) { fail_after = -1; return nullptr; } fail_after--; }
        if (n + 4096 > slot) return nullptr;
        if (n > max_block) max_block = n;
        for (int k = 0; k < nslots; ++k) { int i = (next + k) % nslots; if (sizes[i] == 0) {
            next = (i + 1) % nslots; sizes[i] = n ? n : 1; char * p = base + slot * (i + 1) - 4096 - sizes[i]; live++;
            memset(p, 0xEE, sizes[i]);
            int o = index_of(old); if (o >= 0) { size_t c = sizes[o] < n ? sizes[o] : n; memcpy(p, old, c); release(o); }
            return p; } }
        return nullptr;
    }
}
extern "C" void * realloc(void * p, size_t n) noexcept { if (fence::enabled && (p == nullptr || fence::index_of(p) >= 0)) return fence::get(p, n); return __libc_realloc(p, n); }
extern "C" void free(void * p) noexcept { int i = p ? fence::index_of(p) : -1; if (i >= 0) { fence::release(i); return; } __libc_free(p); }
#endif
#endif
