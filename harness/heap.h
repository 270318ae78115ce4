// Interposed heap: counts what the code under test allocates and releases, and can refuse the n-th
// request.  Active only while heap::on is set (around calls into the code under test).
#ifndef HEAP_H
#define HEAP_H
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <malloc.h>
namespace heap {
    extern bool on; extern long live; extern uint64_t requests; extern uint64_t fail_at, fail_len; extern bool failed; extern uint64_t fail_bytes; extern uint64_t largest; extern long bytes;
    struct Scope { bool save; Scope() : save(on) { on = true; } ~Scope() { on = save; } };
    struct Pause { bool save; Pause() : save(on) { on = false; } ~Pause() { on = save; } };
    inline void reset() { on = false; live = 0; requests = 0; fail_at = 0; fail_len = 1; failed = false; fail_bytes = 0; largest = 0; bytes = 0; }
}
#ifdef HEAP_IMPL
extern "C" { void * __libc_malloc(size_t); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t); void __libc_free(void *); }
namespace heap {
    bool on = false; long live = 0; uint64_t requests = 0, fail_at = 0, fail_len = 1, fail_bytes = 0, largest = 0; bool failed = false; long bytes = 0;
    static inline bool refuse(size_t n) { if (!on) return false; ++requests; if (n > largest) largest = n; if (fail_at && requests >= fail_at && requests - fail_at < fail_len) { failed = true; fail_bytes = n; errno = ENOMEM; return true; } return false; }
    static inline void * got(void * p) { if (on && p) { live++; bytes += (long)malloc_usable_size(p); } return p; }
}
extern "C" void * malloc(size_t n) noexcept { if (heap::refuse(n)) return nullptr; return heap::got(__libc_malloc(n)); }
extern "C" void * calloc(size_t a, size_t b) noexcept { if (heap::refuse(a * b)) return nullptr; return heap::got(__libc_calloc(a, b)); }
extern "C" void * realloc(void * p, size_t n) noexcept { if (heap::refuse(n)) return nullptr; size_t o = heap::on && p ? malloc_usable_size(p) : 0; void * r = __libc_realloc(p, n); if (!p) heap::got(r); else if (heap::on && r) heap::bytes += (long)malloc_usable_size(r) - (long)o; return r; }
extern "C" void * memalign(size_t a, size_t n) noexcept { if (heap::refuse(n)) return nullptr; return heap::got(__libc_memalign(a, n)); }
extern "C" void * aligned_alloc(size_t a, size_t n) noexcept { if (heap::refuse(n)) return nullptr; return heap::got(__libc_memalign(a, n)); }
extern "C" int posix_memalign(void ** o, size_t a, size_t n) noexcept { if (heap::refuse(n)) return ENOMEM; *o = heap::got(__libc_memalign(a, n)); return *o ? 0 : ENOMEM; }
extern "C" void free(void * p) noexcept { if (heap::on && p) { heap::live--; heap::bytes -= (long)malloc_usable_size(p); } __libc_free(p); }
#endif
#endif
