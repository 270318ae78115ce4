// Virtual monotonic clock: the harness owns time.  Every read of a monotonic clock made by the
// code under test lands here (libstdc++'s steady_clock calls clock_gettime).
#ifndef VCLOCK_H
#define VCLOCK_H
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdint>
namespace vclock {
    static const uint64_t START = 1000;
    extern uint64_t now_s;          // virtual seconds
    extern uint64_t now_ns;         // sub-second part
    extern uint64_t reads;          // number of reads so far
    extern void (*on_read)();       // called before each read (may advance the clock)
    inline void reset() { now_s = START; now_ns = 0; reads = 0; on_read = nullptr; }
}
#ifdef VCLOCK_IMPL
namespace vclock { uint64_t now_s = START; uint64_t now_ns = 0; uint64_t reads = 0; void (*on_read)() = nullptr; }
extern "C" int clock_gettime(clockid_t id, struct timespec * ts) {
    if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME) {
        vclock::reads++;
        if (vclock::on_read) vclock::on_read();
        ts->tv_sec = (time_t)vclock::now_s; ts->tv_nsec = (long)vclock::now_ns;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
#endif
#endif
