// ThreadSanitizer as an oracle for user-visible data only: a reported race counts when both accesses are
// made by functions marked USER_ACCESS (the harness's own reads and writes of stream data or block state).
// Races inside the library are no property violation by themselves and are ignored here.
#pragma once
#include "pbt.hpp"
#include <atomic>

#define USER_ACCESS __attribute__((noinline, section("vpuser")))

namespace userrace {
inline std::atomic<int> &hits(void) { static std::atomic<int> n{0}; return n; }
inline std::atomic<int> &others(void) { static std::atomic<int> n{0}; return n; }
//! fails the running case if a race on user data was reported since the last call
inline void check(const char *what)
{
    if (hits().exchange(0) != 0) pbt::fail(std::string("two threads access ") + what + " without any ordering between them (ThreadSanitizer)");
}
}

#ifdef __SANITIZE_THREAD__
extern "C" {
extern char __start_vpuser[] __attribute__((weak)), __stop_vpuser[] __attribute__((weak));
int __tsan_get_report_data(void *report, const char **description, int *count, int *stack_count, int *mop_count, int *loc_count, int *mutex_count, int *thread_count, int *unique_tid_count, void **sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void *report, unsigned long idx, int *tid, void **addr, int *size, int *write, int *atomic, void **trace, unsigned long trace_size);
__attribute__((no_sanitize("thread"))) void __tsan_on_report(void *report)
{
    const char *d; int count, sc, mc = 0, lc, muc, tc, utc; void *sleep[1];
    __tsan_get_report_data(report, &d, &count, &sc, &mc, &lc, &muc, &tc, &utc, sleep, 1);
    int inside = 0;
    for (int i = 0; i < mc && i < 2; i++)
    {
        int tid, size, write, atomic; void *addr; void *trace[4] = {nullptr, nullptr, nullptr, nullptr};
        __tsan_get_report_mop(report, i, &tid, &addr, &size, &write, &atomic, trace, 4);
        if ((char *)trace[0] >= __start_vpuser && (char *)trace[0] <= __stop_vpuser) inside++;
    }
    if (inside == 2) userrace::hits().fetch_add(1);
    else userrace::others().fetch_add(1);
}
}
#endif
