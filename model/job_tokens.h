// The system semaphore of the job server: the harness grants pending acquisitions with t_grant().
#pragma once
#include "rt.h"
#include <atomic>
static int t_obtained, t_released, t_created = -1; static int t_grants, t_taken;   // natively changed by the acquiring thread while the main thread waits for it
void rt_waitWoken() __attribute__((weak)); void rt_sleep() __attribute__((weak)); bool rt_threadStep() __attribute__((weak)); void rt_wokenClear() __attribute__((weak));
void rt_semCreate(const QString &, int n, bool create) { if (create) t_created = n; }
int rt_semAcquire(const QString &)
{
    if (rt_sleep) { while (__atomic_load_n(&t_grants, __ATOMIC_SEQ_CST) <= t_taken) rt_sleep(); }
    else if (t_grants <= t_taken) sym_internal_error("acquisition without a grant");
    ++t_taken; ++t_obtained; return 1;
}
void rt_semRelease(const QString &, int n) { t_released += n; }
// the pending acquisition succeeds; its notification is queued for the main thread
static inline void t_grant()
{
    if (rt_wokenClear) { rt_pump(); rt_wokenClear(); __atomic_add_fetch(&t_grants, 1, __ATOMIC_SEQ_CST); rt_waitWoken(); }
    else { ++t_grants; if (!rt_threadStep()) sym_fail("no acquisition is pending"); }
}
