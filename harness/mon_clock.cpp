// A real-time clock under control of the harness (-Wl,--wrap); the monotonic clock stays real.
#include <time.h>
#include <sys/time.h>
#include <atomic>
#include "mon_clock.h"
static std::atomic<int64_t> fake(-1);
void clock_set(int64_t ns) { fake.store(ns, std::memory_order_relaxed); }
void clock_advance(int64_t ns) { fake.fetch_add(ns, std::memory_order_relaxed); }
extern "C" int __real_gettimeofday(struct timeval *, void *);
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" time_t __real_time(time_t *);
extern "C" int __wrap_gettimeofday(struct timeval *t, void *z)
{
  const int64_t f = fake.load(std::memory_order_relaxed);
  if (f < 0) return __real_gettimeofday(t, z);
  t->tv_sec = time_t(f / 1000000000); t->tv_usec = long(f % 1000000000 / 1000);
  return 0;
}
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
  const int64_t f = fake.load(std::memory_order_relaxed);
  if (f < 0 || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE)) return __real_clock_gettime(c, t);
  t->tv_sec = time_t(f / 1000000000); t->tv_nsec = long(f % 1000000000);
  return 0;
}
extern "C" time_t __wrap_time(time_t *t)
{
  const int64_t f = fake.load(std::memory_order_relaxed);
  if (f < 0) return __real_time(t);
  if (t) *t = time_t(f / 1000000000);
  return time_t(f / 1000000000);
}
