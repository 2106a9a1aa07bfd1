// Schedule perturbation: the synchronisation calls of every linked object (the real code and the
// harness) go through these wrappers (-Wl,--wrap), which now and then yield or sleep before or after
// the call, and can be told to fail the next calls of the calling thread.
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <errno.h>
#include <stdint.h>
#include <time.h>
#include <atomic>
#include "mon_sched.h"

static std::atomic<unsigned> percent(0);
static std::atomic<uint64_t> seed(1), points(0);
static thread_local uint64_t state = 0;
static thread_local int fail_next = 0;

void sched_perturb(unsigned p, uint64_t s) { seed.store(s, std::memory_order_relaxed); percent.store(p, std::memory_order_relaxed); }
uint64_t sched_points() { return points.load(std::memory_order_relaxed); }
void sched_fail_next(int n) { fail_next = n; }
int sched_pending_failures() { return fail_next; }

static void point()
{
  const unsigned p = percent.load(std::memory_order_relaxed);
  if (!p) return;
  if (!state) state = seed.load(std::memory_order_relaxed) ^ (uint64_t)(uintptr_t)&state;
  state += 0x9E3779B97F4A7C15ull;
  uint64_t z = state;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
  if (z % 100 >= p) return;
  points.fetch_add(1, std::memory_order_relaxed);
  z >>= 8;
  switch (z % 4)
  {
    case 0: case 1: sched_yield(); break;
    case 2: for (volatile unsigned i = 0; i < (z >> 8) % 2000; ++i) { } break;
    case 3:
    {
      struct timespec t; t.tv_sec = 0; t.tv_nsec = long((z >> 8) % 120000);
      const int e = errno; nanosleep(&t, 0); errno = e;
      break;
    }
  }
}

#define WRAP(name, params, args) \
  extern "C" int __real_##name params; \
  extern "C" int __wrap_##name params { point(); int r = __real_##name args; point(); return r; }
#define WRAPF(name, params, args, how) \
  extern "C" int __real_##name params; \
  extern "C" int __wrap_##name params { if (fail_next > 0) { --fail_next; return how; } point(); int r = __real_##name args; point(); return r; }

WRAPF(pthread_mutex_lock, (pthread_mutex_t *m), (m), EAGAIN)
WRAP(pthread_mutex_trylock, (pthread_mutex_t *m), (m))
WRAP(pthread_mutex_timedlock, (pthread_mutex_t *m, const struct timespec *t), (m, t))
WRAP(pthread_mutex_unlock, (pthread_mutex_t *m), (m))
WRAPF(pthread_rwlock_rdlock, (pthread_rwlock_t *m), (m), EAGAIN)
WRAP(pthread_rwlock_tryrdlock, (pthread_rwlock_t *m), (m))
WRAP(pthread_rwlock_timedrdlock, (pthread_rwlock_t *m, const struct timespec *t), (m, t))
WRAPF(pthread_rwlock_wrlock, (pthread_rwlock_t *m), (m), EAGAIN)
WRAP(pthread_rwlock_trywrlock, (pthread_rwlock_t *m), (m))
WRAP(pthread_rwlock_timedwrlock, (pthread_rwlock_t *m, const struct timespec *t), (m, t))
WRAP(pthread_rwlock_unlock, (pthread_rwlock_t *m), (m))
WRAP(sem_wait, (sem_t *s), (s))
WRAP(sem_trywait, (sem_t *s), (s))
WRAP(sem_timedwait, (sem_t *s, const struct timespec *t), (s, t))
WRAP(sem_post, (sem_t *s), (s))
