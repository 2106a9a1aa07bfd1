// P30: mutexes under contention, deterministic hold/release scenarios, recursion and scoped locks.
#include "mon_locks.h"
#include "icl_core_thread/Mutex.h"
#include "icl_core_thread/ScopedMutexLock.h"
using namespace locks;
using icl_core::thread::Mutex;
using icl_core::thread::ScopedMutexLock;

static bool acquire(Mutex& m, int kind, int64_t timeout)
{
  return attempt(kind, timeout, m, [](Mutex& l) { return l.lock(); }, [](Mutex& l) { return l.tryLock(); },
                 [](Mutex& l, const icl_core::TimeSpan& s) { return l.lock(s); },
                 [](Mutex& l, const icl_core::TimeStamp& s) { return l.lock(s); }, "mutex");
}
// what another thread sees
static bool free_for_others(Mutex& m)
{
  bool r = false;
  std::thread t([&]() { r = m.tryLock(); if (r) m.unlock(); });
  t.join();
  return r;
}

struct Guarded { std::atomic<int> owner; long a, b; Guarded() : owner(0), a(0), b(0) { } };

static void contend(mon::Rng& r)
{
  const int nt = int(r.range(2, 6)), nm = int(r.range(1, 2)), ops = int(r.range(20, 120));
  Mutex mutex[2];
  Guarded guarded[2];
  std::vector<std::vector<Event> > log(static_cast<size_t>(nt));
  std::atomic<long> sections[2]; sections[0] = 0; sections[1] = 0;
  Barrier start(nt);
  const uint64_t seed = r.next();
  sched_perturb(unsigned(r.below(4)) * 8, seed);
  {
    Threads ts;
    for (int t = 0; t < nt; ++t) ts.add([&, t]()
    {
      mon::Rng q(seed + uint64_t(t) * 7919);
      start.wait();
      for (int i = 0; i < ops; ++i)
      {
        const int m = int(q.below(uint64_t(nm)));
        Event e; e.obj = m; e.thread = t; e.mode = 0;
        e.kind = int(q.below(5)); if (e.kind == 4) e.kind = TRY;
        e.timeout = q.chance(30) ? 0 : q.range(0, 400000);
        if (e.kind == ABS && q.chance(20)) e.timeout = -q.range(1, 2000000000);
        const bool scoped = e.kind == PLAIN && q.chance(40);
        e.from = tick();
        ScopedMutexLock *sl = NULL;
        if (scoped) { sl = new ScopedMutexLock(mutex[m], q.chance(50)); e.ok = *sl; MON_NOTE(e.ok && sl->isLocked(), "scoped", "a scoped lock did not lock"); }
        else e.ok = acquire(mutex[m], e.kind, e.timeout);
        if (e.ok)
        {
          Guarded& g = guarded[m];
          const int before = g.owner.exchange(t + 1, std::memory_order_relaxed);
          MON_NOTE(before == 0, "two-holders", "thread " << t << " acquired (" << kind_name(e.kind) << ") the mutex held by thread " << before - 1);
          const long a = g.a;
          MON_NOTE(a == g.b, "stale", "the data of the previous holder is not visible: " << a << " " << g.b);
          int depth = 0;
          while (q.chance(25) && depth < 4)
          {
            ++depth;
            const bool again = acquire(mutex[m], int(q.below(4)), 1000000);
            MON_NOTE(again, "recursive", "the holder could not lock the mutex again");
          }
          if (q.chance(30)) sched_yield();
          g.a = a + 1;
          if (q.chance(10)) mon::sleep_us(q.range(1, 150));
          for (; depth > 0; --depth) mutex[m].unlock();
          g.b = a + 1;
          ++sections[m];
          const int mine = g.owner.exchange(0, std::memory_order_relaxed);
          MON_NOTE(mine == t + 1, "two-holders", "thread " << mine - 1 << " entered while thread " << t << " held the mutex");
          if (sl) delete sl; else mutex[m].unlock();
        }
        else delete sl;
        e.to = tick();
        log[size_t(t)].push_back(e);
      }
    });
  }
  sched_perturb(0, 0);
  mon::Hash h;
  uint64_t fails = 0, switches = 0;
  for (int t = 0; t < nt; ++t)
    for (size_t i = 0; i < log[size_t(t)].size(); ++i)
    {
      const Event& e = log[size_t(t)][i];
      h.add(e.from);
      if (e.ok) continue;
      ++fails;
      // somebody else must have had something to do with the mutex during the attempt
      bool excused = false;
      for (int u = 0; u < nt && !excused; ++u)
        for (size_t j = 0; u != t && j < log[size_t(u)].size() && !excused; ++j)
        {
          const Event& o = log[size_t(u)][j];
          if (o.obj == e.obj && o.ok && o.from < e.to && o.to > e.from) excused = true;
        }
      MON_CHECK(excused, "failed-while-free", "thread " << t << " failed to lock (" << kind_name(e.kind) << ") a mutex nobody else held");
    }
  for (int m = 0; m < nm; ++m)
  {
    const bool got = mutex[m].tryLock();
    MON_CHECK(got, "leaked-lock", "the mutex is still locked after everybody has released it");
    MON_CHECK(guarded[m].a == sections[m] && guarded[m].b == sections[m], "lost-update", sections[m] << " critical sections, but counted " << guarded[m].a << "/" << guarded[m].b);
    mutex[m].unlock();
    switches += uint64_t(sections[m]);
  }
  mon::stat("obs.critical_sections", switches);
  mon::stat("obs.failed_attempts", fails);
  mon::state(h);
  if (mon::want_sample()) mon::sample(std::to_string(nt) + " threads, " + std::to_string(nm) + " mutexes: " + std::to_string(switches) + " critical sections, " + std::to_string(fails) + " failed attempts");
}

// One thread holds, the others find out.
static void truth(mon::Rng& r)
{
  Mutex m;
  std::atomic<int> step(0);
  const int depth = int(r.range(1, 5));
  std::vector<int> kinds;
  for (int i = 0; i < depth; ++i) kinds.push_back(int(r.below(4)));
  const int scoped = int(r.below(3));
  Threads ts;
  ts.add([&]()
  {
    for (int i = 0; i < depth; ++i)
      MON_NOTE(acquire(m, kinds[size_t(i)], 5000000000), "free-not-locked", "attempt " << i << " (" << kind_name(kinds[size_t(i)]) << ") on a mutex nobody else holds failed");
    step = 1;
    for (int i = 0; i < depth; ++i)
    {
      while (step.load() != 2 + 2 * i) mon::sleep_us(20);
      if (scoped && i == 0)
      {
        // a scoped lock releases what it acquired, and nothing else
        ScopedMutexLock inner(m);
        MON_NOTE(inner.isLocked(), "scoped", "a scoped lock on a mutex the thread holds already did not lock");
        if (scoped == 2)
        {
          sched_fail_next(1);
          ScopedMutexLock unforced(m, false);
          const bool failed = sched_pending_failures() == 0;
          sched_fail_next(0);
          if (failed) MON_NOTE(!unforced.isLocked() && !unforced, "scoped-lies", "a scoped lock says it is locked although locking failed");
          sched_fail_next(2);
          ScopedMutexLock forced(m, true);
          sched_fail_next(0);
          MON_NOTE(forced.isLocked(), "scoped-force", "a forced scoped lock is not locked");
        }
      }
      if (i == 0) MON_NOTE(!free_for_others(m), "scoped-released-too-much", "the mutex is free although it is locked " << depth << " times by its holder");
      m.unlock();
      step = 3 + 2 * i;
    }
  });
  while (step.load() != 1) mon::sleep_us(20);
  mon::Hash h;
  for (int i = 0; i < depth; ++i)
  {
    for (int k = TRY; k <= ABS; ++k)
    {
      const int64_t to = k == ABS && r.chance(30) ? -r.range(1, 1000000000000) : r.chance(20) ? 0 : r.range(1000, 3000000);
      MON_NOTE(!acquire(m, k, to), "acquired-held", "an attempt (" << kind_name(k) << ") on a mutex locked " << depth - i << " times by another thread succeeded");
      h.add(uint64_t(k)).add(uint64_t(to));
    }
    step = 2 + 2 * i;
    while (step.load() != 3 + 2 * i) mon::sleep_us(20);
  }
  ts.join();
  for (int k = PLAIN; k <= ABS; ++k)
  {
    const int64_t to = k == ABS && r.chance(40) ? -r.range(1, 1000000000000) : r.chance(40) ? 0 : r.range(1, 1000000000);
    MON_CHECK(acquire(m, k, to), "free-not-locked", "an attempt (" << kind_name(k) << ", " << to << " ns) on a free mutex failed");
    MON_CHECK(!free_for_others(m), "not-held", "an attempt (" << kind_name(k) << ") reported success, but another thread can lock the mutex");
    m.unlock();
    MON_CHECK(free_for_others(m), "leaked-lock", "the mutex (" << kind_name(k) << ") is not free after unlock");
  }
  mon::stat("obs.truth_rounds");
  mon::state(h.add(uint64_t(depth)).add(uint64_t(scoped)));
}

// A waiting attempt gets the mutex when it is released in time; signals do not disturb it.
static void handover(mon::Rng& r, bool patient)
{
  Mutex m;
  long data = 0;
  const int n = int(r.range(1, 4));
  const bool signals = r.chance(50);
  m.lock();
  std::vector<int> kinds;
  for (int i = 0; i < n; ++i) { int k = int(r.below(3)); kinds.push_back(k == 0 ? PLAIN : k == 1 ? REL : ABS); }
  std::atomic<int> done(0), waiting(0);
  Threads ts;
  for (int i = 0; i < n; ++i) ts.add([&, i]()
  {
    ++waiting;
    const bool ok = acquire(m, kinds[size_t(i)], ENDLESS);
    MON_NOTE(ok, "handover", "a waiting attempt (" << kind_name(kinds[size_t(i)]) << ") failed although the mutex was released long before its timeout");
    if (ok) { ++data; m.unlock(); }
    ++done;
  });
  while (waiting.load() < n) sched_yield();
  // once the waiting threads need patience
  if (patient) mon::stat("obs.long_waits", uint64_t(n));
  const int64_t until = mon::now_ns() + (patient ? r.range(2300, 3300) * 1000000 : r.chance(3) ? r.range(40, 120) * 1000000 : r.range(0, 4000000));
  do
  {
    if (signals) for (size_t i = 0; i < ts.t.size(); ++i) pthread_kill(ts.t[i].native_handle(), SIGUSR1);
    mon::sleep_us(100);
  } while (mon::now_ns() < until);
  data += 100;
  MON_NOTE(done.load() == 0, "acquired-held", "a waiting thread got the mutex although it was held");
  m.unlock();
  ts.join();
  MON_CHECK(data == 100 + n, "lost-update", "the holders counted " << data - 100 << " of " << n);
  mon::stat("obs.handovers", uint64_t(n));
  mon::state(mon::Hash().add(uint64_t(n)).add(signals).add(uint64_t(kinds[0])).add(r.next()));
}

static void on_signal(int) { }
void mon::setup()
{
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(SIGUSR1, &sa, NULL);
}
void mon::teardown() { stat("obs.perturbations", sched_points()); }
void mon::run_case(uint64_t index, Rng& r)
{
  switch (index % 4)
  {
    case 0: case 1: phase("contention"); contend(r); break;
    case 2: phase("truth"); truth(r); break;
    case 3: phase("handover"); handover(r, index % 1600 == 3); break;
  }
}
