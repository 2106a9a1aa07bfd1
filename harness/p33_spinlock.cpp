// P33: spin locks under contention and in deterministic scenarios.
#include "mon_locks.h"
#include "icl_core/Noncopyable.h"
#include "icl_core_thread/SpinLock.h"
#include "icl_core_thread/ScopedSpinLock.h"
using namespace locks;
using icl_core::thread::SpinLock;
using icl_core::thread::ScopedSpinLock;

static void contend(mon::Rng& r)
{
  const int nt = int(r.range(2, 5)), nl = int(r.range(1, 2)), ops = int(r.range(50, 400));
  SpinLock lock[2];
  struct { std::atomic<int> owner; long a, b; } g[2];
  for (int i = 0; i < 2; ++i) { g[i].owner = 0; g[i].a = g[i].b = 0; }
  std::atomic<long> sections[2]; sections[0] = 0; sections[1] = 0;
  std::vector<std::vector<Event> > log(static_cast<size_t>(nt));
  Barrier start(nt);
  const uint64_t seed = r.next();
  {
    Threads ts;
    for (int t = 0; t < nt; ++t) ts.add([&, t]()
    {
      mon::Rng q(seed + uint64_t(t) * 7919);
      start.wait();
      for (int i = 0; i < ops; ++i)
      {
        Event e; e.obj = int(q.below(uint64_t(nl))); e.thread = t; e.mode = 0; e.timeout = 0;
        e.kind = q.chance(50) ? TRY : PLAIN;
        SpinLock& l = lock[e.obj];
        ScopedSpinLock *sl = NULL;
        e.from = tick();
        if (e.kind == TRY) e.ok = l.tryLock();
        else if (q.chance(50)) { sl = new ScopedSpinLock(l); e.ok = *sl; MON_NOTE(e.ok && sl->isLocked(), "scoped", "a scoped spin lock is not locked"); }
        else { e.ok = l.lock(); MON_NOTE(e.ok, "plain-failed", "lock() returned false"); }
        if (e.ok)
        {
          const int before = g[e.obj].owner.exchange(t + 1, std::memory_order_relaxed);
          MON_NOTE(before == 0, "two-holders", "thread " << t << " acquired (" << kind_name(e.kind) << ") the spin lock held by thread " << before - 1);
          const long a = g[e.obj].a;
          MON_NOTE(a == g[e.obj].b, "stale", "the data of the previous holder is not visible");
          g[e.obj].a = a + 1;
          for (volatile unsigned k = 0; k < q.below(200); ++k) { }
          if (q.chance(3)) sched_yield();
          if (q.chance(20)) { const bool again = l.tryLock(); MON_NOTE(!again, "acquired-held", "a trial lock of a spin lock that is held succeeded"); }
          g[e.obj].b = a + 1;
          ++sections[e.obj];
          const int mine = g[e.obj].owner.exchange(0, std::memory_order_relaxed);
          MON_NOTE(mine == t + 1, "two-holders", "thread " << mine - 1 << " entered while thread " << t << " held the spin lock");
          if (sl) delete sl; else l.unlock();
        }
        e.to = tick();
        log[size_t(t)].push_back(e);
      }
    });
  }
  mon::Hash h;
  uint64_t fails = 0, total = 0;
  for (int t = 0; t < nt; ++t)
    for (size_t i = 0; i < log[size_t(t)].size(); ++i)
    {
      const Event& e = log[size_t(t)][i];
      h.add(e.from);
      if (e.ok) continue;
      ++fails;
      bool excused = false;
      for (int u = 0; u < nt && !excused; ++u)
        for (size_t j = 0; u != t && j < log[size_t(u)].size() && !excused; ++j)
        {
          const Event& o = log[size_t(u)][j];
          if (o.obj == e.obj && o.ok && o.from < e.to && o.to > e.from) excused = true;
        }
      MON_CHECK(excused, "failed-while-free", "thread " << t << " failed to lock a spin lock nobody else held");
    }
  for (int i = 0; i < nl; ++i)
  {
    MON_CHECK(lock[i].tryLock(), "leaked-lock", "the spin lock is still locked after everybody has released it");
    MON_CHECK(g[i].a == sections[i] && g[i].b == sections[i], "lost-update", sections[i] << " critical sections, but counted " << g[i].a);
    lock[i].unlock();
    total += uint64_t(sections[i]);
  }
  mon::stat("obs.critical_sections", total);
  mon::stat("obs.failed_attempts", fails);
  mon::state(h);
  if (mon::want_sample()) mon::sample(std::to_string(nt) + " threads: " + std::to_string(total) + " critical sections, " + std::to_string(fails) + " failed trials");
}

// Waiting threads get the lock, and only after its release, however long it is held.
static void handover(mon::Rng& r, bool patient)
{
  SpinLock l;
  const int n = int(r.range(1, 3));
  std::atomic<int> waiting(0), done(0);
  long data = 0;
  mon::phase("waiting for a spin lock");
  MON_CHECK(l.lock(), "plain-failed", "lock() returned false");
  Threads ts;
  for (int i = 0; i < n; ++i)
  {
    const bool scoped = r.chance(50);
    ts.add([&, scoped]()
    {
      ++waiting;
      ScopedSpinLock *sl = NULL;
      const bool ok = scoped ? (sl = new ScopedSpinLock(l))->isLocked() : l.lock();
      MON_NOTE(ok, "plain-failed", "waiting for a spin lock failed");
      ++data;
      ++done;
      if (sl) delete sl; else l.unlock();
    });
  }
  while (waiting.load() < n) sched_yield();
  mon::sleep_us(patient ? r.range(2300000, 3300000) : r.range(0, 3000));
  data += 100;
  MON_NOTE(done.load() == 0, "two-holders", "a waiting thread got the spin lock although it was held");
  l.unlock();
  ts.join();
  MON_CHECK(data == 100 + n, "lost-update", "the holders counted " << data - 100 << " of " << n);
  mon::stat("obs.handovers", uint64_t(n));
  if (patient) mon::stat("obs.long_waits", uint64_t(n));
  mon::state(mon::Hash().add(99).add(uint64_t(n)).add(r.below(50)));
}

static void truth(mon::Rng& r)
{
  SpinLock l;
  std::atomic<int> step(0);
  const int how = int(r.below(3)), tries = int(r.range(1, 20));
  Threads ts;
  ts.add([&]()
  {
    ScopedSpinLock *sl = NULL;
    if (how == 0) l.lock(); else if (how == 1) MON_NOTE(l.tryLock(), "free-not-locked", "a trial lock of a free spin lock failed"); else sl = new ScopedSpinLock(l);
    step = 1;
    while (step.load() != 2) mon::sleep_us(20);   // it is held until the trials are over: one that waited would never return
    if (sl) delete sl; else l.unlock();
    step = 3;
  });
  while (step.load() != 1) mon::sleep_us(20);
  mon::phase("trials on a held spin lock");
  for (int i = 0; i < tries; ++i) MON_NOTE(!l.tryLock(), "acquired-held", "a trial lock of a spin lock held by another thread succeeded");
  step = 2;
  while (step.load() != 3) mon::sleep_us(20);
  ts.join();
  for (int i = 0; i < 3; ++i)
  {
    MON_CHECK(l.tryLock(), "free-not-locked", "a trial lock of a free spin lock failed");
    MON_CHECK(!l.tryLock(), "acquired-held", "a second trial lock of a held spin lock succeeded");
    l.unlock();
    { ScopedSpinLock s(l); MON_CHECK(!l.tryLock(), "acquired-held", "a trial lock succeeded inside of a scoped lock"); }
    MON_CHECK(l.lock(), "plain-failed", "lock() returned false");
    l.unlock();
  }
  mon::stat("obs.truth_rounds");
  mon::state(mon::Hash().add(uint64_t(how)).add(uint64_t(tries)));
}

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t index, Rng& r)
{
  if (index % 16 == 6) handover(r, index % 1600 == 6);
  else if (index % 4 == 3) { phase("truth"); truth(r); } else { phase("contention"); contend(r); }
}
