// P31: readers-writer locks under contention and in deterministic scenarios.
#include "mon_locks.h"
#include "icl_core_thread/RWLock.h"
#include "icl_core_thread/ScopedRWLock.h"
using namespace locks;
using icl_core::thread::RWLock;
using icl_core::thread::ScopedRWLock;

enum { READ, WRITE };
static const char *mode_name(int m) { return m == READ ? "read" : "write"; }

static bool acquire(RWLock& l, int mode, int kind, int64_t timeout)
{
  if (mode == READ)
    return attempt(kind, timeout, l, [](RWLock& x) { return x.readLock(); }, [](RWLock& x) { return x.tryReadLock(); },
                   [](RWLock& x, const icl_core::TimeSpan& s) { return x.readLock(s); },
                   [](RWLock& x, const icl_core::TimeStamp& s) { return x.readLock(s); }, "read");
  return attempt(kind, timeout, l, [](RWLock& x) { return x.writeLock(); }, [](RWLock& x) { return x.tryWriteLock(); },
                 [](RWLock& x, const icl_core::TimeSpan& s) { return x.writeLock(s); },
                 [](RWLock& x, const icl_core::TimeStamp& s) { return x.writeLock(s); }, "write");
}
static bool others_can(RWLock& l, int mode)
{
  bool r = false;
  std::thread t([&]() { r = mode == READ ? l.tryReadLock() : l.tryWriteLock(); if (r) l.unlock(); });
  t.join();
  return r;
}

static void contend(mon::Rng& r)
{
  const int nt = int(r.range(2, 7)), ops = int(r.range(20, 100));
  const unsigned writers = unsigned(r.range(5, 70));
  RWLock lock;
  std::atomic<int> readers(0), writer(0), most(0);
  long data[8] = { 0 };
  std::atomic<long> writes(0), reads(0);
  std::vector<std::vector<Event> > log(static_cast<size_t>(nt));
  Barrier start(nt);
  const uint64_t seed = r.next();
  sched_perturb(unsigned(r.below(4)) * 8, seed);
  {
    Threads ts;
    for (int t = 0; t < nt; ++t) ts.add([&, t]()
    {
      mon::Rng q(seed + uint64_t(t) * 7919);
      start.wait();
      for (int i = 0; i < ops; ++i)
      {
        Event e; e.obj = 0; e.thread = t; e.mode = q.chance(writers) ? WRITE : READ;
        e.kind = int(q.below(4));
        e.timeout = q.chance(30) ? 0 : q.range(0, 400000);
        if (e.kind == ABS && q.chance(20)) e.timeout = -q.range(1, 2000000000);
        const bool scoped = e.kind == PLAIN && q.chance(50);
        ScopedRWLock *sl = NULL;
        e.from = tick();
        if (scoped)
        {
          sl = new ScopedRWLock(lock, e.mode == READ ? ScopedRWLock::eLM_READ_LOCK : ScopedRWLock::eLM_WRITE_LOCK, q.chance(50));
          e.ok = *sl;
          MON_NOTE(e.ok && sl->isLocked(), "scoped", "a scoped lock did not lock");
        }
        else e.ok = acquire(lock, e.mode, e.kind, e.timeout);
        if (e.ok && e.mode == WRITE)
        {
          const int w = writer.exchange(t + 1, std::memory_order_relaxed), n = readers.load(std::memory_order_relaxed);
          MON_NOTE(w == 0, "two-writers", "thread " << t << " got the write lock (" << kind_name(e.kind) << ") held by thread " << w - 1);
          MON_NOTE(n == 0, "writer-with-readers", "thread " << t << " got the write lock (" << kind_name(e.kind) << ") while " << n << " readers hold the lock");
          for (int k = 0; k < 8; ++k) { data[k] += 1; if (k == 3 && q.chance(30)) sched_yield(); if (k == 5 && q.chance(10)) mon::sleep_us(q.range(1, 150)); }
          ++writes;
          const int n2 = readers.load(std::memory_order_relaxed), w2 = writer.exchange(0, std::memory_order_relaxed);
          MON_NOTE(n2 == 0 && w2 == t + 1, "writer-not-alone", n2 << " readers and writer " << w2 - 1 << " entered while thread " << t << " held the write lock");
        }
        else if (e.ok)
        {
          const int n = readers.fetch_add(1, std::memory_order_relaxed) + 1, w = writer.load(std::memory_order_relaxed);
          int m = most.load(std::memory_order_relaxed);
          while (n > m && !most.compare_exchange_weak(m, n, std::memory_order_relaxed)) { }
          MON_NOTE(w == 0, "reader-with-writer", "thread " << t << " got the read lock (" << kind_name(e.kind) << ") while thread " << w - 1 << " holds the write lock");
          const long a = data[0];
          if (q.chance(30)) sched_yield();
          if (q.chance(10)) mon::sleep_us(q.range(1, 150));
          for (int k = 1; k < 8; ++k) MON_NOTE(data[k] == a, "torn", "a reader saw data[" << k << "] == " << data[k] << " and data[0] == " << a);
          ++reads;
          readers.fetch_sub(1, std::memory_order_relaxed);
        }
        if (sl) delete sl; else if (e.ok) lock.unlock();
        e.to = tick();
        log[size_t(t)].push_back(e);
      }
    });
  }
  sched_perturb(0, 0);
  mon::Hash h;
  uint64_t fails = 0;
  for (int t = 0; t < nt; ++t)
    for (size_t i = 0; i < log[size_t(t)].size(); ++i)
    {
      const Event& e = log[size_t(t)][i];
      h.add(e.from);
      if (e.ok) continue;
      ++fails;
      bool excused = false;
      for (int u = 0; u < nt && !excused; ++u)
        for (size_t j = 0; u != t && j < log[size_t(u)].size() && !excused; ++j)
        {
          const Event& o = log[size_t(u)][j];
          // readers are kept out by writers only (also by one that tries), writers by everybody
          if (o.from < e.to && o.to > e.from && (e.mode == WRITE || o.mode == WRITE)) excused = true;
        }
      MON_CHECK(excused, "failed-while-free", "thread " << t << " failed to get the " << mode_name(e.mode) << " lock (" << kind_name(e.kind) << ") although no other thread had a conflicting one");
    }
  const bool got = lock.tryWriteLock();
  MON_CHECK(got, "leaked-lock", "the lock is still held after everybody has released it");
  for (int k = 0; k < 8; ++k) MON_CHECK(data[k] == writes, "lost-update", writes << " writers, but data[" << k << "] is " << data[k]);
  lock.unlock();
  mon::stat("obs.writes", uint64_t(writes));
  mon::stat("obs.reads", uint64_t(reads));
  mon::stat("obs.failed_attempts", fails);
  if (most.load() > 1) mon::stat("obs.shared_readings");
  mon::stat_max("readers_together", uint64_t(most.load()));
  mon::state(h);
  if (mon::want_sample()) mon::sample(std::to_string(nt) + " threads: " + std::to_string(reads) + " reads (up to " + std::to_string(most) + " together), " + std::to_string(writes) + " writes, " + std::to_string(fails) + " failed attempts");
}

static int64_t some_timeout(mon::Rng& r, int kind, int64_t limit)
{ return kind == ABS && r.chance(30) ? -r.range(1, 1000000000000) : r.chance(20) ? 0 : r.range(1000, limit); }

static void truth(mon::Rng& r)
{
  RWLock l;
  const int mode = r.chance(50) ? READ : WRITE;
  const int holders = mode == WRITE ? 1 : int(r.range(1, 5));
  const bool scoped = r.chance(40);
  std::atomic<int> in(0), out(0), leave(0);
  std::vector<int> kinds;
  for (int i = 0; i < holders; ++i) kinds.push_back(int(r.below(4)));
  Threads ts;
  for (int i = 0; i < holders; ++i) ts.add([&, i]()
  {
    ScopedRWLock *sl = NULL;
    if (scoped) sl = new ScopedRWLock(l, mode == READ ? ScopedRWLock::eLM_READ_LOCK : ScopedRWLock::eLM_WRITE_LOCK);
    else MON_NOTE(acquire(l, mode, kinds[size_t(i)], ENDLESS), "free-not-locked", "a " << mode_name(mode) << " attempt (" << kind_name(kinds[size_t(i)]) << ") on a lock held by no writer failed");
    ++in;
    // all readers are inside together before any of them leaves
    while (leave.load() <= i) mon::sleep_us(20);
    if (sl) delete sl; else l.unlock();
    ++out;
  });
  if (!mon::wait_for([&]() { return in.load() == holders; }, 60000))
  {
    mon::note_viol("readers-exclude", "only " + std::to_string(in.load()) + " of " + std::to_string(holders) + " readers got the lock together");
    leave = holders;
    ts.join();
    throw mon::Fail();
  }
  mon::Hash h;
  for (int left = holders; left > 0; --left)
  {
    for (int k = TRY; k <= ABS; ++k)
    {
      const int64_t to = some_timeout(r, k, 2000000);
      h.add(uint64_t(to));
      const bool w = acquire(l, WRITE, k, to);
      MON_NOTE(!w, "acquired-held", "a write attempt (" << kind_name(k) << ") succeeded while " << left << " threads hold the " << mode_name(mode) << " lock");
      if (w) l.unlock();
      if (mode == WRITE)
      {
        const bool g = acquire(l, READ, k, to);
        MON_NOTE(!g, "acquired-held", "a read attempt (" << kind_name(k) << ") succeeded while another thread holds the write lock");
        if (g) l.unlock();
      }
      else
      {
        const bool g = acquire(l, READ, k, k == TRY ? 0 : ENDLESS);
        MON_NOTE(g, "readers-exclude", "a read attempt (" << kind_name(k) << ") failed while only readers hold the lock");
        if (g) l.unlock();
      }
    }
    leave = holders - left + 1;
    while (out.load() < leave.load()) mon::sleep_us(20);
  }
  ts.join();
  for (int m = READ; m <= WRITE; ++m)
    for (int k = PLAIN; k <= ABS; ++k)
    {
      const int64_t to = some_timeout(r, k, 1000000000);
      MON_CHECK(acquire(l, m, k, to), "free-not-locked", "a " << mode_name(m) << " attempt (" << kind_name(k) << ", " << to << " ns) on a free lock failed");
      MON_CHECK(!others_can(l, WRITE), "not-held", "a " << mode_name(m) << " attempt (" << kind_name(k) << ") reported success, but another thread can get the write lock");
      MON_CHECK(others_can(l, READ) == (m == READ), "not-held", "after a successful " << mode_name(m) << " attempt (" << kind_name(k) << ") another thread " << (m == READ ? "cannot" : "can") << " get the read lock");
      // whoever holds it does not get it a second time where one of the two is the write lock
      if (m == WRITE || r.chance(20))
        for (int m2 = m == WRITE ? READ : WRITE; m2 <= WRITE; ++m2)
          for (int k2 = TRY; k2 <= ABS; ++k2)
          {
            const int64_t to2 = some_timeout(r, k2, 200000);
            const bool got = k2 == TRY ? (m2 == READ ? l.tryReadLock() : l.tryWriteLock())
              : k2 == REL ? (m2 == READ ? l.readLock(span_of(to2)) : l.writeLock(span_of(to2)))
              : (m2 == READ ? l.readLock(stamp_of(real_ns() + to2)) : l.writeLock(stamp_of(real_ns() + to2)));
            if (got) l.unlock();
            MON_CHECK(!got, "acquired-held", "a " << mode_name(m2) << " attempt (" << kind_name(k2) << ") of the thread that holds the " << mode_name(m) << " lock succeeded");
            mon::stat("obs.own_attempts");
          }
      MON_CHECK(!others_can(l, WRITE), "not-held", "the " << mode_name(m) << " lock (" << kind_name(k) << ") was lost");
      l.unlock();
      MON_CHECK(others_can(l, WRITE), "leaked-lock", "the lock (" << mode_name(m) << ", " << kind_name(k) << ") is not free after unlock");
    }
  // scoped locks whose locking fails
  for (int m = READ; m <= WRITE; ++m)
  {
    const ScopedRWLock::LockMode sm = m == READ ? ScopedRWLock::eLM_READ_LOCK : ScopedRWLock::eLM_WRITE_LOCK;
    {
      sched_fail_next(1);
      ScopedRWLock s(l, sm, false);
      const bool failed = sched_pending_failures() == 0;
      sched_fail_next(0);
      if (failed) { MON_CHECK(!s.isLocked() && !s, "scoped-lies", "a scoped " << mode_name(m) << " lock says it is locked although locking failed");
        l.readLock(); }
      // its destruction must not release the read lock taken here
    }
    MON_CHECK(!others_can(l, WRITE), "scoped-released-too-much", "the destruction of an unlocked scoped lock released another lock");
    l.unlock();
    {
      sched_fail_next(2);
      ScopedRWLock s(l, sm, true);
      sched_fail_next(0);
      MON_CHECK(s.isLocked(), "scoped-force", "a forced scoped lock is not locked");
      MON_CHECK(!others_can(l, WRITE), "not-held", "a scoped " << mode_name(m) << " lock does not hold the lock");
      MON_CHECK(others_can(l, READ) == (m == READ), "not-held", "a scoped " << mode_name(m) << " lock holds the lock in the other mode");
    }
    MON_CHECK(others_can(l, WRITE), "leaked-lock", "the lock is not free after a scoped " << mode_name(m) << " lock");
  }
  mon::stat("obs.truth_rounds");
  mon::state(h.add(uint64_t(mode)).add(uint64_t(holders)).add(scoped));
}

static void handover(mon::Rng& r, bool patient)
{
  RWLock l;
  long data = 0;
  const int held = r.chance(50) ? READ : WRITE, n = int(r.range(1, 5));
  const bool signals = r.chance(50);
  std::vector<int> kinds, modes;
  for (int i = 0; i < n; ++i) { int k = int(r.below(3)); kinds.push_back(k == 0 ? PLAIN : k == 1 ? REL : ABS); modes.push_back(held == READ ? WRITE : int(r.below(2))); }
  MON_CHECK(acquire(l, held, PLAIN, 0), "free-not-locked", "locking a free lock failed");
  std::atomic<int> done(0), waiting(0);
  Threads ts;
  for (int i = 0; i < n; ++i) ts.add([&, i]()
  {
    ++waiting;
    const bool ok = acquire(l, modes[size_t(i)], kinds[size_t(i)], ENDLESS);
    MON_NOTE(ok, "handover", "a waiting " << mode_name(modes[size_t(i)]) << " attempt (" << kind_name(kinds[size_t(i)]) << ") failed although the lock was released long before its timeout");
    ++done;
    if (ok) { if (modes[size_t(i)] == WRITE) ++data; else MON_NOTE(held == READ || data >= 100, "stale", "the data of the writer is not visible to a reader"); l.unlock(); }
  });
  while (waiting.load() < n) sched_yield();
  // once the waiting threads need patience
  if (patient) mon::stat("obs.long_waits", uint64_t(n));
  const int64_t until = mon::now_ns() + (patient ? r.range(2300, 3300) * 1000000 : r.chance(3) ? r.range(40, 120) * 1000000 : r.range(0, 4000000));
  do
  {
    if (signals) for (size_t i = 0; i < ts.t.size(); ++i) pthread_kill(ts.t[i].native_handle(), SIGUSR1);
    mon::sleep_us(100);
  } while (mon::now_ns() < until);
  if (held == WRITE) data += 100;
  MON_NOTE(done.load() == 0, "acquired-held", "a waiting thread got the lock although it was held");
  l.unlock();
  ts.join();
  long want = held == WRITE ? 100 : 0;
  for (int i = 0; i < n; ++i) want += modes[size_t(i)] == WRITE;
  MON_CHECK(data == want, "lost-update", "the writers counted " << data << " instead of " << want);
  mon::stat("obs.handovers", uint64_t(n));
  mon::Hash h;
  for (int i = 0; i < n; ++i) h.add(uint64_t(kinds[size_t(i)] * 2 + modes[size_t(i)]));
  mon::state(h.add(signals).add(uint64_t(held)).add(r.below(1000)));
}

static void on_signal(int) { }
void mon::setup()
{
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(SIGUSR1, &sa, NULL);
}
void mon::teardown() { stat("obs.perturbations", sched_points()); }
void mon::run_case(uint64_t index, Rng& r)
{
  switch (index % 4)
  {
    case 0: case 1: phase("contention"); contend(r); break;
    case 2: phase("truth"); truth(r); break;
    case 3: phase("handover"); handover(r, index % 1600 == 3); break;
  }
}
