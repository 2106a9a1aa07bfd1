// P32: semaphores (icl_core_thread and icl_core_logging): permits against a counting model, under signals and contention.
#include "mon_locks.h"
#include "icl_core_thread/Sem.h"
#include "icl_core_logging/Semaphore.h"
#include "icl_core_logging/ScopedSemaphore.h"
using namespace locks;
typedef icl_core::thread::Semaphore TSem;
typedef icl_core::logging::Semaphore LSem;
using icl_core::logging::ScopedSemaphore;

static bool take(TSem& s, int kind, int64_t timeout)
{
  return attempt(kind, timeout, s, [](TSem& x) { return x.wait(); }, [](TSem& x) { return x.tryWait(); },
                 [](TSem& x, const icl_core::TimeSpan& t) { return x.wait(t); },
                 [](TSem& x, const icl_core::TimeStamp& t) { return x.wait(t); }, "semaphore");
}
static bool take(LSem& s, int, int64_t)
{
  const bool ok = s.wait();
  MON_NOTE(ok, "plain-failed:logging", "a wait without timeout failed");
  return ok;
}
static const bool timed(TSem *) { return true; }
static const bool timed(LSem *) { return false; }

// Keeps sending a harmless signal to some threads.
struct Pounder
{
  std::atomic<bool> stop; std::thread t;
  Pounder(std::vector<pthread_t> targets, bool on) : stop(!on)
  {
    t = std::thread([this, targets]()
    {
      while (!stop.load())
      {
        for (size_t i = 0; i < targets.size(); ++i) { pthread_kill(targets[i], SIGUSR1); mon::stat("obs.signals"); }
        mon::sleep_us(80);
      }
    });
  }
  void end() { stop = true; if (t.joinable()) t.join(); }
  ~Pounder() { end(); }
};

// one thread, exact counting
template <class Sem> void sequence(mon::Rng& r)
{
  const size_t init = r.chance(15) ? (r.chance(50) ? 65536 : r.chance(50) ? 256 : 32768) + r.below(5) - 2 : size_t(r.below(5));
  if (init > 1000) mon::stat("obs.many_permits");
  Sem s(init);
  long permits = long(init);
  mon::Hash h;
  h.add(init);
  const int n = int(r.range(5, 60));
  for (int i = 0; i < n; ++i)
  {
    const int k = int(r.below(6));
    h.add(uint64_t(k));
    if (k < 2) { s.post(); ++permits; continue; }
    const int kind = timed((Sem *)0) ? (k == 2 ? PLAIN : k == 3 ? TRY : k == 4 ? REL : ABS) : PLAIN;
    if (kind == PLAIN && permits == 0) continue;
    const int64_t to = permits ? (kind == ABS && r.chance(40) ? -r.range(1, 1000000000000) : r.chance(30) ? 0 : r.range(0, 5000000000))
                               : (kind == ABS && r.chance(40) ? -r.range(1, 1000000000000) : r.range(0, 300000));
    mon::phase(std::string("wait (") + kind_name(kind) + ") with " + std::to_string(permits) + " permits");
    const bool ok = take(s, kind, to);
    MON_CHECK(ok == (permits > 0), ok ? "permit-invented" : "permit-lost", "a wait (" << kind_name(kind) << ", " << to << " ns) "
              << (ok ? "succeeded" : "failed") << " with " << permits << " permits available");
    if (ok) --permits;
  }
  // drain
  while (permits > 0)
  {
    mon::phase("drain");
    MON_CHECK(take(s, timed((Sem *)0) ? TRY : PLAIN, 0), "permit-lost", permits << " permits are missing at the end");
    --permits;
  }
  if (timed((Sem *)0)) MON_CHECK(!take(s, TRY, 0), "permit-invented", "a permit is left although all were taken");
  mon::stat("obs.sequences");
  mon::state(h);
}

template <class Sem> void conserve(mon::Rng& r)
{
  const size_t init = size_t(r.below(4));
  Sem s(init);
  const int np = int(r.range(1, 3)), nc = int(r.range(1, 4));
  const int per = int(r.range(5, 60));
  const bool pound = r.chance(50);
  const long total = long(np) * per + long(init);
  std::atomic<long> posting(0), posted(0), trying(0), taken(0), claimed(0), failed(0);
  const uint64_t seed = r.next();
  sched_perturb(unsigned(r.below(4)) * 8, seed);
  Barrier start(np + nc);
  Threads ts;
  std::vector<pthread_t> consumers;
  for (int c = 0; c < nc; ++c)
  {
    ts.add([&, c]()
    {
      mon::Rng q(seed + 31 * uint64_t(c));
      start.wait();
      for (;;)
      {
        int kind = PLAIN;
        if (timed((Sem *)0)) kind = int(q.below(4));
        // plain waits are claimed first, so that never more waits are pending than permits will come
        long c = claimed.load();
        while (c < total && !claimed.compare_exchange_weak(c, c + 1)) { }
        if (c >= total) break;
        const int64_t to = q.range(0, 300000);
        const long posted_before = posted.load();
        ++trying;
        const bool ok = take(s, kind, to);
        if (ok)
        {
          const long n = ++taken, p = posting.load();
          MON_NOTE(n <= long(init) + p, "permit-invented", n << " successful waits with " << init << " + " << p << " permits");
        }
        else
        {
          ++failed;
          claimed.fetch_sub(1);
          // every wait begun so far has taken at most one permit: if that leaves one, this wait should have got it
          const long begun = trying.load() - 1;
          MON_NOTE(long(init) + posted_before - begun <= 0, "permit-lost", "a wait (" << kind_name(kind) << ") failed although " << long(init) + posted_before
                   << " permits had been given and only " << begun << " other waits were begun");
        }
        if (!ok) trying.fetch_sub(1);   // after the judgement: it took none
      }
    });
    consumers.push_back(ts.t.back().native_handle());
  }
  for (int p = 0; p < np; ++p) ts.add([&, p]()
  {
    mon::Rng q(seed + 977 * uint64_t(p) + 5);
    start.wait();
    for (int i = 0; i < per; ++i)
    {
      ++posting;
      s.post();
      ++posted;
      if (q.chance(20)) mon::sleep_us(q.range(0, 150));
      else if (q.chance(20)) sched_yield();
    }
  });
  {
    Pounder p(consumers, pound);
    mon::phase("conservation");
    // the consumers are alive while they are signalled
    mon::wait_for([&]() { return taken.load() >= total - 1 || mon::g().case_failed.load(); }, pound ? 3 : 0);
    p.end();
  }
  ts.join();
  sched_perturb(0, 0);
  MON_CHECK(taken == total, "permit-lost", taken << " successful waits for " << total << " permits");
  if (timed((Sem *)0)) MON_CHECK(!take(s, TRY, 0), "permit-invented", "a permit is left although all were taken");
  mon::stat("obs.permits", uint64_t(total));
  mon::stat("obs.failed_attempts", uint64_t(failed));
  mon::state(mon::Hash().add(init).add(uint64_t(np)).add(uint64_t(nc)).add(uint64_t(per)).add(uint64_t(failed)).add(pound));
  if (mon::want_sample()) mon::sample(std::to_string(np) + " posting and " + std::to_string(nc) + " waiting threads: " + std::to_string(total) + " permits, " + std::to_string(failed) + " failed waits");
}

// Waiters that are blocked for sure; each post lets exactly one of them through, signals let none through.
template <class Sem> void waiters(mon::Rng& r, bool patient)
{
  Sem s(0);
  const int n = int(r.range(1, 5));
  std::vector<int> kinds;
  for (int i = 0; i < n; ++i) kinds.push_back(timed((Sem *)0) ? (r.chance(40) ? int(PLAIN) : r.chance(50) ? int(REL) : int(ABS)) : int(PLAIN));
  std::atomic<int> in(0), through(0), returned(0);
  long data[8] = { 0 };
  Threads ts;
  std::vector<pthread_t> ids;
  std::atomic<bool> leave(false);
  for (int i = 0; i < n; ++i)
  {
    ts.add([&, i]()
    {
      ++in;
      const bool ok = take(s, kinds[size_t(i)], ENDLESS);
      MON_NOTE(ok, "waiter-failed", "a wait (" << kind_name(kinds[size_t(i)]) << ") failed long before its timeout");
      const int rank = through.fetch_add(1, std::memory_order_relaxed);
      if (ok && rank == 0 && n == 1) MON_NOTE(data[0] == 1, "stale", "what was written before the post is not visible");
      ++returned;
      while (!leave.load()) mon::sleep_us(50);   // stays alive while it is signalled
    });
    ids.push_back(ts.t.back().native_handle());
  }
  while (in.load() < n) sched_yield();
  {
    Pounder p(ids, r.chance(60));
    // once the waiting threads need patience
    if (patient) mon::stat("obs.long_waits", uint64_t(n));
    mon::sleep_us(patient ? r.range(2300000, 3300000) : r.chance(3) ? r.range(40000, 120000) : r.range(0, 2500));
    int given = 0;
    bool stuck = false;
    while (given < n && !stuck)
    {
      MON_NOTE(through.load() <= given, "permit-invented", through.load() << " waits succeeded with " << given << " permits");
      const int batch = int(r.range(1, n - given));
      data[0] = 1;
      for (int k = 0; k < batch; ++k) s.post();
      given += batch;
      mon::phase("waiting for " + std::to_string(given) + " of " + std::to_string(n) + " waiters");
      if (!mon::wait_for([&]() { return returned.load() >= given; }, 60000)) { mon::note_viol("permit-lost", "after " + std::to_string(given) + " posts only " + std::to_string(returned.load()) + " waits returned"); stuck = true; }
      if (r.chance(50)) mon::sleep_us(r.range(0, 500));
    }
    while (stuck && returned.load() < n) { s.post(); mon::sleep_us(1000); }
    p.end();
  }
  leave = true;
  ts.join();
  if (timed((Sem *)0)) MON_CHECK(!take(s, TRY, 0), "permit-invented", "a permit is left although all were taken");
  mon::stat("obs.waiters", uint64_t(n));
  mon::Hash h;
  for (int i = 0; i < n; ++i) h.add(uint64_t(kinds[size_t(i)]));
  mon::state(h.add(r.below(100)));
}

// Trial waits compete for single permits: each permit is taken once, and no trial waits for the next post.
static void trials(mon::Rng& r)
{
  TSem s(0);
  const int nt = int(r.range(2, 6)), n = int(r.range(20, 150));
  std::atomic<bool> leave(false);
  std::atomic<long> taken(0), tries(0);
  std::atomic<int> gone(0), posting(0);
  const uint64_t seed = r.next();
  sched_perturb(unsigned(r.below(4)) * 8, seed);
  Barrier start(nt + 1);
  Threads ts;
  for (int t = 0; t < nt; ++t) ts.add([&, t]()
  {
    mon::Rng q(seed + uint64_t(t));
    start.wait();
    while (!leave.load())
    {
      ++tries;
      if (take(s, TRY, 0))
      {
        const long k = ++taken;
        MON_NOTE(k <= posting.load(), "permit-invented", k << " successful trials with " << posting.load() << " permits");
      }
      else if (q.chance(10)) sched_yield();
    }
    ++gone;
  });
  start.wait();
  mon::phase("trials");
  bool stuck = false;
  for (int i = 0; i < n && !stuck; ++i)
  {
    const int batch = r.chance(20) ? int(r.range(1, 3)) : 1;
    posting += batch;
    for (int k = 0; k < batch; ++k) s.post();
    if (!mon::wait_for([&]() { return taken.load() >= posting.load(); }, 60000)) { mon::note_viol("permit-lost", std::to_string(taken.load()) + " of " + std::to_string(posting.load()) + " permits were taken by trials"); stuck = true; }
  }
  leave = true;
  if (!mon::wait_for([&]() { return gone.load() == nt; }, 60000))
  {
    mon::note_viol("trial-waited", std::to_string(nt - gone.load()) + " trial waits wait without a permit");
    while (gone.load() < nt) { s.post(); mon::sleep_us(1000); }
  }
  ts.join();
  sched_perturb(0, 0);
  mon::stat("obs.trials", uint64_t(tries.load()));
  mon::state(mon::Hash().add(71).add(uint64_t(nt)).add(uint64_t(n)));
}

// Everything written before a post is visible behind the wait that got its permit.
template <class Sem> void pipe_through(mon::Rng& r)
{
  const int cap = int(r.range(1, 6)), n = int(r.range(20, 300));
  Sem items(0), room(static_cast<size_t>(cap));
  struct Slot { long a; std::string s; } slot[6];
  const uint64_t seed = r.next();
  sched_perturb(unsigned(r.below(3)) * 8, seed);
  mon::phase("pipe");
  {
    Threads ts;
    ts.add([&]()
    {
      for (int i = 0; i < n; ++i)
      {
        if (!take(room, PLAIN, 0)) { i--; continue; }
        slot[i % cap].a = i; slot[i % cap].s = std::to_string(i);
        items.post();
      }
    });
    ts.add([&]()
    {
      for (int i = 0; i < n; ++i)
      {
        if (!take(items, PLAIN, 0)) { i--; continue; }
        MON_NOTE(slot[i % cap].a == i && slot[i % cap].s == std::to_string(i), "stale", "item " << i << " is " << slot[i % cap].a << " behind the wait");
        room.post();
      }
    });
  }
  sched_perturb(0, 0);
  mon::stat("obs.items", uint64_t(n));
  mon::state(mon::Hash().add(uint64_t(cap)).add(uint64_t(n)));
}

// scoped semaphores (logging): take one permit, give it back
static void scoped(mon::Rng& r)
{
  const int width = int(r.range(1, 3)), nt = int(r.range(2, 5)), ops = int(r.range(10, 60));
  LSem s(static_cast<size_t>(width));
  std::atomic<int> inside(0);
  long guarded = 0;
  const bool pound = r.chance(60);
  const uint64_t seed = r.next();
  sched_perturb(unsigned(r.below(3)) * 8, seed);
  std::atomic<bool> leave(false);
  std::atomic<int> finished(0);
  Threads ts;
  std::vector<pthread_t> ids;
  for (int t = 0; t < nt; ++t)
  {
    ts.add([&, t]()
    {
      mon::Rng q(seed + uint64_t(t));
      for (int i = 0; i < ops; ++i)
      {
        ScopedSemaphore sc(s);
        MON_NOTE(sc && sc.isDecremented(), "scoped", "a scoped semaphore did not decrement");
        const int n = inside.fetch_add(1, std::memory_order_relaxed) + 1;
        MON_NOTE(n <= width, "permit-invented", n << " threads are inside of scoped semaphores of width " << width);
        if (width == 1) ++guarded;
        if (q.chance(20)) mon::sleep_us(q.range(1, 100)); else if (q.chance(20)) sched_yield();
        inside.fetch_sub(1, std::memory_order_relaxed);
      }
      ++finished;
      while (!leave.load()) mon::sleep_us(50);
    });
    ids.push_back(ts.t.back().native_handle());
  }
  mon::phase("scoped semaphores");
  { Pounder p(ids, pound); while (finished.load() < nt) mon::sleep_us(50); p.end(); }
  leave = true;
  ts.join();
  sched_perturb(0, 0);
  if (width == 1) MON_CHECK(guarded == long(nt) * ops, "lost-update", guarded << " of " << nt * ops << " increments");
  for (int i = 0; i < width; ++i) MON_CHECK(s.wait(), "permit-lost", "a permit was not given back");
  mon::stat("obs.scoped", uint64_t(nt * ops));
  mon::state(mon::Hash().add(uint64_t(width)).add(uint64_t(nt)).add(uint64_t(ops)).add(pound));
}

static void on_signal(int) { }
void mon::setup()
{
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(SIGUSR1, &sa, NULL);
}
void mon::teardown() { stat("obs.perturbations", sched_points()); }
void mon::run_case(uint64_t index, Rng& r)
{
  switch (index % 8)
  {
    case 0: phase("sequence"); sequence<TSem>(r); break;
    case 1: conserve<TSem>(r); break;
    case 2: waiters<TSem>(r, index % 1600 == 2); break;
    case 3: pipe_through<TSem>(r); break;
    case 4: phase("sequence"); sequence<LSem>(r); break;
    case 5: if (r.chance(50)) conserve<LSem>(r); else pipe_through<LSem>(r); break;
    case 6: waiters<LSem>(r, index % 1600 == 6); break;
    case 7: if (index % 16 == 7) scoped(r); else trials(r); break;
  }
}
