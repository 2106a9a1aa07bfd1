// P35: wake-ups of periodic threads.
#include "mon_locks.h"
#include <deque>
#include <dirent.h>
#include <sys/syscall.h>
#include "icl_core_thread/PeriodicThread.h"
#include "icl_core_thread/PeriodicThreadImplEmulate.h"
using namespace locks;
namespace it = icl_core::thread;

static int64_t mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return int64_t(t.tv_sec) * 1000000000 + t.tv_nsec; }
static int64_t ns_of(const icl_core::TimeSpan& s) { return s.tsSec() * 1000000000ll + s.tsNSec(); }
static size_t count_fds()
{
  size_t n = 0;
  DIR *dir = opendir("/proc/self/fd");
  if (!dir) mon::broken("no /proc");
  while (readdir(dir)) ++n;
  closedir(dir);
  return n;
}

// One wake-up: when its wait was called and when it returned.
struct Wake { int64_t called, woke; };
// A script of one run; lives longer than the thread.
struct Script
{
  int waits;                            // number of waits, 0: until stopped
  std::vector<int64_t> work;            // ns of work before each wait
  std::vector<int64_t> change;          // ns of a new period set before that wait, or 0
  bool change_twice;
  std::vector<Wake> w;
  std::vector<std::pair<size_t, int64_t> > changes;   // (index of the next wake-up, time before the call)
  std::atomic<int> waiting, done, inside, wakes;
  pthread_t self;
  Script() : waits(0), change_twice(false), waiting(0), done(0), inside(0), wakes(0), self() { }
};
struct PT : public it::PeriodicThread
{
  Script& s;
  PT(Script& script, int64_t period_ns) : it::PeriodicThread("periodic", span_of(period_ns)), s(script) { }
  void run()
  {
    s.self = pthread_self();
    s.inside.store(1, std::memory_order_release);
    for (int i = 0; s.waits == 0 ? execute() : i < s.waits; ++i)
    {
      if (size_t(i) < s.work.size() && s.work[size_t(i)] > 0)
      {
        if (s.work[size_t(i)] % 2) { const int64_t e = mono() + s.work[size_t(i)]; while (mono() < e) { } }
        else mon::sleep_us(s.work[size_t(i)] / 1000);
      }
      if (size_t(i) < s.change.size() && s.change[size_t(i)] > 0)
      {
        s.changes.push_back(std::make_pair(s.w.size(), mono()));
        if (s.change_twice) setPeriod(span_of(1000000000000ll));
        const int64_t before = mono();
        s.changes.back().second = before;
        MON_NOTE(setPeriod(span_of(s.change[size_t(i)])), "set-failed", "setPeriod(" << s.change[size_t(i)] << " ns) failed");
        MON_NOTE(ns_of(period()) == s.change[size_t(i)], "period", "period() is " << ns_of(period()) << " ns behind setPeriod(" << s.change[size_t(i)] << " ns)");
      }
      Wake k;
      k.called = mono();
      s.waiting.store(1, std::memory_order_relaxed);
      waitPeriod();
      s.waiting.store(0, std::memory_order_relaxed);
      k.woke = mono();
      s.w.push_back(k);
      s.wakes.fetch_add(1, std::memory_order_relaxed);
    }
    s.done.store(1, std::memory_order_relaxed);
  }
};

// What holds for every run with one period: wake-up k comes at least k periods after `from`; and m waits that begin at
// time A last more than m-2 periods, however late the thread was before.
static void judge(const std::vector<Wake>& w, size_t lo, size_t hi, int64_t from, int64_t p, const char *what)
{
  for (size_t k = lo; k < hi; ++k)
  {
    const int64_t due = from + int64_t(k - lo + 1) * p;
    MON_CHECK(w[k].woke >= due, std::string("early:") + what, "wake-up " << k - lo + 1 << " of period " << p << " ns came " << due - w[k].woke << " ns early");
    mon::stat("obs.wakes_judged");
    if (w[k].woke - w[k].called < p / 20) mon::stat("obs.overruns");
  }
  for (size_t a = lo; a < hi; ++a) for (size_t b = a; b < hi; ++b)
    MON_CHECK(w[b].woke - w[a].called > (int64_t(b - a) - 1) * p, std::string("burst:") + what,
              b - a + 1 << " waits of a period of " << p << " ns that began " << w[b].woke - w[a].called << " ns before the last of them returned");
}

static int64_t some_period(mon::Rng& r) { return r.chance(50) ? r.range(200, 3000) * 1000 : r.range(300000, 4000000); }

static void steady(mon::Rng& r)
{
  Script s;
  const int64_t p = some_period(r);
  s.waits = int(r.range(3, 25));
  const bool load = r.chance(60);
  for (int i = 0; load && i < s.waits; ++i) s.work.push_back(r.chance(60) ? 0 : r.range(0, p * 4) | (r.chance(50) ? 1 : 0));
  PT t(s, p);
  MON_CHECK(ns_of(t.period()) == p, "period", "period() is " << ns_of(t.period()) << " ns although constructed with " << p);
  // a start after earlier runs, at a new period
  int64_t q = p;
  const int rounds = int(r.range(1, 3));
  for (int i = 0; i < rounds; ++i)
  {
    if (i > 0 || r.chance(30))
    {
      q = some_period(r);
      mon::phase("setPeriod outside of a run");
      MON_CHECK(t.setPeriod(span_of(q)), "set-failed:stopped", "setPeriod(" << q << " ns) failed while the thread is not running");
      MON_CHECK(ns_of(t.period()) == q, "period", "period() is " << ns_of(t.period()) << " ns behind setPeriod(" << q << " ns)");
    }
    s.w.clear();
    mon::phase("run with period " + std::to_string(q));
    const int64_t from = mono();
    MON_CHECK(t.start(), "start-failed", "start() failed");
    t.join();
    MON_CHECK(int(s.w.size()) == s.waits, "run-count", "one start, " << s.w.size() << " of " << s.waits << " waits");
    judge(s.w, 0, s.w.size(), from, q, load ? "load" : "idle");
  }
  mon::state(mon::Hash().add(uint64_t(p / 100000)).add(uint64_t(load)).add(uint64_t(s.waits)));
  if (mon::want_sample()) mon::sample("period " + std::to_string(p) + " ns, " + std::to_string(s.waits) + " waits, " + (load ? "with" : "without") + " overruns, " + std::to_string(rounds) + " runs");
}

// Periods of seconds, many threads side by side.
static void slow(mon::Rng& r)
{
  const int n = 24;
  std::deque<Script> scripts(n);
  std::vector<PT *> ts;
  std::vector<int64_t> from, period;
  mon::phase("periods of seconds");
  for (int i = 0; i < n; ++i)
  {
    int64_t p = i % 3 == 0 ? r.range(8, 10) * 1000000000 + r.range(0, 400000000) : i % 3 == 1 ? r.range(1, 7) * 1000000000 + r.range(0, 999999999) : r.range(1, 9) * 1000000000;
    Script& s = scripts[size_t(i)];
    s.waits = std::max(1, int(10500000000 / p));
    const bool later = r.chance(30);
    if (later) { s.change.push_back(p); s.change_twice = r.chance(50); }
    PT *t = new PT(s, later ? r.range(1, 1000) * 1000000 : p);
    from.push_back(mono()); period.push_back(p);
    MON_CHECK(t->start(), "start-failed", "start() failed");
    ts.push_back(t);
  }
  for (int i = 0; i < n; ++i)
  {
    ts[size_t(i)]->join();
    const Script& s = scripts[size_t(i)];
    MON_CHECK(int(s.w.size()) == s.waits, "run-count", "one start, " << s.w.size() << " of " << s.waits << " waits");
    judge(s.w, 0, s.w.size(), s.changes.empty() ? from[size_t(i)] : s.changes[0].second, period[size_t(i)], "seconds");
    mon::stat("obs.slow_wakes", s.w.size());
    mon::state(mon::Hash().add(77).add(uint64_t(period[size_t(i)] / 100000000)));
    delete ts[size_t(i)];
  }
}

// No drift: over many periods without a gap the wake-ups stay on the grid.
static void grid(mon::Rng& r)
{
  const int64_t p = r.range(1000, 1600) * 1000;
  for (int attempt = 0; attempt < 6; ++attempt)
  {
    Script s;
    s.waits = 150;
    for (int i = 0; i < s.waits; ++i) s.work.push_back(200001);
    mon::phase("grid");
    const int64_t from = mono();
    PT t(s, p);
    t.start(); t.join();
    judge(s.w, 0, s.w.size(), from, p, "grid");
    bool gap = false;
    for (size_t i = 1; i < s.w.size(); ++i) gap = gap || s.w[i].woke - s.w[i - 1].woke > p + p / 2;
    if (gap) { mon::stat("obs.disturbed_grids"); continue; }   // the machine was busy
    const int64_t took = s.w.back().woke - s.w.front().woke, want = int64_t(s.w.size() - 1) * p;
    mon::stat("obs.grids");
    if (took <= want + 4 * p) { mon::state(mon::Hash().add(uint64_t(p / 20000))); return; }
    if (attempt == 5) MON_CHECK(false, "drift", s.w.size() - 1 << " periods of " << p << " ns without an overrun took " << took << " ns");
  }
}

static void changing(mon::Rng& r)
{
  Script s;
  const int64_t p = r.chance(30) ? 100000000000ll : some_period(r);
  int64_t q = 0;
  s.change_twice = r.chance(30);
  const int segments = int(r.range(1, 4));
  std::vector<int64_t> per;
  for (int g = 0; g < segments; ++g)
  {
    const int n = int(r.range(1, 8));
    for (int i = 0; i < n; ++i)
    {
      s.work.push_back(r.chance(70) ? 0 : r.range(0, 2000000));
      s.change.push_back(0);
    }
    q = some_period(r);
    s.change[s.change.size() - size_t(n)] = q;
    per.push_back(q);
  }
  s.waits = int(s.work.size());
  PT t(s, p);
  mon::phase("run with changes of the period");
  MON_CHECK(t.start(), "start-failed", "start() failed");
  t.join();
  MON_CHECK(s.w.size() == size_t(s.waits) && s.changes.size() == per.size(), "run-count", "the run is incomplete");
  for (size_t g = 0; g < per.size(); ++g)
    judge(s.w, s.changes[g].first, g + 1 < per.size() ? s.changes[g + 1].first : s.w.size(), s.changes[g].second, per[g], "changed");
  mon::stat("obs.period_changes", per.size());
  MON_CHECK(ns_of(t.period()) == q, "period", "period() is not what was set last");
  // a period that is no period is refused and changes nothing
  mon::phase("negative period");
  MON_CHECK(!t.setPeriod(icl_core::TimeSpan(-1, -5)), "set-lies", "setPeriod(a negative time) reported success");
  MON_CHECK(ns_of(t.period()) == q, "period:refused", "period() is " << ns_of(t.period()) << " ns after setPeriod failed, before: " << q);
  mon::state(mon::Hash().add(uint64_t(segments)).add(uint64_t(q / 100000)).add(uint64_t(p == 100000000000ll)));
}

// Another thread changes the period of a thread that waits for a very long time, and asks for it.
static void foreign(mon::Rng& r)
{
  Script s;
  sched_perturb(10, r.next());
  const int64_t a = r.range(200, 900) * 1000, b = a + r.range(1, 900) * 1000;
  const bool sleeper = r.chance(40);
  const int64_t from = mono();
  PT t(s, sleeper ? 1000000000000ll : a);
  MON_CHECK(t.start(), "start-failed", "start() failed");
  if (sleeper && r.chance(70)) { while (s.waiting.load() == 0) sched_yield(); mon::sleep_us(r.range(0, 300)); }
  Threads th;
  const int n = int(r.range(1, 2));
  for (int i = 0; i < n; ++i)
  {
    mon::Rng q(r.next());
    th.add([&t, q, a, b]() mutable {
      for (int k = 0; k < 30; ++k)
      {
        if (q.chance(60)) { MON_NOTE(t.setPeriod(span_of(q.chance(50) ? a : b)), "set-failed", "setPeriod of a running thread failed"); }
        const int64_t p = ns_of(t.period());
        MON_NOTE(p == a || p == b || p == 1000000000000ll, "period", "period() is " << p << " ns, which nobody has set");
        if (q.chance(30)) mon::sleep_us(q.range(0, 500));
      }
    });
  }
  th.join();
  MON_CHECK(t.setPeriod(span_of(a)), "set-failed", "setPeriod of a running thread failed");
  mon::phase("wakes after the period was shortened by another thread");
  const int before = s.wakes;
  while (s.wakes < before + 2) mon::sleep_us(50);
  mon::phase("stop");
  t.stop();
  t.join();
  sched_perturb(0, 0);
  for (size_t k = 0; k < s.w.size(); ++k)
    MON_CHECK(s.w[k].woke >= from + int64_t(k + 1) * a, "early:foreign", "wake-up " << k + 1 << " came " << s.w[k].woke - from << " ns after the start although every period was at least " << a << " ns");
  mon::stat("obs.foreign_changes", uint64_t(n) * 30);
  mon::stat("obs.wakes_judged", s.w.size());
  mon::state(mon::Hash().add(uint64_t(a / 50000)).add(sleeper).add(uint64_t(n)));
}

// A signal that is handled in the thread is no wake-up.
static std::atomic<int> handled(0);
static void handler(int) { handled.fetch_add(1, std::memory_order_relaxed); }
static void signals(mon::Rng& r)
{
  Script s;
  const int64_t p = r.range(1000, 8000) * 1000;
  s.waits = int(r.range(2, 6));
  const int64_t from = mono();
  PT t(s, p);
  mon::phase("run with signals");
  const int h0 = handled;
  MON_CHECK(t.start(), "start-failed", "start() failed");
  while (s.inside.load(std::memory_order_acquire) == 0) sched_yield();
  while (s.done == 0)
  {
    // the thread is joined below, so it can still be signalled here
    if (s.waiting) pthread_kill(s.self, SIGUSR1);
    mon::sleep_us(r.range(50, 1500));
  }
  t.join();
  judge(s.w, 0, s.w.size(), from, p, "signal");
  mon::stat("obs.signals", uint64_t(handled - h0));
  mon::state(mon::Hash().add(uint64_t(s.waits)).add(uint64_t(handled - h0)));
}

// Starts, stops and destructions leave no descriptors.
static void descriptors(mon::Rng& r)
{
  const size_t fds0 = count_fds();
  Script s;
  const int n = int(r.range(2, 10));
  {
    PT t(s, 1000000);
    const int fresh = int(r.below(3));
    for (int i = 0; i < n; ++i)
    {
      s.waits = int(r.below(3)); s.w.clear();
      Script s2; s2.waits = 1;
      PT *u = fresh == 0 ? new PT(s2, 1000000) : &t;
      mon::phase("start and stop");
      if (r.chance(80))
      {
        MON_CHECK(u->start(), "start-failed", "start() failed");
        if (r.chance(50)) u->stop();
        u->stop();
        u->join();
      }
      if (u != &t) delete u;
    }
    // one descriptor may belong to the thread that still exists
    MON_CHECK(count_fds() <= fds0 + 1, "descriptor-left", n << " starts of a periodic thread left " << count_fds() - fds0 << " descriptors");
    mon::state(mon::Hash().add(uint64_t(n)).add(uint64_t(fresh)));
  }
  MON_CHECK(count_fds() <= fds0, "descriptor-left:destroyed", "a destroyed periodic thread left " << count_fds() - fds0 << " descriptors");
  mon::stat("obs.descriptor_checks");
}

// The portable implementation: at least a period between two wake-ups, the first included.
static void emulated(mon::Rng& r)
{
  // signals handled in the thread are no wake-ups here either
  struct Pounder
  {
    std::atomic<bool> stop; std::thread t;
    Pounder(bool on, uint64_t seed) : stop(!on) { const pthread_t who = pthread_self(); if (on) t = std::thread([this, who, seed]() { mon::Rng q(seed); while (!stop.load()) { pthread_kill(who, SIGUSR1); mon::sleep_us(q.range(50, 800)); } }); }
    ~Pounder() { stop = true; if (t.joinable()) t.join(); }
  };
  const bool pound = r.chance(40);
  const Pounder pounder(pound, r.next());
  if (pound) mon::stat("obs.emulated_with_signals");
  int64_t p = r.chance(30) ? 1000000000000ll : some_period(r);
  it::PeriodicThreadImplEmulate e(span_of(p));
  MON_CHECK(ns_of(e.period()) == p, "period", "period() of the emulation");
  bool sleeper = p == 1000000000000ll;
  const int rounds = int(r.range(1, 2));
  for (int k = 0; k < rounds; ++k)
  {
    // `least`: the earliest moment that the emulation can take for its last execution (its clock counts microseconds)
    int64_t last = real_ns(), least = last - 1000;
    e.makePeriodic();
    const int n = int(r.range(2, 8));
    for (int i = 0; i < n; ++i)
    {
      if (sleeper || r.chance(20))
      {
        p = some_period(r); sleeper = false;
        MON_CHECK(e.setPeriod(span_of(p)), "set-failed:emulated", "setPeriod(" << p << " ns) of the emulation failed");
        MON_CHECK(ns_of(e.period()) == p, "period", "period() of the emulation is " << ns_of(e.period()) << " ns behind setPeriod(" << p << " ns)");
        mon::stat("obs.emulated_changes");
      }
      if (r.chance(40)) mon::sleep_us(r.range(0, 3 * p / 1000));
      mon::phase("emulated wait");
      const int64_t called = real_ns();
      e.waitPeriod();
      const int64_t now = real_ns();
      least = std::max(least + p, called - 1000);
      MON_CHECK(now >= least, "early:emulated", "wake-up " << i + 1 << " of the emulation came " << now - last << " ns after " << (i ? "the one before was seen" : "its begin") << " and " << least - now << " ns too early, period " << p << " ns");
      last = now;
      mon::stat("obs.emulated_wakes");
    }
  }
  mon::state(mon::Hash().add(uint64_t(p / 100000)).add(uint64_t(rounds)));
}

void mon::setup()
{
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_handler = handler;   // no SA_RESTART
  sigaction(SIGUSR1, &a, NULL);
  Script s; s.waits = 1;
  PT t(s, 1000000); t.start(); t.join();
}
void mon::teardown() { stat("obs.perturbations", sched_points()); }
void mon::run_case(uint64_t index, Rng& r)
{
  if (index % 600 == 100) { slow(r); return; }
  switch (index % 10)
  {
    case 0: case 1: case 2: steady(r); break;
    case 3: case 4: changing(r); break;
    case 5: case 6: foreign(r); break;
    case 7: signals(r); break;
    case 8: descriptors(r); break;
    case 9: if (index % 30 == 9 && cfg().mode != "tsan") grid(r); else emulated(r); break;
  }
}
