// P34: life cycles of threads (icl_core_thread and icl_core_logging).
#include "mon_locks.h"
#include <dirent.h>
#include <sys/syscall.h>
#include "icl_core_thread/Thread.h"
#include "icl_core_logging/Thread.h"
using namespace locks;
namespace it = icl_core::thread;
namespace il = icl_core::logging;

static std::atomic<int> fail_create(0);
static std::atomic<long> created(0);
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern "C" int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
  if (fail_create.load() > 0) { --fail_create; return EAGAIN; }
  ++created;
  return __real_pthread_create(t, a, f, x);
}

// What a run does and what is known about it; outlives the thread object.
struct Plan
{
  int kind;                 // 0 return at once, 1 run for a while, 2 run until stopped, 3 run until released
  int64_t us;
  std::atomic<int> release;
  std::atomic<int> runs, ends, inside;
  std::atomic<long> tid;
  std::atomic<bool> saw_stop;
  std::atomic<int64_t> end_ns;
  long plain;               // written by the run without any synchronisation of its own
  Plan() : kind(0), us(0), release(0), runs(0), ends(0), inside(0), tid(0), saw_stop(false), end_ns(0), plain(0) { }
};
template <class T> static void body(T& self, Plan& p)
{
  const int n = p.inside.fetch_add(1, std::memory_order_relaxed);
  MON_NOTE(n == 0, "runs-twice", "the function runs twice at the same time");
  p.runs.fetch_add(1, std::memory_order_relaxed);
  p.tid.store(syscall(SYS_gettid), std::memory_order_relaxed);
  if (p.kind == 1) mon::sleep_us(p.us);
  if (p.kind == 2) { while (self.execute()) mon::sleep_us(20); p.saw_stop.store(true, std::memory_order_relaxed); }
  if (p.kind == 3) { while (p.release.load(std::memory_order_relaxed) == 0) mon::sleep_us(20); }
  ++p.plain;
  p.inside.fetch_sub(1, std::memory_order_relaxed);
  p.end_ns.store(real_ns(), std::memory_order_relaxed);
  p.ends.fetch_add(1, std::memory_order_relaxed);
}
struct TThread : public it::Thread
{
  Plan& p;
  explicit TThread(Plan& plan, const char *name = "monitored") : it::Thread(name), p(plan) { }
  virtual void run()
  {
    MON_NOTE(p.kind >= 2 || execute(), "execute", "execute() is false when the function starts although nobody stopped the thread");
    MON_NOTE(running(), "running", "running() is false inside of the thread");
    MON_NOTE(threadSelf(), "self", "threadSelf() is false inside of the thread");
    MON_NOTE(threadId() == selfId(), "self", "threadId() differs from selfId() inside of the thread");
    body(*this, p);
  }
};
struct LThread : public il::Thread
{
  Plan& p;
  explicit LThread(Plan& plan, const char * = "") : p(plan) { }
  virtual void run()
  {
    MON_NOTE(p.kind >= 2 || execute(), "execute", "execute() is false when the function starts although nobody stopped the thread");
    MON_NOTE(running(), "running", "running() is false inside of the thread");
    body(*this, p);
  }
};
template <class T> struct Name { static const char *get(); };
template <> const char *Name<TThread>::get() { return "thread"; }
template <> const char *Name<LThread>::get() { return "logging"; }

static size_t count_dir(const char *d)
{
  size_t n = 0;
  DIR *dir = opendir(d);
  if (!dir) mon::broken("no /proc");
  while (readdir(dir)) ++n;
  closedir(dir);
  return n;
}
static long vm_kb()
{
  FILE *f = fopen("/proc/self/status", "r");
  char l[256];
  long v = -1;
  while (f && fgets(l, sizeof l, f)) if (sscanf(l, "VmSize: %ld", &v) == 1) break;
  if (f) fclose(f);
  return v;
}

// the ways to wait that exist only for icl_core_thread
static bool wait_some(TThread& t, mon::Rng& r, int64_t& deadline, std::string& how)
{
  const int64_t to = r.chance(30) ? 0 : r.range(1000, 2000000);
  const int64_t now = real_ns();
  deadline = now + to;
  if (r.chance(50)) { how = "relative"; return t.wait(span_of(to)); }
  if (r.chance(20)) { how = "absolute, passed"; deadline = now - 1000000000; return t.wait(stamp_of(deadline)); }
  how = "absolute"; return t.wait(stamp_of(deadline));
}
static bool wait_some(LThread&, mon::Rng&, int64_t&, std::string&) { return false; }
static bool can_wait(TThread *) { return true; }
static bool can_wait(LThread *) { return false; }
static bool wait_ever(TThread& t, mon::Rng& r)
{ return r.chance(50) ? t.wait() : r.chance(50) ? t.wait(span_of(r.chance(60) ? -r.range(1, 5000000000ll) : 600000000000ll)) : t.wait(stamp_of(real_ns() + 600000000000ll)); }
static bool wait_ever(LThread&, mon::Rng&) { return true; }
static void identity(TThread& t)
{
  MON_CHECK(!t.threadSelf(), "self", "threadSelf() is true outside of the thread");
  MON_CHECK(!(t.threadId() == it::Thread::selfId()), "self", "threadId() is that of another thread");
}
static void identity(LThread&) { }
static void described(TThread& t, const std::string& name)
{
  MON_CHECK(t.getDescription() == name, "description", "a thread described by " << name.size() << " characters says " << mon::q(t.getDescription()));
  if (name.size() > 1000) mon::stat("obs.long_descriptions");
}
static void described(LThread&, const std::string&) { }

template <class T> static void lifecycle(mon::Rng& r)
{
  const size_t tasks0 = count_dir("/proc/self/task"), fds0 = count_dir("/proc/self/fd");
  Plan p;
  const int cycles = int(r.range(1, 6));
  mon::Hash h;
  h.add(Name<T>::get());
  sched_perturb(unsigned(r.below(3)) * 10, r.next());
  const std::string name = r.chance(70) ? "monitored" : std::string(r.below(r.chance(50) ? 300 : 4000), 'n');
  T *t = new T(p, name.c_str());
  described(*t, name);
  MON_CHECK(!t->running(), "running", "a thread that was never started is running");
  bool destroyed = false;
  for (int c = 0; c < cycles && !destroyed; ++c)
  {
    p.kind = int(r.below(4)); p.us = r.chance(6) ? r.range(40000, 90000) : r.range(0, 1500); p.release = 0;
    const int runs0 = p.runs, ends0 = p.ends;
    const long plain0 = p.plain;
    h.add(uint64_t(p.kind));
    mon::phase(std::string("start, kind ") + std::to_string(p.kind) + " of " + Name<T>::get());
    if (r.chance(15))
    {
      fail_create = 1;
      const bool ok = t->start();
      fail_create = 0;
      MON_CHECK(!ok, "start-lies", "start() reported success although no thread could be created");
      MON_CHECK(!t->running(), "running", "a thread that could not be started is running");
      t->stop(); t->join();
      mon::stat("obs.failed_starts");
    }
    MON_CHECK(t->start(), "start-failed", "start() failed");
    bool seen_end = false;
    if (p.kind >= 2)
    {
      MON_CHECK(t->running() && t->execute(), "running", "a started thread that was not stopped is not running");
      identity(*t);
      described(*t, name);
      if (r.chance(30))
      {
        MON_CHECK(t->start(), "start-failed", "start() of a running thread failed");
        mon::stat("obs.double_starts");
      }
      if (can_wait(t) && r.chance(60))
      {
        int64_t deadline = 0; std::string how;
        const bool w = wait_some(*t, r, deadline, how);
        const int64_t after = real_ns();
        MON_CHECK(!w, "wait-lies", "wait (" << how << ") reported the end of a thread that is running");
        MON_CHECK(after >= deadline - 5000, "wait-early", "wait (" << how << ") gave up " << deadline - after << " ns before its deadline");
        mon::stat("obs.waits_timed_out");
      }
    }
    else if (r.chance(50))
    {
      // it has ended by itself, long ago
      mon::phase("end of the run");
      while (t->running()) mon::sleep_us(50);
      if (r.chance(50)) mon::sleep_us(r.range(0, 300));
      seen_end = true;
      MON_CHECK(!t->running(), "running", "a thread that has ended is running again");
      mon::stat("obs.ended_before_join");
    }
    if (p.kind == 3)
    {
      p.release.store(1, std::memory_order_relaxed);
      if (r.chance(30)) t->stop();
    }
    if (p.kind == 2) t->stop();
    if (p.kind == 2 || p.kind == 3) if (r.chance(30)) { while (t->running()) sched_yield(); seen_end = true; }
    const int end = int(r.below(5));
    h.add(uint64_t(end)).add(seen_end);
    mon::phase(std::string("end of a run of ") + Name<T>::get() + (end == 0 ? ": wait" : end == 1 ? ": destroy" : end == 2 ? ": restart without join" : ": join"));
    if (end == 0 && can_wait(t))
    {
      const bool w = wait_ever(*t, r);
      MON_CHECK(w, "wait-failed", "wait() without (or with a ten minutes) timeout failed; the function had " << (p.ends > ends0 ? "" : "not ") << "returned");
      mon::stat("obs.waits");
    }
    else if (end == 1 && c > 0 && !t->running()) { delete t; destroyed = true; mon::stat("obs.destroyed_unjoined"); }
    else if (end == 2)
    {
      // started again without join: the old run must have been waited for
      while (t->running()) mon::sleep_us(20);
      p.kind = 0;
      MON_CHECK(t->start(), "start-failed", "starting again failed");
      t->join();
      MON_CHECK(p.runs - runs0 == 2 && p.ends - ends0 == 2, "run-count", "two starts made " << p.runs - runs0 << " runs of which " << p.ends - ends0 << " returned before join");
      MON_CHECK(p.plain == plain0 + 2, "invisible", "what the thread wrote is not visible behind join");
      mon::stat("obs.restarts");
      mon::stat("obs.runs");
    }
    else t->join();
    if (end != 2)
    {
      MON_CHECK(p.runs - runs0 == 1, "run-count", "one start made " << p.runs - runs0 << " runs");
      MON_CHECK(p.ends - ends0 == 1, "join-early", "join returned before the function did");
      MON_CHECK(p.plain == plain0 + 1, "invisible", "what the thread wrote is not visible behind join");
    }
    MON_CHECK(p.inside == 0, "join-early", "join returned before the function did");
    if (!destroyed)
    {
      MON_CHECK(!t->running(), "running", "a joined thread is running");
      MON_CHECK(!t->execute(), "execute", "execute() is true although the thread has ended");
      t->join();
      if (can_wait(t)) MON_CHECK(wait_ever(*t, r), "wait-failed", "wait() for a joined thread failed");
    }
    mon::stat("obs.runs");
    // the operating system's thread is gone (its entry disappears shortly after it was joined)
    if (r.chance(30))
    {
      mon::phase("tasks");
      MON_CHECK(mon::wait_for([&]() { return count_dir("/proc/self/task") <= tasks0; }, 20000), "thread-left", "threads before: " << tasks0 << ", after join: " << count_dir("/proc/self/task"));
    }
  }
  if (!destroyed) delete t;
  sched_perturb(0, 0);
  MON_CHECK(mon::wait_for([&]() { return count_dir("/proc/self/task") <= tasks0; }, 20000), "thread-left", "threads before: " << tasks0 << ", after: " << count_dir("/proc/self/task"));
  MON_CHECK(count_dir("/proc/self/fd") <= fds0, "descriptor-left", "descriptors before: " << fds0 << ", after: " << count_dir("/proc/self/fd"));
  mon::state(h);
  if (mon::want_sample()) mon::sample(std::string(Name<T>::get()) + " thread: " + std::to_string(cycles) + " cycles of start and join, " + std::to_string(p.runs) + " runs");
}

// A waiting thread and a stopping thread at the same time; the end of the run hits every point of the wait.
static void waiting(mon::Rng& r)
{
  Plan p;
  sched_perturb(unsigned(r.below(3)) * 10, r.next());
  TThread t(p);
  for (int c = 0; c < 10; ++c)
  {
    p.kind = int(r.below(2)) + 2; p.release = 0;
    const int ends0 = p.ends;
    if (p.kind == 2 && r.chance(40))
    {
      // stopped by another thread as soon as it is running
      mon::phase("stop while it starts");
      std::thread stopper([&]() { while (!t.running()) { } t.stop(); });
      MON_CHECK(t.start(), "start-failed", "start() failed");
      stopper.join();
      mon::phase("join after it was stopped while it started");
      if (r.chance(50)) t.join(); else MON_CHECK(t.wait(), "wait-failed", "wait() failed");
      MON_CHECK(p.ends == ends0 + 1, "run-count", "one start made " << p.ends - ends0 << " complete runs");
      mon::stat("obs.early_stops");
      mon::stat("obs.runs");
      continue;
    }
    MON_CHECK(t.start(), "start-failed", "start() failed");
    const int64_t delay = r.range(0, 300);
    const bool kind3 = p.kind == 3;
    std::thread helper([&]() { mon::sleep_us(delay); if (kind3) p.release.store(1, std::memory_order_relaxed); else t.stop(); });
    const int64_t to = r.chance(50) ? 600000000000ll : r.range(0, 600) * 1000;
    mon::phase("wait while it ends");
    const int64_t deadline = real_ns() + to;
    const bool w = r.chance(50) ? t.wait(span_of(to)) : t.wait(stamp_of(deadline));
    const int64_t after = real_ns();
    const bool ended = p.ends > ends0;
    if (w) MON_NOTE(ended, "wait-lies", "wait reported the end of a thread that is running");
    else
    {
      MON_NOTE(to < 600000000000ll, "wait-failed", "wait with ten minutes failed after " << after - (deadline - to) << " ns; the function had " << (ended ? "" : "not ") << "returned");
      MON_NOTE(after >= deadline - 5000, "wait-early", "wait gave up " << deadline - after << " ns before its deadline; the function had " << (ended ? "" : "not ") << "returned");
      mon::stat("obs.waits_timed_out");
    }
    helper.join();
    mon::phase("join after wait");
    t.join();
    MON_CHECK(p.ends > ends0 && p.inside == 0, "join-early", "join returned before the function did");
    mon::stat(w ? "obs.waits_while_ending" : "obs.waits_too_short");
    mon::stat("obs.runs");
  }
  sched_perturb(0, 0);
  mon::state(mon::Hash().add(r.next()));
}

// Threads that end before they are joined do not pile up.
template <class T> static void pile(mon::Rng& r)
{
  const int n = 60;
  const int how = int(r.below(5));   // 3: started again, 4: destroyed, without join
  Plan p;
  p.kind = 0;
  T *t = how == 0 || how == 4 ? NULL : new T(p);
  const long vm0 = vm_kb();
  long vm1 = 0;
  for (int i = 0; i < n; ++i)
  {
    mon::phase("pile");
    if (how == 0 || how == 4) t = new T(p);
    MON_CHECK(t->start(), "start-failed", "start() failed");
    if (how != 2) while (t->running()) mon::sleep_us(20);
    if (how < 3) t->join();
    if (how == 0 || how == 4) { delete t; t = NULL; }
    if (i == 19) vm1 = vm_kb();
  }
  const long vm2 = vm_kb();
  delete t;
  if (how >= 3) mon::stat("obs.piles_without_join");
  MON_CHECK(p.runs == n && p.ends == n, "run-count", n << " starts made " << p.runs << " runs");
  // glibc keeps a few stacks (40 MB) for reuse; a stack has 8 MB
  MON_CHECK(vm2 - vm1 < 120000, "stacks-left", "the last 40 of " << n << " joined threads left " << (vm2 - vm1) << " kB of address space (the first 20: " << vm1 - vm0 << ")");
  mon::stat("obs.piles");
  mon::stat("obs.runs", uint64_t(n));
  mon::state(mon::Hash().add(Name<T>::get()).add(uint64_t(how)));
}

// A thread that is cancelled can be joined, destroyed and started again.
struct CThread : public it::Thread
{
  std::atomic<int> runs, loop;
  CThread() : it::Thread("cancelled"), runs(0), loop(1) { }
  virtual void run() { ++runs; while (loop.load()) usleep(100); }
  bool wait_ok() { return it::Thread::wait(); }
};
static void cancel(mon::Rng& r)
{
  CThread *t = new CThread();
  const int n = int(r.range(1, 4));
  const bool join = r.chance(50);
  for (int i = 0; i < n; ++i)
  {
    mon::phase("start, then cancel, round " + std::to_string(i));
    MON_CHECK(t->start(), "start-failed", "start() failed");
    if (r.chance(70)) while (t->runs <= i) sched_yield();
    t->cancel();
    MON_CHECK(!t->execute(), "execute", "execute() is true after cancel");
    mon::phase("join after cancel");
    if (join || i + 1 == n) t->join();
    MON_CHECK(!t->running(), "running", "a cancelled thread is running");
  }
  if (r.chance(70))
  {
    mon::phase("start after cancel");
    t->loop = 0;
    const int runs = t->runs;
    MON_CHECK(t->start(), "start-failed", "a cancelled thread cannot be started again");
    const bool w = t->wait_ok();
    MON_CHECK(w && t->runs == runs + 1, "run-count", "a thread started after cancel made " << t->runs - runs << " runs");
  }
  mon::phase("destroy after cancel");
  delete t;
  mon::stat("obs.cancelled", uint64_t(n));
  mon::state(mon::Hash().add(uint64_t(n)).add(join));
}

void mon::setup()
{
  // the first thread also starts the threads of the logging framework and of the sanitizer
  Plan p;
  TThread t(p); p.kind = 3; t.start();
  t.wait(span_of(1000000));   // fails, which is logged
  p.release = 1; t.join();
  p.kind = 0;
  LThread l(p); l.start(); l.join();
  mon::sleep_us(20000);
}
void mon::teardown() { stat("obs.perturbations", sched_points()); }
void mon::run_case(uint64_t index, Rng& r)
{
  const bool tsan = cfg().mode == "tsan";
  switch (index % 8)
  {
    case 0: case 4: lifecycle<TThread>(r); break;
    case 1: case 5: lifecycle<LThread>(r); break;
    case 2: case 6: waiting(r); break;
    case 3: if (tsan || index % 32 > 15) lifecycle<TThread>(r); else if (index % 16 == 3) pile<TThread>(r); else pile<LThread>(r); break;
    case 7: if (tsan || cfg().mode == "asan") waiting(r); else cancel(r); break;
  }
}
