// P37: operations of periodic dispatch threads.
#include "mon_locks.h"
#include <boost/bind.hpp>
#include <sys/syscall.h>
#include "icl_core_dispatch/PeriodicDispatchThread.h"
#include "icl_core_dispatch/CallbackOperation.h"
#include "icl_core_dispatch/Operation.h"
using namespace locks;
namespace id = icl_core::dispatch;

static int64_t mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return int64_t(t.tv_sec) * 1000000000 + t.tv_nsec; }

struct Run { int op; uint64_t begin, end; int64_t at, left; long tid; };
struct Log
{
  std::vector<Run> v;             // only written by the dispatching thread
  std::atomic<int> inside, n;
  Log() : inside(0), n(0) { }
};
struct World;
struct Work
{
  World *w; int id; int64_t us; int adds;
  std::atomic<int> count;
  std::atomic<int> *gate;         // the first execution waits for it
  Work() : w(NULL), id(0), us(0), adds(0), count(0), gate(NULL) { }
  void operator()();
};
struct Op : public id::Operation
{
  Work& k;
  explicit Op(Work& work) : k(work) { }
  virtual void execute() { k(); }
};
// One registration of an operation
struct Reg { int op; uint64_t call, ret; };
struct World
{
  Log log;
  std::vector<Work *> works;
  std::vector<id::Operation *> ops;
  std::atomic<uint64_t> stopped;
  id::PeriodicDispatchThread *t;
  std::vector<Reg> by_thread[3];  // registrations: by the main thread, by another thread, by operations
  int next_from_op;
  std::atomic<bool> order_known;
  World() : stopped(0), t(NULL), next_from_op(0), order_known(true) { }
  ~World() { for (size_t i = 0; i < ops.size(); ++i) { delete ops[i]; delete works[i]; } }
  int make(mon::Rng& r)
  {
    Work *k = new Work();
    k->w = this; k->id = int(works.size());
    works.push_back(k);
    if (r.chance(50)) ops.push_back(new Op(*k));
    else ops.push_back(new id::CallbackOperation(boost::bind(&Work::operator(), k)));
    return k->id;
  }
  void add(int op, int who)
  {
    Reg g; g.op = op;
    g.call = tick();
    t->addOperation(ops[size_t(op)]);
    g.ret = tick();
    by_thread[who].push_back(g);
  }
};
void Work::operator()()
{
  Log& l = w->log;
  MON_NOTE(l.inside.fetch_add(1, std::memory_order_relaxed) == 0, "concurrent", "two operations are executed at the same time");
  Run e;
  e.op = id; e.tid = syscall(SYS_gettid); e.at = mono(); e.begin = tick();
  if (us > 0) mon::sleep_us(us);
  if (gate) { gate->store(1); while (gate->load() != 2) mon::sleep_us(50); gate = NULL; }
  if (adds > 0) { --adds; w->add(w->next_from_op++, 2); }
  e.end = tick();
  e.left = mono();
  l.v.push_back(e);
  count.fetch_add(1, std::memory_order_relaxed);
  l.inside.fetch_sub(1, std::memory_order_relaxed);
  l.n.fetch_add(1, std::memory_order_relaxed);
}

static void dispatch(mon::Rng& r)
{
  World w;
  const int64_t p = r.range(200, 1500) * 1000;
  sched_perturb(unsigned(r.below(3)) * 10, r.next());
  w.t = new id::PeriodicDispatchThread("dispatch", span_of(p));
  const int before = int(r.chance(15) ? r.range(5, 60) : r.range(1, 4)), foreign = r.chance(50) ? int(r.range(1, 4)) : 0, own = int(r.below(4)), nested = r.chance(30) ? int(r.range(1, 3)) : 0;
  for (int i = 0; i < before + foreign + own; ++i)
  {
    const int k = w.make(r);
    if (r.chance(15)) w.works[size_t(k)]->us = r.range(1, 2500);
  }
  w.next_from_op = int(w.works.size());
  for (int i = 0; i < nested; ++i) w.make(r);
  if (nested) w.works[0]->adds = nested;
  const int rounds = int(r.range(1, 3));
  size_t judged = 0;
  uint64_t n_rounds = 0;
  int registered_before = 0;
  for (int i = 0; i < before; ++i) w.add(i, 0);
  const bool twice = before > 1 && r.chance(25);
  if (twice) w.add(before - 1, 0);
  registered_before = int(w.by_thread[0].size());
  int next_own = before + foreign;
  bool destroyed = false;
  for (int round = 0; round < rounds && !destroyed; ++round)
  {
    w.stopped = 0;
    mon::phase("start");
    const uint64_t start_tick = tick();
    const int64_t from = mono();
    MON_CHECK(w.t->start(), "start-failed", "start() failed");
    Threads th;
    if (round == 0 && foreign > 0)
    {
      mon::Rng q(r.next());
      th.add([&w, q, before, foreign]() mutable {
        for (int i = 0; i < foreign; ++i) { mon::sleep_us(q.range(0, 900)); w.add(before + i, 1); }
      });
    }
    const int own_now = round + 1 == rounds ? before + foreign + own - next_own : int(r.below(uint64_t(before + foreign + own - next_own + 1)));
    for (int i = 0; i < own_now; ++i) { mon::sleep_us(r.range(0, 900)); w.add(next_own++, 0); }
    th.join();
    // everything registered is executed, twice
    mon::phase("execution of all registered operations");
    const int want = int(r.range(1, 4));
    {
      std::vector<int> c0;
      for (size_t k = 0; k < w.works.size(); ++k) c0.push_back(w.works[k]->count);
      for (int k = 0; k < next_own; ++k)
      {
        if (k >= before && k < before + foreign + 0 && w.by_thread[1].empty()) continue;
        while (w.works[size_t(k)]->count < c0[size_t(k)] + want) mon::sleep_us(50);
      }
    }
    w.stopped = tick();
    mon::phase("stop");
    if (round + 1 == rounds && r.chance(40)) { delete w.t; w.t = NULL; destroyed = true; mon::stat("obs.destroyed_running"); }
    else { w.t->stop(); w.t->join(); }
    const int n1 = w.log.n;
    if (r.chance(30)) mon::sleep_us(2 * p / 1000);
    MON_CHECK(w.log.n == n1 && int(w.log.v.size()) == n1, "after-stop", "operations are executed behind stop and join");

    // judgement: the order of registration
    std::vector<Reg> regs;
    for (int k = 0; k < 3; ++k) regs.insert(regs.end(), w.by_thread[k].begin(), w.by_thread[k].end());
    // the log in rounds: the first operation begins each
    const std::vector<Run>& v = w.log.v;
    std::vector<std::pair<size_t, size_t> > rd;
    for (size_t i = judged; i < v.size(); ++i)
    {
      MON_CHECK(v[i].tid == v[judged].tid && v[i].tid != syscall(SYS_gettid), "wrong-thread", "operations of one run are executed in different threads");
      if (v[i].op == 0) rd.push_back(std::make_pair(i, i));
      MON_CHECK(!rd.empty(), "order", "a period begins with operation " << v[i].op << " although another one was registered first");
      rd.back().second = i + 1;
    }
    std::vector<int> longest;
    for (size_t k = 0; k < rd.size(); ++k)
    {
      std::vector<int> seq;
      for (size_t i = rd[k].first; i < rd[k].second; ++i) seq.push_back(v[i].op);
      const bool last = k + 1 == rd.size();
      // the sequence of one period continues that of the one before
      const std::vector<int>& base = longest;
      for (size_t i = 0; i < seq.size() && i < base.size(); ++i)
        MON_CHECK(seq[i] == base[i], "order", "period " << k << " executes operation " << seq[i] << " at place " << i << ", the period before operation " << base[i]);
      MON_CHECK(last || seq.size() >= base.size(), "missing", "period " << k << " executes " << seq.size() << " operations, the one before " << base.size());
      // each registration at most once, in the order of registration as far as it is known, and not before it was registered
      std::vector<bool> used(regs.size(), false);
      uint64_t latest = 0;
      for (size_t i = 0; i < seq.size(); ++i)
      {
        size_t g = 0;
        while (g < regs.size() && (used[g] || regs[g].op != seq[i])) ++g;
        MON_CHECK(g < regs.size(), "twice", "operation " << seq[i] << " is executed more often than once per registration and period");
        used[g] = true;
        MON_CHECK(regs[g].call < v[rd[k].first + i].begin, "unregistered", "operation " << seq[i] << " is executed before it is registered");
        MON_CHECK(regs[g].ret > latest, "order", "operation " << seq[i] << " is executed behind one that was registered later");
        if (regs[g].call > latest) latest = regs[g].call;
      }
      // all that was registered when the period before ended
      const uint64_t since = k == 0 ? start_tick : v[rd[k - 1].second - 1].end;
      const bool cut = last && v[rd[k].second - 1].end > w.stopped;   // ended by stop
      for (size_t g = 0; g < regs.size() && !cut; ++g)
        MON_CHECK(used[g] || regs[g].ret > since, "missing", "operation " << regs[g].op << " is not executed in period " << k << " although it was registered before");
      if (seq.size() > longest.size()) longest = seq;
      MON_CHECK(v[rd[k].first].at >= from + int64_t(k) * p, "early", "period " << k << " began " << from + int64_t(k) * p - v[rd[k].first].at << " ns early");
      for (size_t a = 0; a < k; ++a)
        MON_CHECK(v[rd[k].first].at - v[rd[a].first].at > (int64_t(k - a) - 2) * p, "burst", k - a << " periods of " << p << " ns passed in " << v[rd[k].first].at - v[rd[a].first].at << " ns");
      mon::stat("obs.periods");
    }
    mon::stat("obs.executions", v.size() - judged);
    judged = v.size();
    n_rounds += rd.size();
  }
  mon::phase("destruction");
  delete w.t; w.t = NULL;
  sched_perturb(0, 0);
  mon::stat("obs.registered_while_running", uint64_t(w.by_thread[0].size() - size_t(registered_before) + w.by_thread[1].size() + w.by_thread[2].size()));
  mon::state(mon::Hash().add(uint64_t(before)).add(uint64_t(foreign)).add(uint64_t(own)).add(uint64_t(nested)).add(uint64_t(rounds)).add(twice).add(n_rounds));
  if (mon::want_sample()) mon::sample("period " + std::to_string(p) + " ns, " + std::to_string(rounds) + " runs with " + std::to_string(n_rounds) + " periods, registered before/by another thread/while running/by operations: "
                                      + std::to_string(before) + "/" + std::to_string(foreign) + "/" + std::to_string(own) + "/" + std::to_string(nested));
}

// Operations are added while another one is executed, which does not end before.
static void meanwhile(mon::Rng& r)
{
  World w;
  w.t = new id::PeriodicDispatchThread("meanwhile", span_of(r.range(200, 1500) * 1000));
  const int n = int(r.range(1, 4)), more = int(r.range(1, 5)), at = int(r.below(uint64_t(n)));
  for (int i = 0; i < n + more; ++i) w.make(r);
  std::atomic<int> gate(0);
  w.works[size_t(at)]->gate = &gate;
  for (int i = 0; i < n; ++i) w.add(i, 0);
  MON_CHECK(w.t->start(), "start-failed", "start() failed");
  mon::phase("execution of an operation that waits");
  while (gate.load() != 1) mon::sleep_us(50);
  mon::phase("registration of operations while another one is executed");
  const bool other = r.chance(50);
  {
    Threads th;
    if (other) th.add([&w, n, more]() { for (int i = 0; i < more; ++i) w.add(n + i, 1); });
    else for (int i = 0; i < more; ++i) w.add(n + i, 0);
    th.join();
  }
  for (int i = 0; i < more; ++i)
    MON_CHECK(w.works[size_t(n + i)]->count == 0, "concurrent", "an operation is executed while another one has not returned");
  const bool stopped = r.chance(30);
  std::vector<int> c0;
  for (size_t k = 0; k < w.works.size(); ++k) c0.push_back(w.works[k]->count);
  if (stopped) w.t->stop();
  gate.store(2);
  mon::phase("execution of the operations registered meanwhile");
  if (!stopped) for (size_t k = 0; k < w.works.size(); ++k) while (w.works[k]->count < 2) mon::sleep_us(50);
  w.t->stop();
  w.t->join();
  if (stopped) for (int i = 0; i < more; ++i)
    MON_CHECK(w.works[size_t(n + i)]->count == 0, "after-stop", "an operation is executed in a period that began after stop()");
  delete w.t; w.t = NULL;
  mon::stat("obs.registered_meanwhile", uint64_t(more));
}

// A thread without operations waits for its periods, too.
static void quiet(mon::Rng& r)
{
  mon::phase("a long run without operations");
  World w;
  w.t = new id::PeriodicDispatchThread("quiet", span_of(r.range(2000, 8000) * 1000));
  w.make(r);
  MON_CHECK(w.t->start(), "start-failed", "start() failed");
  struct timespec a, b;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
  const int64_t m0 = mono();
  mon::sleep_us(40000);
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
  const int64_t wall = mono() - m0, cpu = (int64_t(b.tv_sec) - a.tv_sec) * 1000000000 + b.tv_nsec - a.tv_nsec;
  w.add(0, 0);
  mon::phase("execution of the first operation");
  while (w.works[0]->count < 2) mon::sleep_us(50);
  w.t->stop(); w.t->join();
  delete w.t; w.t = NULL;
  // undisturbed, a busy thread uses all of the time
  mon::stat("obs.quiet_cpu_us", uint64_t(cpu / 1000));
  MON_CHECK(cpu < wall / 2, "busy", "a thread without operations used " << cpu / 1000 << " us of processor time in " << wall / 1000 << " us");
  mon::stat("obs.quiet");
}

// A dispatch thread without operations, and one that never runs.
static void empty(mon::Rng& r)
{
  mon::phase("no operations");
  World w;
  w.t = new id::PeriodicDispatchThread("empty", span_of(r.range(100, 2000) * 1000));
  w.make(r);
  const int n = int(r.below(3));
  for (int i = 0; i < n; ++i)
  {
    MON_CHECK(w.t->start(), "start-failed", "start() failed");
    mon::sleep_us(r.range(0, 3000));
    w.t->stop(); w.t->join();
  }
  w.add(0, 0);
  mon::sleep_us(r.range(0, 1000));
  MON_CHECK(w.works[0]->count == 0, "not-running", "an operation is executed although the thread does not run");
  if (n > 0 && r.chance(50)) MON_CHECK(w.t->start(), "start-failed", "start() failed");
  delete w.t;
  mon::stat("obs.empty");
}

void mon::setup() { }
void mon::teardown() { stat("obs.perturbations", sched_points()); }
void mon::run_case(uint64_t index, Rng& r)
{
  if (index % 20 == 3) empty(r);
  else if (index % 20 == 13) meanwhile(r);
  else if (index % 60 == 7) quiet(r);
  else dispatch(r);
}
