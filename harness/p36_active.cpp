// P36: operations of active objects.
#include "mon_locks.h"
#include <sys/syscall.h>
#include "icl_core_thread/ActiveObject.h"
#include "icl_core_thread/ActiveOperation.h"
using namespace locks;
namespace it = icl_core::thread;

// What is known about one operation; outlives everything.
struct Rec
{
  int sender, seq, extra;
  int64_t us;
  bool while_off;                 // queued while the object did not run
  uint64_t call, ret;             // logical times of queue()
  std::atomic<int> invoked, destroyed;
  std::atomic<uint64_t> order;    // position in the order of execution, from 1
  Rec() : sender(0), seq(0), extra(0), us(0), while_off(false), call(0), ret(0), invoked(0), destroyed(0), order(0) { }
};
struct Object;
struct Op : public it::ActiveOperation
{
  Rec& r; Object& o; long canary;
  Op(Rec& rec, Object& ob) : r(rec), o(ob), canary(4711) { }
  virtual ~Op();
  virtual void invoke();
};
struct Log
{
  std::atomic<long> tid, inside, executed, starts, stops, invoking;
  long plain;                     // touched by operations only
  Log() : tid(0), inside(0), executed(0), starts(0), stops(0), invoking(0), plain(0) { }
};
struct Object : public it::ActiveObject
{
  Log& l;
  int64_t late_us;                // the thread reaches its work only after that time
  explicit Object(Log& log) : it::ActiveObject("active"), l(log), late_us(0) { }
  virtual void run() { if (late_us > 0) mon::sleep_us(late_us); it::ActiveObject::run(); }
  void send(Rec& r) { r.call = tick(); queue(new Op(r, *this)); r.ret = tick(); }
  virtual void onThreadStart()
  {
    l.starts.fetch_add(1, std::memory_order_relaxed);
    MON_NOTE(l.inside.fetch_add(1, std::memory_order_relaxed) == 0, "hooks", "onThreadStart was called without onThreadStop in between");
    l.tid.store(syscall(SYS_gettid), std::memory_order_relaxed);
  }
  virtual void onThreadStop()
  {
    l.stops.fetch_add(1, std::memory_order_relaxed);
    MON_NOTE(syscall(SYS_gettid) == l.tid.load(std::memory_order_relaxed), "hooks", "onThreadStop was called in another thread");
    MON_NOTE(l.inside.fetch_sub(1, std::memory_order_relaxed) == 1, "hooks", "onThreadStop was called without onThreadStart");
  }
};
Op::~Op()
{
  MON_NOTE(canary == 4711, "destroyed-twice", "operation " << r.seq << " of sender " << r.sender << " is destroyed again");
  canary = 0;
  r.destroyed.fetch_add(1, std::memory_order_relaxed);
}
void Op::invoke()
{
  MON_NOTE(canary == 4711, "destroyed-early", "operation " << r.seq << " of sender " << r.sender << " is executed behind its destruction");
  MON_NOTE(o.l.invoking.fetch_add(1, std::memory_order_relaxed) == 0, "concurrent", "two operations are executed at the same time");
  MON_NOTE(syscall(SYS_gettid) == o.l.tid.load(std::memory_order_relaxed) && o.l.inside.load(std::memory_order_relaxed) == 1, "wrong-thread",
           "operation " << r.seq << " of sender " << r.sender << " is not executed in the thread of the object between its start and stop");
  r.invoked.fetch_add(1, std::memory_order_relaxed);
  ++o.l.plain;
  if (r.us > 0) mon::sleep_us(r.us);
  r.order.store(uint64_t(o.l.executed.fetch_add(1, std::memory_order_relaxed)) + 1, std::memory_order_relaxed);
  for (int i = 0; i < r.extra; ++i) { Rec *n = &r + 1 + i; o.send(*n); }   // queued from within
  o.l.invoking.fetch_sub(1, std::memory_order_relaxed);
}

static void active(mon::Rng& r)
{
  const bool tsan = mon::cfg().mode == "tsan";
  Log log;
  const int senders = int(r.range(1, 4)), rounds = int(r.range(1, 4));
  sched_perturb(unsigned(r.below(3)) * 10, r.next());
  Object *o = new Object(log);
  std::vector<std::vector<Rec> *> all;
  mon::Hash h;
  h.add(uint64_t(senders)).add(uint64_t(rounds));
  long expect_plain = 0;
  bool destroyed = false;
  long dropped = 0, done = 0;
  for (int round = 0; round < rounds && !destroyed; ++round)
  {
    // queued while it does not run: destroyed without being executed
    if (r.chance(40))
    {
      std::vector<Rec> *v = new std::vector<Rec>(1);
      (*v)[0].while_off = true;
      all.push_back(v);
      o->send((*v)[0]);
      MON_CHECK((*v)[0].destroyed == 1 && (*v)[0].invoked == 0, "not-running", "an operation queued while the object does not run was "
                << ((*v)[0].invoked ? "executed" : "kept"));
      mon::stat("obs.queued_while_off");
    }
    mon::phase("start");
    MON_CHECK(o->start(), "start-failed", "start() failed");
    const size_t first = all.size();
    for (int s = 0; s < senders; ++s)
    {
      std::vector<Rec> *v = new std::vector<Rec>(size_t(r.range(1, 40)));
      for (size_t i = 0; i < v->size(); ++i)
      {
        (*v)[i].sender = s; (*v)[i].seq = int(i);
        (*v)[i].us = r.chance(6) ? r.range(1, 300) : 0;
        // an operation that itself queues its successors
        if (r.chance(8) && i + 3 < v->size()) { (*v)[i].extra = int(r.range(1, 2)); for (int e = 1; e <= (*v)[i].extra; ++e) { (*v)[i + size_t(e)].sender = -1; (*v)[i + size_t(e)].seq = int(i) + e; } i += size_t((*v)[i].extra); }
      }
      all.push_back(v);
    }
    const int end = int(r.below(4));   // 0, 1: drain, then stop; 2: stop while they send; 3: stop right after they have sent
    h.add(uint64_t(end));
    std::atomic<int> running(senders);
    Threads th;
    Barrier b(senders + 1);
    for (int s = 0; s < senders; ++s)
    {
      mon::Rng q(r.next());
      std::vector<Rec> *v = all[first + size_t(s)];
      th.add([&, v, q]() mutable {
        b.wait();
        for (size_t i = 0; i < v->size(); ++i)
        {
          if ((*v)[i].sender < 0) continue;
          o->send((*v)[i]);
          if (q.chance(10)) mon::sleep_us(q.range(0, 100));
        }
        running.fetch_sub(1);
      });
    }
    b.wait();
    if (end == 2) { mon::sleep_us(r.range(0, 600)); mon::phase("stop while operations are queued"); o->stop(); }
    mon::phase("senders");
    th.join();
    size_t total = 0;
    for (size_t k = first; k < all.size(); ++k) total += all[k]->size();
    if (end < 2)
    {
      mon::phase("execution of all queued operations");
      for (;;)
      {
        size_t n = 0;
        for (size_t k = first; k < all.size(); ++k) for (size_t i = 0; i < all[k]->size(); ++i) n += size_t((*all[k])[i].destroyed.load(std::memory_order_relaxed) != 0);
        if (n == total) break;
        mon::sleep_us(50);
      }
      mon::stat("obs.drained");
    }
    mon::phase("end of the object");
    if (r.chance(20)) mon::sleep_us(r.range(0, 500));
    if (!tsan && round + 1 == rounds && r.chance(40) && end < 2)
    {
      mon::phase("destruction of a running object");
      delete o; destroyed = true;
      mon::stat("obs.destroyed_running");
    }
    else
    {
      if (end != 2 || r.chance(30)) o->stop();
      mon::phase("join behind stop");
      o->join();
    }
    // judgement of the round
    long n_inv = 0;
    for (size_t k = first; k < all.size(); ++k)
    {
      std::vector<Rec>& v = *all[k];
      uint64_t last = 0;
      bool gone = false;
      for (size_t i = 0; i < v.size(); ++i)
      {
        Rec& e = v[i];
        const bool queued = e.ret != 0;
        const int inv = e.invoked, des = e.destroyed;
        MON_CHECK(inv <= 1, "executed-twice", "operation " << i << " of sender " << e.sender << " was executed " << inv << " times");
        if (!queued) { MON_CHECK(inv == 0 && des == 0, "unknown", "an operation that was not queued was executed"); continue; }
        n_inv += inv;
        if (end < 2) MON_CHECK(inv == 1, "not-executed", "operation " << i << " of sender " << e.sender << " was destroyed without being executed although the object was not stopped");
        MON_CHECK(des <= 1, "destroyed-twice", "operation " << i << " of sender " << e.sender << " was destroyed " << des << " times");
        MON_CHECK(des == 1, "kept", "operation " << i << " of sender " << e.sender << " was " << (inv ? "executed" : "not executed") << " and not destroyed although the object was stopped and joined");
        if (!inv) { ++dropped; }
        if (e.sender < 0) continue;
        if (inv)
        {
          MON_CHECK(!gone, "order:dropped", "operation " << i << " of sender " << e.sender << " was executed although an earlier one was dropped");
          MON_CHECK(e.order > last, "order", "operation " << i << " of sender " << e.sender << " was executed before an earlier one");
          last = e.order;
        }
        else gone = true;
      }
    }
    // the order between the senders
    std::vector<Rec *> by(size_t(n_inv), (Rec *)NULL);
    for (size_t k = first; k < all.size(); ++k) for (size_t i = 0; i < all[k]->size(); ++i)
    {
      Rec& e = (*all[k])[i];
      if (!e.invoked) continue;
      const uint64_t at = e.order - uint64_t(done) - 1;
      MON_CHECK(at < by.size() && !by[at], "order", "the numbers of executions are wrong");
      by[at] = &e;
    }
    uint64_t latest_call = 0;
    for (size_t i = 0; i < by.size(); ++i)
    {
      MON_CHECK(by[i]->ret > latest_call, "order:senders", "operation " << by[i]->seq << " of sender " << by[i]->sender << " was executed behind one that was queued after it");
      if (by[i]->call > latest_call) latest_call = by[i]->call;
    }
    done += n_inv;
    expect_plain = done;
    MON_CHECK(log.starts == round + 1 && log.stops == round + (destroyed ? 0 : 1), "hooks", log.starts << " calls of onThreadStart, " << log.stops << " of onThreadStop in " << round + 1 << " runs");
    MON_CHECK(log.plain == expect_plain, "invisible", "what the operations did is not visible behind join");
    mon::stat("obs.executed", uint64_t(n_inv));
  }
  mon::phase("destruction of a stopped object");
  if (!destroyed) delete o;
  for (size_t k = 0; k < all.size(); ++k)
  {
    for (size_t i = 0; i < all[k]->size(); ++i)
    {
      Rec& e = (*all[k])[i];
      MON_CHECK(e.destroyed == (e.ret ? 1 : 0) && e.invoked <= 1, "kept", "an operation was destroyed " << e.destroyed << " and executed " << e.invoked << " times in the end");
      MON_CHECK(!e.while_off || e.invoked == 0, "not-running", "an operation queued before the start was executed");
    }
    delete all[k];
  }
  sched_perturb(0, 0);
  mon::stat("obs.dropped", uint64_t(dropped));
  mon::state(h.add(uint64_t(dropped)));
  if (mon::want_sample()) mon::sample(std::to_string(senders) + " senders, " + std::to_string(rounds) + " runs: " + std::to_string(done) + " operations executed, " + std::to_string(dropped) + " dropped by stop");
}

// Objects that never run, and starts without operations.
static void idle(mon::Rng& r)
{
  Log log;
  Object *o = new Object(log);
  const int n = int(r.below(4));
  for (int i = 0; i < n; ++i)
  {
    mon::phase("start without operations");
    o->late_us = r.chance(50) ? r.range(50, 400) : 0;
    MON_CHECK(o->start(), "start-failed", "start() failed");
    if (r.chance(50)) mon::sleep_us(r.range(0, 200));
    mon::phase("stop without operations");
    o->stop();
    if (r.chance(30)) o->stop();
    o->join();
    if (o->late_us) mon::stat("obs.stopped_at_start");
  }
  mon::phase("destruction of an idle object");
  delete o;
  MON_CHECK(log.starts == n && log.stops == n, "hooks", log.starts << " calls of onThreadStart, " << log.stops << " of onThreadStop in " << n << " runs");
  mon::stat("obs.idle_objects");
}

void mon::setup() { }
void mon::teardown() { stat("obs.perturbations", sched_points()); }
void mon::run_case(uint64_t index, Rng& r)
{
  if (index % 20 == 7) idle(r);
  else active(r);
}
