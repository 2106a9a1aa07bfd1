// P54: whose thread it is: identity, description and priority of threads, also after they have ended.
#include "mon_locks.h"
#include <sched.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include "icl_core_thread/Thread.h"
using namespace locks;
namespace it = icl_core::thread;

// The other side of a thread; outlives it.
struct Desk
{
  std::atomic<int> ask, answered;          // numbers of questions
  std::atomic<long> tid;
  std::atomic<int> policy;                 // SCHED_FIFO if the thread could change to it
  const std::vector<it::Thread *> *all;    // read between ask and answered only
  std::vector<bool> self; bool self_static, self_equal;
  Desk() : ask(0), answered(0), tid(0), policy(SCHED_OTHER), all(NULL), self_static(false), self_equal(false) { }
};
// All real-time priorities are permitted.
static bool permitted() { struct rlimit l; return geteuid() == 0 || (getrlimit(RLIMIT_RTPRIO, &l) == 0 && l.rlim_cur >= 99); }
struct Member : public it::Thread
{
  Desk& d; bool fifo;
  Member(Desk& desk, const std::string& name, int prio, bool f) : it::Thread(name, prio), d(desk), fifo(f) { }
  virtual void run()
  {
    d.policy = SCHED_OTHER;
    if (fifo && permitted()) { struct sched_param p; p.sched_priority = 1; if (pthread_setschedparam(pthread_self(), SCHED_FIFO, &p) == 0) d.policy = SCHED_FIFO; }
    d.tid = syscall(SYS_gettid);
    while (execute())
    {
      const int a = d.ask.load();
      if (a != d.answered.load())
      {
        d.self.clear();
        for (size_t i = 0; i < d.all->size(); ++i) d.self.push_back((*d.all)[i]->threadSelf());
        d.self_static = selfId() == threadId();
        d.self_equal = icl_core::os::threadSelf() == selfId();
        d.answered = a;
      }
      mon::sleep_us(30);
    }
    d.tid = 0;
  }
};
static int os_priority(long tid) { struct sched_param p; if (sched_getparam(pid_t(tid), &p) != 0) mon::broken("sched_getparam"); return p.sched_priority; }
static bool info_fits(const std::string& info, const std::string& desc)
{
  // "description, number", in a buffer of its own
  if (desc.size() > 900) return info.compare(0, 900, desc, 0, 900) == 0;
  if (info.compare(0, desc.size(), desc) != 0 || info.compare(desc.size(), 2, ", ") != 0) return false;
  return info.size() > desc.size() + 2 && info.find_first_not_of("0123456789", desc.size() + 2) == std::string::npos;
}

enum State { FRESH, RUNS, ENDED, JOINED };
struct Entry { Desk *d; Member *m; State s; std::string desc, started_desc; };
struct Group
{
  std::vector<Entry> e;
  std::string trace;
  ~Group() { }
  long count(State s) const { long n = 0; for (size_t i = 0; i < e.size(); ++i) n += e[i].s == s; return n; }
  // the priorities of all that run
  std::vector<int> prios() const { std::vector<int> v; for (size_t i = 0; i < e.size(); ++i) v.push_back(e[i].s == RUNS ? os_priority(e[i].d->tid) : -1); return v; }
};

static void identities(Group& g, const std::vector<it::Thread *>& all)
{
  for (size_t i = 0; i < g.e.size(); ++i)
  {
    Entry& x = g.e[i];
    MON_CHECK(!x.m->threadSelf(), "self:outside", "threadSelf() of thread " << i << " is true in the main thread after " << g.trace);
    if (x.s != RUNS) continue;
    x.d->all = &all;
    const int n = x.d->ask + 1;
    x.d->ask = n;
    mon::phase("answer of a thread");
    while (x.d->answered != n) mon::sleep_us(10);
    MON_CHECK(x.d->self_static && x.d->self_equal, "self:id", "selfId() differs from threadId() inside of thread " << i << " after " << g.trace);
    for (size_t k = 0; k < all.size(); ++k)
    {
      static const char *const st[] = { "was never started", "runs", "has ended", "has ended and was joined" };
      MON_CHECK(x.d->self[k] == (k == i), k == i ? "self:own" : "self:other", "threadSelf() of thread " << k << ", which " << st[g.e[k].s] << ", is " << x.d->self[k] << " inside of thread " << i << " after " << g.trace);
      mon::stat("obs.self_questions");
      if (k != i && g.e[k].s == JOINED) mon::stat("obs.self_questions_joined");
    }
    for (size_t k = 0; k < g.e.size(); ++k)
      MON_CHECK(k == i || g.e[k].s == FRESH || !(g.e[k].m->threadId() == x.m->threadId()), "id:shared", "threads " << i << " and " << k << " have the same threadId() after " << g.trace);
  }
}

static void group(mon::Rng& r)
{
  Group g;
  const int steps = int(r.range(10, 40));
  mon::Hash h;
  for (int step = 0; step < steps; ++step)
  {
    if (g.e.size() < 2 || (g.e.size() < 10 && r.chance(25)))
    {
      Entry x;
      x.d = new Desk; x.desc = r.chance(5) ? r.str("abc", 900, 1500) : r.str("abcXYZ ,%sdn019", 0, 20); x.started_desc = x.desc; x.s = FRESH;
      x.m = new Member(*x.d, x.desc, r.chance(70) ? 0 : int(r.range(-3, 40)), r.chance(70));
      g.e.push_back(x);
      g.trace += " new";
      continue;
    }
    const size_t i = size_t(r.below(g.e.size()));
    Entry& x = g.e[i];
    const std::vector<int> before = g.prios();
    std::vector<int> after = before;
    h.add(uint64_t(x.s));
    switch (r.below(8))
    {
      case 0: case 1:
        if (x.s != RUNS)
        {
          g.trace += " start" + std::to_string(i);
          mon::phase("start");
          MON_CHECK(x.m->start(), "start-failed", "start() failed after " << g.trace);
          mon::phase("the thread's first steps");
          while (x.d->tid == 0) mon::sleep_us(20);
          x.s = RUNS; x.started_desc = x.desc;
          mon::stat("obs.starts");
          continue;
        }
        // fall through
      case 2:
        if (x.s == RUNS)
        {
          const int how = int(r.below(3));
          g.trace += (how == 0 ? " stop" : how == 1 ? " join" : " wait") + std::to_string(i);
          x.m->stop();
          mon::phase("end of the thread");
          if (how == 0) { while (x.m->running()) mon::sleep_us(20); x.s = ENDED; }
          else if (how == 1) { x.m->join(); x.s = JOINED; }
          else { MON_CHECK(x.m->wait(), "wait-failed", "wait() failed"); x.s = JOINED; }
          mon::stat("obs.ends");
          after[i] = -1;
        }
        else if (x.s == ENDED) { g.trace += " join" + std::to_string(i); x.m->join(); x.s = JOINED; }
        break;
      case 3:
      {
        // a valid or invalid priority
        const int p = r.chance(20) ? int(r.range(-5, 0)) : r.chance(20) ? int(r.range(100, 200)) : int(r.range(0, 30));
        g.trace += " setPriority" + std::to_string(i) + "(" + std::to_string(p) + ")";
        mon::phase("setPriority");
        const bool ok = x.m->setPriority(p);
        static const char *const st[] = { "fresh", "running", "ended", "joined" };
        if (x.s == RUNS)
        {
          const bool fifo = x.d->policy == SCHED_FIFO, valid = fifo ? p >= 1 && p <= 99 : p == 0;
          if (fifo) mon::stat("obs.fifo");
          if (ok) after[i] = p;
          MON_CHECK(ok == valid || (fifo && valid), "priority:result", "setPriority(" << p << ") of a running " << (fifo ? "FIFO" : "ordinary") << " thread gave " << ok << " after " << g.trace);
        }
        // An ended thread has a priority as long as it is not joined.
        else if (x.s != ENDED) MON_CHECK(!ok, std::string("priority:lies:") + st[x.s], "setPriority(" << p << ") of a " << st[x.s] << " thread reported success after " << g.trace);
        mon::stat(x.s == RUNS ? "obs.priority_changes" : "obs.priority_changes_elsewhere");
        break;
      }
      case 4:
      {
        mon::phase("priority");
        const int p = x.m->priority();
        if (x.s == RUNS) { MON_CHECK(p == before[i], "priority:wrong", "priority() is " << p << ", the system says " << before[i] << " after " << g.trace); mon::stat("obs.priority_questions"); }
        else if (x.s != ENDED) MON_CHECK(p == 0, "priority:stranger", "priority() of a thread that does not exist is " << p << " after " << g.trace);
        break;
      }
      case 5:
      {
        const std::string d = r.chance(5) ? r.str("abc", 900, 1500) : r.str("abcXYZ ,%sdn019", 0, 20);
        x.m->setDescription(d); x.desc = d;
        g.trace += " setDescription" + std::to_string(i);
        break;
      }
      case 6: MON_CHECK(!x.m->isHardRealtime() && !x.m->executesHardRealtime() && !x.m->checkHardRealtime(), "realtime", "a thread claims hard real time without LXRT after " << g.trace);
              MON_CHECK(x.m->setHardRealtime(false), "realtime:soft", "setHardRealtime(false) failed"); 
              MON_CHECK(!x.m->setHardRealtime(true) && !x.m->isHardRealtime(), "realtime:lies", "setHardRealtime(true) reported success without LXRT"); break;
      case 7: if (x.s == JOINED && r.chance(50)) { g.trace += " delete" + std::to_string(i); delete x.m; delete x.d; g.e.erase(g.e.begin() + long(i)); continue; } break;
    }
    // nobody else's priority has changed
    const std::vector<int> now = g.prios();
    for (size_t k = 0; k < now.size(); ++k)
      MON_CHECK(now[k] == after[k], k == i ? "priority:own" : "priority:other", "thread " << k << " has the priority " << now[k] << " instead of " << after[k] << " after " << g.trace);
    for (size_t k = 0; k < g.e.size(); ++k)
    {
      MON_CHECK(g.e[k].m->getDescription() == g.e[k].desc, "description", "getDescription() is " << mon::q(g.e[k].m->getDescription(), 60) << " instead of " << mon::q(g.e[k].desc, 60) << " after " << g.trace);
      MON_CHECK(info_fits(g.e[k].m->threadInfo(), g.e[k].started_desc), "info", "threadInfo() is " << mon::q(g.e[k].m->threadInfo(), 60) << " for the description " << mon::q(g.e[k].started_desc, 60) << " after " << g.trace);
      mon::stat("obs.descriptions");
    }
    if (r.chance(25))
    {
      std::vector<it::Thread *> all;
      for (size_t k = 0; k < g.e.size(); ++k) all.push_back(g.e[k].m);
      identities(g, all);
      h.add(uint64_t(g.count(RUNS))).add(uint64_t(g.count(JOINED)));
      mon::state(h);
    }
  }
  mon::phase("end of the group");
  for (size_t i = 0; i < g.e.size(); ++i) { if (g.e[i].s == RUNS) { g.e[i].m->stop(); g.e[i].m->join(); } delete g.e[i].m; delete g.e[i].d; }
  mon::state(h);
  if (mon::want_sample()) mon::sample("threads:" + g.trace);
}

// Whole processes of threads that come and go: questions about one that was joined long ago.
static void long_gone(mon::Rng& r)
{
  std::vector<Desk *> desks; std::vector<Member *> ms;
  const int n = int(r.range(8, 14));
  for (int i = 0; i < n; ++i) { desks.push_back(new Desk); ms.push_back(new Member(*desks.back(), "gone", 0, false)); }
  mon::phase("many threads");
  for (int i = 0; i < n; ++i) MON_CHECK(ms[size_t(i)]->start(), "start-failed", "start() failed");
  for (int i = 0; i < n; ++i) ms[size_t(i)]->stop();
  for (int i = 0; i < n; ++i) ms[size_t(i)]->join();
  // most of their stacks are given back to the system
  mon::phase("questions about threads joined long ago");
  for (int i = 0; i < n; ++i)
  {
    MON_CHECK(ms[size_t(i)]->priority() == 0, "priority:stranger", "priority() of a joined thread is " << ms[size_t(i)]->priority());
    MON_CHECK(!ms[size_t(i)]->setPriority(0), "priority:lies:joined", "setPriority(0) of a joined thread reported success");
    MON_CHECK(!ms[size_t(i)]->threadSelf(), "self:outside", "threadSelf() of a joined thread is true");
    mon::stat("obs.long_gone");
  }
  for (int i = 0; i < n; ++i) { delete ms[size_t(i)]; delete desks[size_t(i)]; }
  mon::state(mon::Hash().add(uint64_t(n)));
}

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t index, Rng& r)
{
  if (index % 8 == 7) long_gone(r); else group(r);
}
