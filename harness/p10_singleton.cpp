// P10: first accesses to singletons from many threads, each round in a fresh process.
#include "mon.h"
#include <thread>
#include "icl_core/Singleton.h"
#include "icl_core_thread/SingletonThreadingModels.h"
#include "icl_core_logging/SingletonThreadingModels.h"
#include "icl_core/Singleton.hpp"

struct Shared { std::atomic<int> made, gone, late; };      // late: what an access at the end of the program led to
static Shared *sh;

template <int N> struct Obj
{
  uint64_t field[32];
  Obj()
  {
    ++sh[N].made;
    // a construction that takes some time, so that half-made objects can be seen
    for (int i = 0; i < 32; ++i) { field[i] = 0x1234567890ull * uint64_t(i + 1); if (i % 8 == 0) sched_yield(); }
  }
  ~Obj() { ++sh[N].gone; for (int i = 0; i < 32; ++i) field[i] = 0; }
  bool complete() const { for (int i = 0; i < 32; ++i) if (field[i] != 0x1234567890ull * uint64_t(i + 1)) return false; return true; }
};

using namespace icl_core;
typedef Singleton<Obj<0>, SCPCreateUsingNew, SLPDefaultLifetime, thread::STMMultiThreadedWithMutex> S0;
typedef Singleton<Obj<1>, SCPCreateUsingNew, SLPDefaultLifetime, logging::STMMultiThreadedWithSemaphore> S1;
typedef Singleton<Obj<2>, SCPCreateUsingNew, SLPNoDestroy, thread::STMMultiThreadedWithMutex> S2;
typedef Singleton<Obj<3>, SCPCreateStatic, SLPNoDestroy, logging::STMMultiThreadedWithSemaphore> S3;
typedef Singleton<Obj<4>, SCPCreateStatic, SLPDefaultLifetime, thread::STMMultiThreadedWithMutex> S4;
typedef Singleton<Obj<5>, SCPCreateUsingNew, SLPDefaultLifetime, STMSingleThreaded> S5;
static const int COUNT = 6;

template <class S, int N> static void *get(bool& ok)
{
  Obj<N>& o = S::instance();
  ok = o.complete();
  return &o;
}
typedef void *(*Getter)(bool&);
static const Getter getters[COUNT] = { get<S0, 0>, get<S1, 1>, get<S2, 2>, get<S3, 3>, get<S4, 4>, get<S5, 5> };
// destructions expected at exit; a static object is destroyed by the runtime itself
static const int gone_at_exit[COUNT] = { 1, 1, 0, 1, 1, 1 };

// A lifetime policy of the user's own: destruction when asked for, accesses afterwards counted, and refused on demand.
struct Mine { void (*f)(); int scheduled, dead; bool refuse; };
static Mine mine[2];
template <int I> struct OwnLifetime
{
  static void schedule(void (*f)()) { mine[I].f = f; ++mine[I].scheduled; }
  static void dead() { ++mine[I].dead; if (mine[I].refuse) throw std::runtime_error("not any more"); }
};
template <class T> struct Own0 { static void scheduleDestruction(void (*f)()) { OwnLifetime<0>::schedule(f); } static void onDeadReference() { OwnLifetime<0>::dead(); } };
template <class T> struct Own1 { static void scheduleDestruction(void (*f)()) { OwnLifetime<1>::schedule(f); } static void onDeadReference() { OwnLifetime<1>::dead(); } };
typedef Singleton<Obj<6>, SCPCreateUsingNew, Own0, thread::STMMultiThreadedWithMutex> S6;
typedef Singleton<Obj<7>, SCPCreateUsingNew, Own1, logging::STMMultiThreadedWithSemaphore> S7;

template <class S, int N> static void own_lifetime(mon::Rng& r, Mine& m)
{
  int lives = 0, dead = 0;
  for (int round = 0; round < int(r.range(2, 6)); ++round)
  {
    if (lives && r.chance(40))
    {
      // a refused access makes nothing and does not stand in the way of later ones
      m.refuse = true;
      bool refused = false;
      try { S::instance(); } catch (const std::runtime_error&) { refused = true; }
      m.refuse = false;
      ++dead;
      MON_CHECK(refused && sh[N].made == lives && m.scheduled == lives && m.dead == dead, "refused-access", "an access that the lifetime policy refuses" << (refused ? "" : " is not refused")
                << ": " << sh[N].made << " objects made, " << m.scheduled << " destructions scheduled, policy asked " << m.dead << " times; expected " << lives << ", " << lives << ", " << dead);
      mon::stat("obs.refused_accesses");
    }
    if (lives) ++dead;
    ++lives;
    bool ok;
    void *p = get<S, N>(ok);
    for (int i = 0; i < int(r.range(0, 3)); ++i) { bool k; void *again = get<S, N>(k); MON_CHECK(again == p && k, "moved", "the singleton moved"); }
    MON_CHECK(ok && sh[N].made == lives && sh[N].gone == lives - 1, "own-lifetime", "life " << lives << " of a singleton: " << sh[N].made << " objects made, " << sh[N].gone << " destroyed");
    MON_CHECK(m.scheduled == lives && m.dead == dead, "own-lifetime", "life " << lives << " of a singleton: its destruction was scheduled " << m.scheduled << " times, the policy was told of " << m.dead << " late accesses instead of " << dead);
    m.f();
    MON_CHECK(sh[N].gone == lives, "own-lifetime", "life " << lives << " of a singleton: " << sh[N].gone << " objects destroyed after the scheduled destruction");
    mon::stat("obs.lives");
  }
}

// The last of the exit handlers: the singletons with the default lifetime are gone, the others are not.
template <class S, int N> static int late_access()
{
  try { bool ok; get<S, N>(ok); return ok ? 1 : 2; }
  catch (const std::logic_error&) { return 3; }
}
static void at_the_end()
{
  sh[0].late = late_access<S0, 0>();
  sh[1].late = late_access<S1, 1>();
  sh[2].late = late_access<S2, 2>();
  sh[4].late = late_access<S4, 4>();
  sh[5].late = late_access<S5, 5>();
}
static const int late_expected[COUNT] = { 3, 3, 1, 0, 3, 3 };

void mon::setup()
{
  sh = (Shared *)mmap(NULL, sizeof(Shared) * (COUNT + 2), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  memset((void *)sh, 0, sizeof(Shared) * (COUNT + 2));
  const size_t nt = 2 + r.below(7);
  std::vector<int> order;
  const uint64_t seed = r.next();
  in_child([&]()
  {
    atexit(at_the_end);
    std::atomic<int> ready(0);
    std::vector<std::vector<void *> > seen(nt, std::vector<void *>(COUNT, (void *)NULL));
    std::vector<std::thread> ts;
    phase("first-access");
    for (size_t t = 0; t < nt; ++t)
      ts.push_back(std::thread([&, t]()
      {
        Rng q(seed + t * (seed % 3));   // sometimes all threads follow the same order
        ++ready;
        while (ready.load() < int(nt)) { }
        for (int i = 0; i < 12; ++i)
        {
          int k = int(q.below(5));
          if (i >= 7) k = i - 7;
          if (q.chance(20)) sched_yield();
          bool ok = false;
          void *p = getters[k](ok);
          MON_NOTE(ok, "incomplete", "thread " << t << " got a singleton (" << k << ") that was not completely constructed");
          if (seen[t][size_t(k)]) MON_NOTE(seen[t][size_t(k)] == p, "moved", "the singleton " << k << " moved");
          seen[t][size_t(k)] = p;
        }
      }));
    for (size_t t = 0; t < nt; ++t) ts[t].join();
    bool ok;
    void *p = getters[5](ok);
    MON_NOTE(ok && getters[5](ok) == p && sh[5].made == 1, "single-threaded", "the single-threaded singleton was created " << sh[5].made << " times");
    mon::Hash h;
    for (int k = 0; k < 5; ++k)
    {
      MON_NOTE(sh[k].made == 1, "created-twice", "the singleton " << k << " was created " << sh[k].made << " times by " << nt << " threads");
      MON_NOTE(sh[k].gone == 0, "destroyed-early", "the singleton " << k << " was destroyed while in use");
      for (size_t t = 0; t < nt; ++t) MON_NOTE(seen[t][size_t(k)] == seen[0][size_t(k)], "different-objects", "threads 0 and " << t << " got different objects");
    }
    Rng q(seed);
    phase("own lifetime");
    own_lifetime<S6, 6>(q, mine[0]);
    own_lifetime<S7, 7>(q, mine[1]);
    mon::stat("obs.first_access_rounds", 5);
    mon::state(h.add(nt).add(seed % 3).add(seed));
  }, true);
  for (int k = 0; k < COUNT; ++k)
    MON_CHECK(sh[k].gone == gone_at_exit[k], "destruction", "the singleton " << k << " was destroyed " << sh[k].gone << " times at exit, expected " << gone_at_exit[k]);
  for (int k = 0; k < COUNT; ++k)
    MON_CHECK(sh[k].late == late_expected[k], "late-access", "an access to the singleton " << k << " after the end of main " << (sh[k].late == 1 ? "gave an object" : sh[k].late == 2 ? "gave a destroyed object" : sh[k].late == 3 ? "was refused" : "led to something else"));
  mon::stat("obs.exits");
  if (want_sample()) sample(std::to_string(nt) + " threads, 5 singletons created once each, destroyed as configured");
}
