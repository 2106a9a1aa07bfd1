// Recording of lock histories and the judgements that are common to all kinds of locks.
#ifndef VERIF_LOCKS_H
#define VERIF_LOCKS_H
#include "mon.h"
#include "mon_sched.h"
#include <thread>
#include <functional>
#include "icl_core/TimeSpan.h"
#include "icl_core/TimeStamp.h"

namespace locks {

// A logical clock.  Relaxed, so that the recording itself orders nothing for the race detector.
inline std::atomic<uint64_t>& clock_() { static std::atomic<uint64_t> c(1); return c; }
inline uint64_t tick() { return clock_().fetch_add(1, std::memory_order_relaxed); }

inline int64_t real_ns()
{
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  return int64_t(t.tv_sec) * 1000000000 + t.tv_nsec;
}
inline icl_core::TimeStamp stamp_of(int64_t ns)
{ struct timespec t; t.tv_sec = ns / 1000000000; t.tv_nsec = ns % 1000000000; return icl_core::TimeStamp(t); }
inline icl_core::TimeSpan span_of(int64_t ns) { return icl_core::TimeSpan(ns / 1000000000, int32_t(ns % 1000000000)); }

// The kinds of attempts
enum Kind { PLAIN, TRY, REL, ABS };
const int64_t ENDLESS = 600000000000ll;       // far more than any case takes
inline const char *kind_name(int k) { static const char *n[] = { "plain", "trial", "relative timeout", "absolute timeout" }; return n[k]; }
// Runs one attempt; judges that a failed timed attempt did not give up early.
// timeout_ns: relative to now; negative for a point in time that has passed (ABS only).
template <class L, class P, class T, class R, class A>
bool attempt(int kind, int64_t timeout_ns, L& l, P plain, T trial, R rel, A abs_, const char *what)
{
  // a negative relative timeout is none
  static std::atomic<unsigned> turn(0);
  static const int64_t none[] = { -1, -1000000000, -999999999, -600000000000ll, -1500000000, -31536000000000000ll };
  const unsigned now = kind == REL && timeout_ns == ENDLESS ? ++turn : 0;
  const bool endless = now % 2 == 1;
  if (endless) { timeout_ns = none[now / 2 % 6]; mon::stat("obs.endless"); }
  const int64_t t0 = real_ns();
  int64_t deadline = t0 + timeout_ns;
  bool ok = false;
  switch (kind)
  {
    case PLAIN: ok = plain(l); break;
    case TRY: ok = trial(l); break;
    case REL: ok = rel(l, span_of(timeout_ns)); break;
    case ABS: ok = abs_(l, stamp_of(deadline)); break;
  }
  const int64_t t1 = real_ns();
  if (!ok)
  {
    MON_NOTE(!endless, std::string("endless-failed:") + what, "a lock attempt with a negative timeout (" << timeout_ns << " ns), which is none, failed after " << t1 - t0 << " ns");
    MON_NOTE(kind != PLAIN, std::string("plain-failed:") + what, "a lock attempt without timeout failed");
    if (kind == REL || kind == ABS)
    {
      MON_NOTE(t1 >= deadline - 5000, std::string("early:") + what, "an attempt with " << kind_name(kind) << " of " << timeout_ns
               << " ns failed " << (deadline - t1) << " ns before its deadline");
      mon::stat("obs.timeouts");
    }
  }
  return ok;
}

struct Event { uint64_t from, to; int obj; int kind; int mode; bool ok; int64_t timeout; int thread; };

struct Threads
{
  std::vector<std::thread> t;
  template <class F> void add(F f) { t.push_back(std::thread(f)); }
  void join() { for (size_t i = 0; i < t.size(); ++i) t[i].join(); t.clear(); }
  ~Threads() { join(); }
};

struct Barrier
{
  std::atomic<int> n; int want;
  explicit Barrier(int w) : n(0), want(w) { }
  void wait() { n.fetch_add(1); while (n.load() < want) sched_yield(); }
};

} // namespace locks
#endif
