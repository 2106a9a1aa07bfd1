// P52: scoped timers and measurement macros.
#include "mon_log.h"
#include "mon_clock.h"
#include <memory>
#include "icl_core_config/Config.h"
#include "icl_core_logging/ScopedTimer.h"
#include "icl_core_performance_monitor/PerformanceMonitor.h"
using logmon::Sink;
using logmon::Got;
typedef icl_core::perf_mon::PerformanceMonitor PM;

DECLARE_LOG_STREAM(TimerA)
REGISTER_LOG_STREAM(TimerA)
DECLARE_LOG_STREAM(TimerB)
REGISTER_LOG_STREAM(TimerB)

#ifdef _IC_DEBUG_
static const bool debug_build = true;
#else
static const bool debug_build = false;
#endif
#ifdef IC_PERFORMANCE_MONITOR
static const bool perf_build = true;
#else
static const bool perf_build = false;
#endif

static Sink *sa, *sb;
static int64_t now_;
static void tick_clock(mon::Rng& r)
{
  switch (r.below(6))
  {
    case 0: break;
    case 1: now_ += r.range(0, 999) * 1000; break;
    case 2: now_ += r.range(0, 3) * 1000000000; break;
    case 3: now_ += r.range(0, 100000000) * 1000; break;
    case 4: now_ -= r.range(0, 2000000) * 1000; break;      // the clock is set back
    default: now_ += 1000000000 - now_ % 1000000000; break; // a full second
  }
  clock_set(now_);
}

struct Expect { bool b; int level; std::string text, file, cls, obj; size_t line; };
static std::vector<Expect> expected;
static std::string text_of(const std::string& d, int64_t t0, const std::string *extra = NULL)
{
  std::ostringstream o;
  o << d;
  if (extra) o << " (" << *extra << ")";
  o << ": " << now_ - t0 << " ns\n";
  return o.str();
}
static int limit_a, limit_b;
static void expect(bool b, int level, const std::string& text, const std::string& file, size_t line, const std::string& cls, const std::string& obj)
{
  if (level < (b ? limit_b : limit_a)) return;
  Expect e = { b, level, text, file, cls, obj, line };
  expected.push_back(e);
}
static void judge(const std::string& what)
{
  size_t na = 0, nb = 0;
  for (size_t i = 0; i < expected.size(); ++i)
  {
    const Expect& e = expected[i];
    std::vector<Got>& got = (e.b ? sb : sa)->got;
    size_t& n = e.b ? nb : na;
    MON_CHECK(n < got.size(), "missing", "no message " << mon::q(e.text) << " after " << what);
    const Got& g = got[n++];
    MON_CHECK(g.text == e.text, "text", "message " << mon::q(g.text) << " instead of " << mon::q(e.text) << " after " << what);
    MON_CHECK(g.level == e.level, "level", "level " << g.level << " instead of " << e.level << " after " << what);
    MON_CHECK(g.file == e.file && g.line == e.line && g.cls == e.cls && g.obj == e.obj, "location", "location " << mon::q(g.file) << ":" << g.line << " class " << mon::q(g.cls) << " object " << mon::q(g.obj)
              << " instead of " << mon::q(e.file) << ":" << e.line << " " << mon::q(e.cls) << " " << mon::q(e.obj) << " after " << what);
    MON_CHECK(g.stream == (e.b ? "TimerB" : "TimerA"), "stream", "stream " << g.stream);
  }
  MON_CHECK(sa->got.size() == na && sb->got.size() == nb, "extra", sa->got.size() + sb->got.size() - na - nb << " further messages, first " << mon::q(sa->got.size() > na ? sa->got[na].text : sb->got[nb].text) << " after " << what);
  mon::stat("obs.messages", expected.size());
  sa->got.clear(); sb->got.clear(); expected.clear();
}

template <class S> struct Live
{
  std::unique_ptr<il::ScopedTimer<S> > t;
  std::string desc, file, cls, obj;
  size_t line; int level; int64_t t0; bool active;
};
static const char *words[] = { "Work", "load file", "", "100% %s %n", "a: b (c)", "~T{}" };

static std::string word(mon::Rng& r, size_t most)
{
  return r.chance(70) ? std::string(words[r.below(6)]) : r.str("abc XYZ012:()%~{}.,", 0, int(r.chance(50) ? most : 60));
}
template <class S> static void timer_ops(mon::Rng& r, bool b, std::vector<Live<S> >& v)
{
  const unsigned k = unsigned(r.below(6));
  if (v.empty() || k == 0)
  {
    Live<S> n;
    n.desc = word(r, 600); n.level = int(r.below(5)); n.t0 = now_; n.active = true; n.line = r.below(100000); n.file = r.chance(50) ? "x.cpp" : "/a/b c/%d.h"; n.cls = r.chance(30) ? "" : r.chance(70) ? "Cls" : word(r, 200); n.obj = r.chance(30) ? "" : r.chance(70) ? "obj%s" : word(r, 900);
    n.t.reset(new il::ScopedTimer<S>(n.desc, il::LogLevel(n.level), n.file, n.line, n.cls, n.obj));
    v.push_back(std::move(n));
    mon::stat("obs.timers");
    return;
  }
  const size_t i = r.below(v.size());
  Live<S>& l = v[i];
  switch (k)
  {
    case 1: l.t->print(); expect(b, l.level, text_of(l.desc, l.t0), l.file, l.line, l.cls, l.obj); break;
    case 2: { std::string x = word(r, 600); l.t->print(x); expect(b, l.level, text_of(l.desc, l.t0, &x), l.file, l.line, l.cls, l.obj); break; }
    case 3: l.t->stop(); if (l.active) expect(b, l.level, text_of(l.desc, l.t0), l.file, l.line, l.cls, l.obj); else mon::stat("obs.stopped_again"); l.active = false; break;
    default:
      if (l.active) expect(b, l.level, text_of(l.desc, l.t0), l.file, l.line, l.cls, l.obj);
      else mon::stat("obs.destroyed_stopped");
      l.t.reset();
      v.erase(v.begin() + long(i));
      break;
  }
  mon::state(mon::Hash().add(1).add(k).add(uint64_t(b)).add(l.active).add(v.size()));
}

static void timers(mon::Rng& r)
{
  std::vector<Live<TimerA> > a;
  std::vector<Live<TimerB> > b;
  for (int o = 0; o < 40; ++o)
  {
    tick_clock(r);
    if (r.chance(20))
    {
      limit_a = int(r.below(6)); limit_b = int(r.below(6));
      sa->setLogLevel(il::LogLevel(limit_a)); sb->setLogLevel(il::LogLevel(limit_b));
    }
    mon::phase("scoped timer");
    if (r.chance(50)) timer_ops(r, false, a); else timer_ops(r, true, b);
    judge("a scoped timer's operation");
  }
  while (!a.empty()) { Live<TimerA>& l = a.back(); if (l.active) expect(false, l.level, text_of(l.desc, l.t0), l.file, l.line, l.cls, l.obj); a.pop_back(); judge("the end of a timer"); }
  b.clear(); sb->got.clear();
}

// Every macro form, in both build variants: the statement's own file and line, the level named, nothing for debug levels in release builds.
#define FORM(macro, args, lv, c, o) \
  { const int64_t t0 = now_; size_t line_ = 0; \
    { line_ = __LINE__; macro args; tick_clock(r); judge(#macro " before its end"); } \
    if (lv >= 2 || debug_build) expect(false, lv, text_of(d, t0), __FILE__, line_, c, o); \
    judge(#macro); mon::stat("obs.macros"); mon::state(mon::Hash().add(2).add(std::string(#macro))); }
#define LEVELS(suffix, args, c, o) \
  FORM(LOGGING_SCOPED_TIMER_ERROR##suffix, args, 4, c, o) \
  FORM(LOGGING_SCOPED_TIMER_WARNING##suffix, args, 3, c, o) \
  FORM(LOGGING_SCOPED_TIMER_INFO##suffix, args, 2, c, o) \
  FORM(LOGGING_SCOPED_TIMER_DEBUG##suffix, args, 1, c, o) \
  FORM(LOGGING_SCOPED_TIMER_TRACE##suffix, args, 0, c, o)

static void macros(mon::Rng& r)
{
  limit_a = limit_b = int(r.below(5));
  sa->setLogLevel(il::LogLevel(limit_a)); sb->setLogLevel(il::LogLevel(limit_b));
  const std::string d = words[r.below(6)];
  LEVELS(, (TimerA, d), "", "")
  LEVELS(_C, (TimerA, d, "MyClass"), "MyClass", "")
  LEVELS(_CO, (TimerA, d, "MyClass", "my object"), "MyClass", "my object")
  LEVELS(_V, (TimerA, tm1, d), "", "")
  LEVELS(_VC, (TimerA, tm1, d, "MyClass"), "MyClass", "")
  LEVELS(_VCO, (TimerA, tm1, d, "MyClass", "my object"), "MyClass", "my object")
  FORM(LOGGING_SCOPED_TIMER, (TimerA, d, il::eLL_WARNING), 3, "", "")
  FORM(LOGGING_SCOPED_TIMER_C, (TimerA, d, il::eLL_ERROR, "K"), 4, "K", "")
  FORM(LOGGING_SCOPED_TIMER_CO, (TimerA, d, il::eLL_INFO, "K", "o"), 2, "K", "o")
  {
    // two in one scope, one of them stopped by its name
    const int64_t t0 = now_;
    {
      LOGGING_SCOPED_TIMER_INFO_V(TimerA, first, d);
      const size_t l1 = __LINE__ - 1;
      LOGGING_SCOPED_TIMER_WARNING(TimerA, d);
      const size_t l2 = __LINE__ - 1;
      tick_clock(r);
      first.stop();
      expect(false, 2, text_of(d, t0), __FILE__, l1, "", "");
      judge("stop of a named timer");
      tick_clock(r);
      expect(false, 3, text_of(d, t0), __FILE__, l2, "", "");
    }
    judge("two timers in one scope");
  }
}

#define XSTR2(x) #x
#define XSTR(x) XSTR2(x)
static void perf(mon::Rng& r)
{
  clock_set(now_ = 1500000000000000000ll + r.range(0, 99999) * 1000);
  Sink *s = new Sink("perf", false);
  Performance::instance().addOutputStream(s);
  int evals = 0;
  auto name = [&](const char *n) { ++evals; return std::string(n); };
  struct Sum { double n, avg; };
  auto taken = [&]() { std::vector<Got> g; g.swap(s->got); return g; };
  auto off = [&](const char *m) { MON_CHECK(s->got.empty() && evals == 0, "perf-off", m << " has an effect in a build without performance monitor"); };
#define NONE(m) { std::vector<Got> g = taken(); if (perf_build) MON_CHECK(g.empty(), "perf-message", m << " logs " << mon::q(g[0].text)); else off(m); }
  (void)evals;
  PERF_MON_INITIALIZE(4, 10);
  NONE("PERF_MON_INITIALIZE")
  PERF_MON_ENABLE(name("p")); PERF_MON_ENABLE(name("q"));
  PERF_MON_START(name("t"));
  PERF_MON_START(name("u"));
  NONE("PERF_MON_START")
  const int64_t t0 = now_;
  int64_t u0 = now_;
  std::map<std::string, std::vector<double> > times;
#define AFTER(m, tm, pre, nm, lv) { std::vector<Got> g = taken(); \
    if (!perf_build) off(m); \
    else if (lv == 1 && !debug_build) MON_CHECK(g.empty(), "perf-message", m << " logs in a release build " << mon::q(g[0].text)); \
    else { const double ms = double(now_ - tm) / 1e6; times[std::string(pre) + "::" + nm].push_back(ms); \
      std::ostringstream w; w << pre << "::" << nm << ": " << ms << " ms\n"; \
      if (lv == 2) MON_CHECK(g.size() == 1 && g[0].text == w.str() && g[0].level == 2, "perf-message", m << " logs " << g.size() << " messages, " << mon::q(g.empty() ? "" : g[0].text) << " instead of " << mon::q(w.str())); } \
    mon::stat("obs.perf_macros"); mon::state(mon::Hash().add(3).add(std::string(m))); }
  for (int round = 0; round < 3; ++round)
  {
    now_ += r.range(0, 5000000) * 1000; clock_set(now_);
    PERF_MON_PRINT_INFO(name("t"), name("a")); AFTER("PERF_MON_PRINT_INFO", t0, "", "a", 2)
    PERF_MON_PRINT_INFO_P(name("t"), name("a"), name("p")); AFTER("PERF_MON_PRINT_INFO_P", t0, "p", "a", 2)
    now_ += r.range(0, 5000000) * 1000; clock_set(now_);
    PERF_MON_PRINT_AND_RESET_INFO(name("u"), name("b")); AFTER("PERF_MON_PRINT_AND_RESET_INFO", u0, "", "b", 2) u0 = now_;
    now_ += r.range(0, 5000000) * 1000; clock_set(now_);
    PERF_MON_PRINT_AND_RESET_INFO_P(name("u"), name("b"), name("q")); AFTER("PERF_MON_PRINT_AND_RESET_INFO_P", u0, "q", "b", 2) u0 = now_;
    now_ += r.range(0, 5000000) * 1000; clock_set(now_);
    PERF_MON_PRINT_DEBUG(name("t"), name("a")); AFTER("PERF_MON_PRINT_DEBUG", t0, "", "a", 1)
    PERF_MON_PRINT_DEBUG_P(name("t"), name("a"), name("p")); AFTER("PERF_MON_PRINT_DEBUG_P", t0, "p", "a", 1)
    PERF_MON_PRINT_TRACE(name("t"), name("a")); AFTER("PERF_MON_PRINT_TRACE", t0, "", "a", 1)
    PERF_MON_PRINT_TRACE_P(name("t"), name("a"), name("p")); AFTER("PERF_MON_PRINT_TRACE_P", t0, "p", "a", 1)
    PERF_MON_PRINT_AND_RESET_DEBUG(name("u"), name("b")); AFTER("PERF_MON_PRINT_AND_RESET_DEBUG", u0, "", "b", 1) if (debug_build) u0 = now_;
    now_ += r.range(0, 5000000) * 1000; clock_set(now_);
    PERF_MON_PRINT_AND_RESET_DEBUG_P(name("u"), name("b"), name("q")); AFTER("PERF_MON_PRINT_AND_RESET_DEBUG_P", u0, "q", "b", 1) if (debug_build) u0 = now_;
    now_ += r.range(0, 5000000) * 1000; clock_set(now_);
    PERF_MON_PRINT_AND_RESET_TRACE(name("u"), name("b")); AFTER("PERF_MON_PRINT_AND_RESET_TRACE", u0, "", "b", 1) if (debug_build) u0 = now_;
    now_ += r.range(0, 5000000) * 1000; clock_set(now_);
    PERF_MON_PRINT_AND_RESET_TRACE_P(name("u"), name("b"), name("q")); AFTER("PERF_MON_PRINT_AND_RESET_TRACE_P", u0, "q", "b", 1) if (debug_build) u0 = now_;
    const double x = double(r.range(-1000, 1000)) / 4;
    PERF_MON_ADD_DATA(name("c"), x); PERF_MON_ADD_DATA_P(name("c"), x + 1, name("p"));
    PERF_MON_ADD_DATA_P(name("c"), x, name("never"));                    // a prefix which is not enabled
    PERF_MON_ADD_DATA_NONTIME(name("n"), x); PERF_MON_ADD_DATA_NONTIME_P(name("n"), x + 2, name("q"));
    PERF_MON_ADD_STATIC_DATA(name("s"), x); PERF_MON_ADD_STATIC_DATA_P(name("s"), x + 3, name("p"));
    NONE("PERF_MON_ADD_*")
    if (perf_build)
    {
      times["::c"].push_back(x); times["p::c"].push_back(x + 1); times["::n"].push_back(x); times["q::n"].push_back(x + 2);
    }
    std::ostringstream st; st << x; std::ostringstream stp; stp << x + 3;
    // the summaries
    auto summary = [&](const char *m, const Got& g, int lv, const std::string& key, bool timed)
    {
      const std::vector<double>& v = times[key];
      double sum = 0, mx = v[0], mn = v[0];
      for (size_t i = 0; i < v.size(); ++i) { sum += v[i]; mx = std::max(mx, v[i]); mn = std::min(mn, v[i]); }
      std::ostringstream h, lo, hi, av;
      const std::string nm = key.substr(key.find("::") + 2), unit = timed ? " ms\n" : "\n";
      if (timed) h << "Summary for " << key << "\nCalled " << v.size() << " times\n"; else h << "Summary for " << key << "\nnum entries: " << v.size() << "\n";
      lo << nm << "_min: " << mn << unit; hi << nm << "_max: " << mx << unit;
      MON_CHECK(g.level == lv && g.text.find(h.str()) != std::string::npos && g.text.find(lo.str()) != std::string::npos && g.text.find(hi.str()) != std::string::npos, "perf-summary",
                m << " logs at level " << g.level << " " << mon::q(g.text) << ", expected " << mon::q(h.str() + lo.str() + hi.str()));
      mon::stat("obs.perf_summaries");
    };
    PERF_MON_SUMMARY_INFO(name("p"), name("a"));
    { std::vector<Got> g = taken(); if (!perf_build) off("PERF_MON_SUMMARY_INFO"); else { MON_CHECK(g.size() == 1, "perf-summary", "PERF_MON_SUMMARY_INFO logs " << g.size() << " messages"); summary("PERF_MON_SUMMARY_INFO", g[0], 2, "p::a", true); } }
    PERF_MON_SUMMARY_INFO(name("q"), name("n"));
    { std::vector<Got> g = taken(); if (perf_build) { MON_CHECK(g.size() == 1, "perf-summary", "PERF_MON_SUMMARY_INFO logs " << g.size() << " messages"); summary("PERF_MON_SUMMARY_INFO", g[0], 2, "q::n", false); } }
    PERF_MON_SUMMARY_PREFIX_INFO(name("p"));
    { std::vector<Got> g = taken(); if (!perf_build) off("PERF_MON_SUMMARY_PREFIX_INFO"); else { MON_CHECK(g.size() == 1, "perf-summary", "PERF_MON_SUMMARY_PREFIX_INFO logs " << g.size() << " messages");
        summary("PERF_MON_SUMMARY_PREFIX_INFO", g[0], 2, "p::a", true); summary("PERF_MON_SUMMARY_PREFIX_INFO", g[0], 2, "p::c", true);
        MON_CHECK(g[0].text.find("s: " + stp.str()) != std::string::npos && g[0].text.find("::b") == std::string::npos, "perf-summary", "PERF_MON_SUMMARY_PREFIX_INFO logs " << mon::q(g[0].text)); } }
    PERF_MON_SUMMARY_ALL_INFO;
    { std::vector<Got> g = taken(); if (!perf_build) off("PERF_MON_SUMMARY_ALL_INFO"); else { MON_CHECK(g.size() == 3, "perf-summary", "PERF_MON_SUMMARY_ALL_INFO logs " << g.size() << " messages");
        summary("PERF_MON_SUMMARY_ALL_INFO", g[0], 2, "::c", true); summary("PERF_MON_SUMMARY_ALL_INFO", g[1], 2, "p::c", true); summary("PERF_MON_SUMMARY_ALL_INFO", g[2], 2, "q::b", true); } }
    PERF_MON_SUMMARY_DEBUG(name("p"), name("a")); PERF_MON_SUMMARY_TRACE(name("p"), name("a"));
    PERF_MON_SUMMARY_PREFIX_DEBUG(name("p")); PERF_MON_SUMMARY_PREFIX_TRACE(name("p"));
    { std::vector<Got> g = taken(); for (size_t i = 0; i < g.size(); ++i) MON_CHECK(perf_build && debug_build && g[i].level < 2, "perf-level", "a debug summary is logged at level " << g[i].level); if (!perf_build) off("PERF_MON_SUMMARY_DEBUG"); }
  }
  // a disabled prefix records nothing more
  PERF_MON_DISABLE(name("q"));
  PERF_MON_PRINT_INFO_P(name("t"), name("z"), name("q"));
  NONE("PERF_MON_PRINT_INFO_P of a disabled prefix")
  PERF_MON_ENABLE_ALL(true);
  now_ += 7000; clock_set(now_);
  PERF_MON_PRINT_INFO_P(name("t"), name("z"), name("q"));
  AFTER("PERF_MON_PRINT_INFO_P with all prefixes enabled", t0, "q", "z", 2)
  PERF_MON_ENABLE_ALL(false);
  PERF_MON_PRINT_INFO_P(name("t"), name("z"), name("q"));
  NONE("PERF_MON_PRINT_INFO_P of a disabled prefix")
  // a statement without arguments in every build
  static const char *all[] = { XSTR(PERF_MON_SUMMARY_ALL_INFO), XSTR(PERF_MON_SUMMARY_ALL_DEBUG), XSTR(PERF_MON_SUMMARY_ALL_TRACE) };
  for (int i = 0; i < 3; ++i) MON_CHECK(strncmp(all[i], "PERF_MON_", 9) != 0, "perf-macro-form", all[i] << " is no statement in this build");
  Performance::instance().removeOutputStream(s);
  delete s;
}

void mon::run_case(uint64_t c, Rng& r)
{
  now_ = 1400000000ll * 1000000000ll + r.range(0, 999999) * 1000;
  clock_set(now_);
  limit_a = limit_b = 0;
  sa->setLogLevel(il::eLL_TRACE); sb->setLogLevel(il::eLL_TRACE);
  sa->got.clear(); sb->got.clear(); expected.clear();
  timers(r);
  macros(r);
  if (c % 4 == 0) in_child([&]() { perf(r); });
  if (want_sample()) sample(std::string("timers and macros, ") + (debug_build ? "debug" : "release") + (perf_build ? ", performance monitor" : ""));
}
void mon::setup()
{
  icl_core::config::setValue("/IclCore/Logging/OutputStream1/OutputStreamName", "None");
  static const char *streams[] = { "TimerA", "TimerB", "Performance" };
  for (int i = 0; i < 3; ++i)
  {
    icl_core::config::setValue("/IclCore/Logging/LogStream" + std::to_string(i + 1) + "/Name", streams[i]);
    icl_core::config::setValue("/IclCore/Logging/LogStream" + std::to_string(i + 1) + "/LogLevel", "Trace");
  }
  il::LoggingManager::instance().initialize();
  sa = new Sink("a", false); sb = new Sink("b", false);
  TimerA::instance().addOutputStream(sa);
  TimerB::instance().addOutputStream(sb);
}
void mon::teardown()
{
  TimerA::instance().removeOutputStream(sa); TimerB::instance().removeOutputStream(sb);
  delete sa; delete sb;
  il::LoggingManager::instance().shutdown();
}
