// P50: the statistics of the performance monitor are those of the recorded samples.
#include "mon_log.h"
#include "mon_clock.h"
#include <algorithm>
#include <math.h>
#include "icl_core_config/Config.h"
#include "icl_core_performance_monitor/PerformanceMonitor.h"
using logmon::Sink;
typedef icl_core::perf_mon::PerformanceMonitor PM;
typedef std::map<std::string, std::map<std::string, std::vector<double> > > Data;      // prefix, name

static Sink *sink;
static Data times, plain;
static std::map<std::string, std::map<std::string, double> > fixed;
static std::set<std::string> enabled, stale;
static std::map<std::string, int64_t> timers;
static bool all, on, print_stop;
static int64_t now_;

static bool is_enabled(const std::string& p) { return (on && enabled.count(p)) || all; }
#ifdef _IC_DEBUG_
static const bool DEBUG_SHOWN = true;
#else
static const bool DEBUG_SHOWN = false;           // the messages of these levels are not compiled
#endif
static bool absent(il::LogLevel level)
{
  if (level == il::eLL_INFO || !sink->got.empty()) return false;
  MON_CHECK(!DEBUG_SHOWN, "messages", "no message of level " << int(level) << " was logged");
  mon::stat("obs.not_compiled");
  return true;
}
static std::string take(il::LogLevel level)
{
  for (size_t i = 0; i < sink->got.size(); ++i) MON_CHECK(sink->got[i].level == int(level) && sink->got[i].stream == "Performance", "message-level", "a message which was to have the level " << int(level) << " has the level " << sink->got[i].level << " in the stream " << sink->got[i].stream);
  if (level != il::eLL_INFO) mon::stat("obs.other_levels");
  MON_CHECK(sink->got.size() == 1, "messages", sink->got.size() << " messages instead of one were logged");
  const std::string s = sink->got[0].text;
  sink->got.clear();
  return s;
}
static bool near(double a, double b) { return a == b || fabs(a - b) <= 1.1e-5 * std::max(fabs(a), fabs(b)) || fabs(a - b) < 1e-9; }
static bool number(const std::string& line, const std::string& label, double& v)
{
  if (line.compare(0, label.size() + 2, label + ": ") != 0) return false;
  char *e = NULL;
  v = strtod(line.c_str() + label.size() + 2, &e);
  return e != line.c_str() + label.size() + 2;
}
static std::vector<std::string> lines_of(const std::string& s)
{
  std::vector<std::string> v; std::istringstream in(s); std::string l;
  while (std::getline(in, l)) v.push_back(l);
  return v;
}

// One block of statistics; `done` receives its name
static void block(const std::vector<std::string>& ls, size_t at, const std::string& prefix, std::set<std::string>& done)
{
  const std::string title = ls[at].substr(12);
  MON_CHECK(title.compare(0, prefix.size() + 2, prefix + "::") == 0, "foreign-prefix", "statistics of " << mon::q(title) << " are shown for prefix " << mon::q(prefix));
  const std::string name = title.substr(prefix.size() + 2);
  if (at + 5 >= ls.size()) return;                   // cut off at the maximum length of a message
  const bool timed = ls[at + 1].compare(0, 7, "Called ") == 0;
  const size_t digits = ls[at + 1].find_first_of("0123456789");
  MON_CHECK(digits != std::string::npos, "count", "no count in " << mon::q(ls[at + 1]));
  const size_t count = strtoul(ls[at + 1].c_str() + digits, NULL, 10);
  std::vector<double> d = timed ? times[prefix][name] : plain[prefix][name];
  const std::string what = (timed ? "times " : "values ") + prefix + "::" + name;
  MON_CHECK(count == d.size(), "count", count << " samples are shown for the " << what << " of which " << d.size() << " were recorded");
  done.insert((timed ? "t" : "v") + name);
  if (d.empty()) return;
  double avg, med, mn, mx;
  if (!number(ls[at + 2], name + "_avg", avg) || !number(ls[at + 3], name + "_median", med) || !number(ls[at + 4], name + "_min", mn) || !number(ls[at + 5], name + "_max", mx))
  { MON_CHECK(at + 6 >= ls.size(), "form", "unexpected statistics of the " << what << ": " << mon::q(ls[at + 2] + "/" + ls[at + 3] + "/" + ls[at + 4] + "/" + ls[at + 5])); return; }
  if (at + 6 >= ls.size()) return;                   // the last number may be cut off
  std::sort(d.begin(), d.end());
  double sum = 0;
  for (size_t i = 0; i < d.size(); ++i) sum += d[i];
  double scale = 0;
  for (size_t i = 0; i < d.size(); ++i) scale = std::max(scale, fabs(d[i]));
  MON_CHECK(near(avg, sum / double(d.size())) || fabs(avg - sum / double(d.size())) < 1e-12 * scale * double(d.size()), "mean", "the mean of " << d.size() << " " << what << " is shown as " << avg << " instead of " << sum / double(d.size()));
  MON_CHECK(near(mn, d.front()), "minimum", "the minimum of " << d.size() << " " << what << " is shown as " << mn << " instead of " << d.front());
  MON_CHECK(near(mx, d.back()), "maximum", "the maximum of " << d.size() << " " << what << " is shown as " << mx << " instead of " << d.back());
  const double lo = d[(d.size() - 1) / 2], hi = d[d.size() / 2];
  MON_CHECK(near(med, lo) || near(med, hi) || (med > lo && med < hi), "median", "the median of " << d.size() << " " << what << " is shown as " << med << " instead of " << lo << " to " << hi);
  mon::stat(timed ? "obs.time_blocks" : "obs.value_blocks");
  mon::state(mon::Hash().add(d.size()).add(uint64_t(int64_t(lo * 1000))).add(uint64_t(int64_t(d.back() * 1000))).add(uint64_t(timed)));
}

static size_t recorded(Data& d, const std::string& p) { size_t n = 0; for (std::map<std::string, std::vector<double> >::iterator i = d[p].begin(); i != d[p].end(); ++i) n += !i->second.empty(); return n; }

static void judge_prefix(const std::string& text, const std::string& prefix)
{
  const std::vector<std::string> ls = lines_of(text);
  const bool cut = text.size() > 1900;
  std::set<std::string> done, statics;
  bool in_static = false;
  for (size_t i = 0; i < ls.size(); ++i)
  {
    if (ls[i].find("Static data") != std::string::npos) { in_static = true; continue; }
    if (ls[i].compare(0, 5, "#### ") == 0) in_static = false;
    if (ls[i].compare(0, 12, "Summary for ") == 0) { in_static = false; block(ls, i, prefix, done); }
    if (in_static)
    {
      const size_t c = ls[i].rfind(": ");
      if (c == std::string::npos || (cut && i + 1 == ls.size())) continue;
      const std::string n = ls[i].substr(0, c);
      if (stale.count(prefix + "::" + n)) continue;
      MON_CHECK(fixed[prefix].count(n) && near(fixed[prefix][n], atof(ls[i].c_str() + c + 2)), "static", "the static value " << mon::q(ls[i]) << " of prefix " << mon::q(prefix) << " is shown" << (fixed[prefix].count(n) ? "" : ", which was never given"));
      statics.insert(n);
      mon::stat("obs.static_values");
    }
  }
  if (cut) return;
  for (std::map<std::string, std::vector<double> >::iterator i = times[prefix].begin(); i != times[prefix].end(); ++i) MON_CHECK(i->second.empty() || done.count("t" + i->first), "missing", "the times " << i->first << " of prefix " << mon::q(prefix) << " are not shown");
  for (std::map<std::string, std::vector<double> >::iterator i = plain[prefix].begin(); i != plain[prefix].end(); ++i) MON_CHECK(i->second.empty() || done.count("v" + i->first), "missing", "the values " << i->first << " of prefix " << mon::q(prefix) << " are not shown");
  for (std::map<std::string, double>::iterator i = fixed[prefix].begin(); i != fixed[prefix].end(); ++i) MON_CHECK(statics.count(i->first) || stale.count(prefix + "::" + i->first), "missing", "the static value " << i->first << " of prefix " << mon::q(prefix) << " is not shown");
  MON_CHECK(done.size() == recorded(times, prefix) + recorded(plain, prefix), "never-recorded", "statistics of " << done.size() << " names are shown for prefix " << mon::q(prefix) << ", " << recorded(times, prefix) + recorded(plain, prefix) << " have been recorded");
  mon::stat("obs.summaries");
}

// the level is left out when it is the default one
#define LEVELLED(f, ...) (lv == il::eLL_INFO ? f(__VA_ARGS__) : f(__VA_ARGS__, lv))

static void one_life(mon::Rng& r)
{
  static const char *P[] = { "", "p", "pp", "all_prefix", "P x" };
  static const char *N[] = { "event", "event2", "e", "load", "a:b", "x_avg", "part::event", "part::" };
  static const char *T[] = { "t0", "t1", "t2" };
  all = false; on = true; print_stop = true;
  now_ = 1500000000ll * 1000000000ll + r.range(0, 999999) * 1000;      // the clock of the library counts microseconds
  clock_set(now_);
  if (r.chance(90)) { PM::initialize(uint32_t(r.below(6)), uint32_t(r.below(20))); enabled.insert(""); }
  const int ops = int(r.range(1, 120));
  const bool cancelling = r.chance(25);
  const double unit = cancelling ? 1 : r.chance(30) ? 1e-3 : r.chance(30) ? 1e6 : 1;
  for (int op = 0; op < ops; ++op)
  {
    const std::string p = P[r.below(5)], n = N[r.below(8)], t = T[r.below(3)];
    const il::LogLevel lv = r.chance(70) ? il::eLL_INFO : r.chance(50) ? il::eLL_DEBUG : il::eLL_TRACE;
    // large samples of both signs: the small ones decide the mean
    const bool large = cancelling && r.chance(50);
    const double v = large ? (r.chance(50) ? 16777216.0 : -16777216.0) + double(r.range(-16, 16)) / 8 : r.chance(10) ? 0 : double(r.range(-9999, 99999)) / 100 * unit;
    switch (r.below(20))
    {
      case 0: mon::phase("enablePrefix"); PM::enablePrefix(p); enabled.insert(p); break;
      case 1: if (r.chance(40)) { mon::phase("disablePrefix"); PM::disablePrefix(p); enabled.erase(p); mon::stat("obs.disable"); } break;
      case 2: if (on && r.chance(40)) { all = r.chance(50); mon::phase("enableAll"); PM::enableAll(all); } break;
      case 3: if (!all && r.chance(20)) { on = !on; PM::getInstance()->m_enabled = on; } break;
      case 4: print_stop = r.chance(60); PM::getInstance()->m_print_stop = print_stop; break;
      case 5: case 6: mon::phase("start"); PM::start(t); if (on) timers[t] = now_; break;
      case 7: case 8: case 9:
      {
        const bool reset = r.chance(50);
        if (!reset && !timers.count(t)) break;
        now_ += r.chance(10) ? 0 : r.range(1, r.chance(30) ? 5000000 : 3000) * 1000;
        clock_set(now_);
        mon::phase(reset ? "startStop" : "measurement");
        const double got = reset ? LEVELLED(PM::startStop, t, n, p) : LEVELLED(PM::measurement, t, n, p);
        if (!is_enabled(p)) { MON_CHECK(got == 0, "disabled", "a measurement of the disabled prefix " << mon::q(p) << " returns " << got); mon::stat("obs.disabled"); break; }
        if (!timers.count(t)) { MON_CHECK(got == 0, "first", "startStop returns " << got << " ms for a timer which was not running"); timers[t] = now_; break; }
        const double want = double(now_ - timers[t]) / 1e6;
        MON_CHECK(fabs(got - want) <= 1e-9 * (1 + want), "duration", (reset ? "startStop" : "measurement") << " returns " << got << " ms after " << want << " ms");
        times[p][n].push_back(want);
        if (reset) timers[t] = now_;
        if (print_stop && !absent(lv))
        {
          const std::string s = take(lv);
          std::ostringstream head; head << p << "::" << n << ": ";
          MON_CHECK(s.compare(0, head.str().size(), head.str()) == 0 && near(atof(s.c_str() + head.str().size()), want), "printed-duration", "a duration of " << want << " ms is printed as " << mon::q(s));
        }
        mon::stat("obs.durations");
        break;
      }
      case 10: case 11: case 12: mon::phase("addData"); PM::addData(n, v, p); if (is_enabled(p)) times[p][n].push_back(v); else mon::stat("obs.disabled"); break;
      case 13: case 14: mon::phase("addNonTimeData"); PM::addNonTimeData(n, v, p); if (is_enabled(p)) plain[p][n].push_back(v); else mon::stat("obs.disabled"); break;
      case 15: mon::phase("addStaticData"); PM::addStaticData(n, v, p); if (is_enabled(p)) { fixed[p][n] = v; stale.erase(p + "::" + n); } break;
      case 16:
      {
        mon::phase("printSummary of a name " + std::string(!times[p][n].empty() ? "with times" : !plain[p][n].empty() ? "with values" : "without samples"));
        LEVELLED(PM::printSummary, p, n);
        if (absent(lv)) break;
        const std::string s = take(lv);
        const std::vector<std::string> ls = lines_of(s);
        std::set<std::string> done;
        for (size_t i = 0; i < ls.size(); ++i) if (ls[i].compare(0, 12, "Summary for ") == 0) block(ls, i, p, done);
        MON_CHECK(times[p][n].empty() || done.count("t" + n), "missing", "the summary of the times " << p << "::" << n << " is not shown but " << mon::q(s));
        MON_CHECK(plain[p][n].empty() || done.count("v" + n), "missing", "the summary of the values " << p << "::" << n << " is not shown but " << mon::q(s));
        if (done.size() == 2) mon::stat("obs.summaries_of_both");
        if (times[p][n].empty()) mon::stat("obs.unknown_summaries");
        break;
      }
      case 17: mon::phase("printSummaryFromPrefix"); LEVELLED(PM::printSummaryFromPrefix, p); if (!absent(lv)) judge_prefix(take(lv), p); break;
      case 18:
      {
        mon::phase("printSummaryAll");
        if (lv == il::eLL_INFO) PM::printSummaryAll(); else PM::printSummaryAll(lv);
        if (!DEBUG_SHOWN && lv != il::eLL_INFO && sink->got.empty()) break;
        MON_CHECK(sink->got.size() == enabled.size(), "all", "printSummaryAll shows " << sink->got.size() << " instead of " << enabled.size() << " prefixes");
        std::vector<logmon::Got> g; g.swap(sink->got);
        for (size_t i = 0; i < g.size(); ++i) MON_CHECK(g[i].level == int(lv), "message-level", "a summary which was to have the level " << int(lv) << " has the level " << g[i].level);
        size_t k = 0;
        for (std::set<std::string>::iterator e = enabled.begin(); e != enabled.end(); ++e) judge_prefix(g[k++].text, *e);
        break;
      }
      case 19:
        if (!r.chance(15)) break;
        mon::phase("initialize again");
        PM::initialize(uint32_t(r.below(6)), uint32_t(r.below(20)));
        enabled.insert(""); times.clear(); plain.clear();
        for (std::map<std::string, std::map<std::string, double> >::iterator i = fixed.begin(); i != fixed.end(); ++i) for (std::map<std::string, double>::iterator k = i->second.begin(); k != i->second.end(); ++k) stale.insert(i->first + "::" + k->first);
        mon::stat("obs.initialize_again");
        break;
    }
    MON_CHECK(sink->got.empty(), "messages", "unexpected message " << mon::q(sink->got[0].text));
  }
  for (int i = 0; i < 5; ++i) { mon::phase("printSummaryFromPrefix"); PM::printSummaryFromPrefix(P[i]); judge_prefix(take(il::eLL_INFO), P[i]); }
  if (mon::want_sample()) { std::ostringstream o; o << ops << " operations; times of"; for (Data::iterator i = times.begin(); i != times.end(); ++i) for (std::map<std::string, std::vector<double> >::iterator k = i->second.begin(); k != i->second.end(); ++k) if (!k->second.empty()) o << " " << i->first << "::" << k->first << "x" << k->second.size(); mon::sample(o.str()); }
}

void mon::run_case(uint64_t, Rng& r) { mon::in_child([&]() { one_life(r); }); }
void mon::setup()
{
  icl_core::config::setValue("/IclCore/Logging/OutputStream1/OutputStreamName", "None");
  icl_core::config::setValue("/IclCore/Logging/LogStream1/Name", "Performance");
  icl_core::config::setValue("/IclCore/Logging/LogStream1/LogLevel", "Trace");
  il::LoggingManager::instance().initialize();
  sink = new Sink("sink", false);
  Performance::instance().addOutputStream(sink);
}
void mon::teardown() { Performance::instance().removeOutputStream(sink); delete sink; il::LoggingManager::instance().shutdown(); }
