// P47: shutdown delivers what was logged before, leaves no thread behind, and logging can be initialised again.
#include "mon_logcfg.h"
#include <memory>
#include <thread>
using namespace logmon;
namespace cfg = icl_core::config;

DECLARE_LOG_STREAM(Alpha)
DECLARE_LOG_STREAM(Beta)
REGISTER_LOG_STREAM(Alpha)
REGISTER_LOG_STREAM(Beta)

static const char FORMAT[] = "~S ~E";

struct Plan                        // of a round of logging: known before the child is started
{
  int threads; std::vector<int> n;
  void draw(mon::Rng& r, bool slow) { threads = int(r.range(0, 4)); n.clear(); for (int t = 0; t < threads; ++t) n.push_back(int(r.range(0, slow ? 20 : 60))); }
  size_t total() const { size_t s = 0; for (size_t i = 0; i < n.size(); ++i) s += size_t(n[i]); return s; }
};
static std::string message(int cycle, int t, int i) { std::ostringstream o; o << "m" << cycle << "." << t << "." << i; return o.str(); }
static const char *stream_of(int i) { static const char *n[] = { "Alpha", "Beta", "Default", "Dyn" }; return n[i % 4]; }

static void log_one(il::LogStream *dyn, int i, const std::string& s)
{
  switch (i % 4)
  {
    case 0: LOGGING_WARNING(Alpha, s << il::endl); break;
    case 1: LOGGING_INFO(Beta, s << il::endl); break;
    case 2: LOGGING_ERROR(il::Default, s << il::endl); break;
    default: SLOGGING_WARNING((*dyn), s << il::endl); break;
  }
}

// The lines of one round as an output received them
static void judge_round(const std::string& out, const std::vector<std::string>& got, const Plan& p, int cycle)
{
  std::set<std::string> seen;
  std::vector<int> last(size_t(p.threads), -1);
  for (size_t i = 0; i < got.size(); ++i)
  {
    std::ostringstream pre; pre << " m" << cycle << ".";
    const size_t at = got[i].find(pre.str());
    if (at == std::string::npos) continue;
    int t = -1, k = -1, used = -1;
    const std::string rest = got[i].substr(at + pre.str().size());
    MON_CHECK(sscanf(rest.c_str(), "%d.%d%n", &t, &k, &used) == 2 && size_t(used) == rest.size() && t >= 0 && t < p.threads && k >= 0 && k < p.n[size_t(t)], "not-written",
              out << " holds " << mon::q(got[i]) << ", which was not logged");
    MON_CHECK(got[i].substr(0, at) == stream_of(k), "wrong-stream", out << " holds " << mon::q(got[i]) << " instead of a message of " << stream_of(k));
    MON_CHECK(seen.insert(rest).second, "duplicate", out << " received " << mon::q(got[i]) << " twice");
    MON_CHECK(k > last[size_t(t)], "order", out << " received message " << k << " of thread " << t << " behind message " << last[size_t(t)]);
    last[size_t(t)] = k;
  }
  if (seen.size() != p.total())
    for (int t = 0; t < p.threads; ++t) for (int k = 0; k < p.n[size_t(t)]; ++k)
    {
      const std::string m = message(cycle, t, k).substr(1);
      MON_CHECK(seen.count(m.substr(m.find('.') + 1)), "lost", out << " never received message " << k << " of thread " << t << " of round " << cycle << ", which had been logged before the shutdown; " << seen.size() << " of " << p.total() << " arrived");
    }
  mon::stat("obs.delivered", seen.size());
}

static std::vector<std::string> kept(const std::string& name)
{
  std::lock_guard<std::mutex> l(store().mtx);
  std::vector<std::string> v;
  std::vector<Line>& ls = store().lines[name];
  for (size_t i = 0; i < ls.size(); ++i)
  {
    std::string t = ls[i].text;
    if (!t.empty() && t[t.size() - 1] == '\n') t.resize(t.size() - 1);
    v.push_back(ls[i].stream + " " + t);
  }
  ls.clear();
  return v;
}

void mon::run_case(uint64_t, Rng& r)
{
  const bool slow = cfg().mode == "tsan" || cfg().mode == "asan";
  const int sinks = int(r.range(0, 3));
  const bool file = sinks == 0 ? r.chance(50) : r.chance(30);
  const bool to_cout = sinks == 0 && !file;
  const int cycles = int(r.range(1, 4));
  const bool exit_mode = r.chance(30);               // the last round is ended by the end of the program
  std::vector<Plan> plans(static_cast<size_t>(cycles));
  for (size_t c = 0; c < plans.size(); ++c) plans[c].draw(r, slow);
  const std::string path = "p47.log";
  unlink(path.c_str());
  mon::Hash h;
  h.add(uint64_t(sinks * 4 + (file ? 2 : 0) + (exit_mode ? 1 : 0)));
  const uint64_t seed = r.next();
  const bool real_exit = exit_mode && (file || to_cout);
  mon::in_child([&]() {
    Rng r(seed);
    sched_perturb(unsigned(r.below(3)) * 8, r.next());
    if (mon::cfg().mode == "tsan") { std::thread d([]() { }); d.join(); mon::sleep_us(2000); }    // the sanitizer starts a thread of its own with the first one
    const int base = os_threads();
    static CoutCapture *out = new CoutCapture();
    std::vector<std::string> names;
    for (int i = 0; i < sinks; ++i)
    {
      std::ostringstream k, n; k << "/IclCore/Logging/OutputStream" << i; n << "Out" << i;
      names.push_back(n.str());
      cfg::setValue(k.str() + "/OutputStreamName", std::string(r.chance(70) ? "WorkSink" : "SyncSink"));
      cfg::setValue(k.str() + "/Name", n.str());
      cfg::setValue(k.str() + "/LogLevel", std::string("Info"));
    }
    if (file)
    {
      cfg::setValue("/IclCore/Logging/OutputStreamF/OutputStreamName", "File");
      cfg::setValue("/IclCore/Logging/OutputStreamF/LogLevel", "Info");
      cfg::setValue("/IclCore/Logging/OutputStreamF/FileName", path);
      cfg::setValue("/IclCore/Logging/OutputStreamF/Format", FORMAT);
      if (r.chance(50)) cfg::setValue("/IclCore/Logging/OutputStreamF/Flush", r.chance(50) ? "yes" : "no");
    }
    if (to_cout) cfg::setValue("/IclCore/Logging/Default/Format", FORMAT);
    static const char *lv[] = { "Trace", "Debug", "Info" };
    if (r.chance(50)) { cfg::setValue("/IclCore/Logging/LogStream1/Name", "Beta"); cfg::setValue("/IclCore/Logging/LogStream1/LogLevel", lv[r.below(3)]); }
    if (r.chance(40)) { store().delay_every = r.range(1, 15); store().delay_us = r.range(20, 300); }
    il::LoggingManager& m = il::LoggingManager::instance();
    for (int c = 0; c < cycles; ++c)
    {
      const Plan& p = plans[size_t(c)];
      const bool last = c + 1 == cycles;
      std::unique_ptr<il::LifeCycle> life;
      if (last && exit_mode && to_cout)
      {
        if (m.initialized()) m.shutdown();
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd < 0 || dup2(fd, 1) < 0) mon::broken("stdout");
        close(fd);
        std::cout.rdbuf(out->old);
      }
      mon::phase("initialising");
      il::LogStream *dyn = NULL;
      switch (r.below(4))
      {
        case 0: if (!(last && exit_mode))
        {
          int argc = 1; char a0[] = "x"; char *argv[] = { a0, NULL };
          life.reset(new il::LifeCycle(argc, argv)); mon::stat("obs.lifecycle"); break;
        }                                                                   // fall through
        case 1: il::initialize(); break;
        case 2: m.initialize(); m.initialize(); mon::stat("obs.init_twice"); break;
        case 3: Alpha::instance().getLogLevel(); mon::stat("obs.init_implicit"); break;
      }
      MON_CHECK(m.initialized(), "not-initialized", "initialisation " << c << " leaves logging uninitialised");
      MON_CHECK(&Alpha::instance() == &Alpha::instance() && Alpha::instance().name() == "Alpha", "instance", "the stream Alpha is not available");
      dyn = new il::LogStream("Dyn");
      m.registerLogStream(dyn);
      m.configure();
      // a stream and an output of our own live on while the framework is shut down
      il::LogStream *own = NULL; Sink *own_sink = NULL;
      if (r.chance(30)) { own = new il::LogStream("Own"); own_sink = new Sink("OwnSink", r.chance(50)); own_sink->start(); own->addOutputStream(own_sink); }
      locks::Threads th;
      mon::phase("logging");
      for (int t = 0; t < p.threads; ++t)
      {
        const int n = p.n[size_t(t)];
        th.add([=]() { for (int i = 0; i < n; ++i) log_one(dyn, i, message(c, t, i)); });
      }
      if (r.chance(30)) { m.configure(); mon::stat("obs.configure_while_logging"); }
      th.join();
      std::atomic<int> own_n(0); std::atomic<bool> go(true);
      locks::Threads th2;
      if (own) th2.add([&]() { for (int i = 0; i < 200 && (go || i < 20); ++i) { std::ostringstream o; o << "own" << i; SLOGGING_ERROR((*own), o.str() << il::endl); ++own_n; } });
      if (last && exit_mode)
      {
        go = false; th2.join();
        if (own) { own_sink->shutdown(); delete own; delete own_sink; own = NULL; }
        if (real_exit)
        {
          mon::stat("obs.exits");
          return;
        }
      }
      bool pending = false;
      {
        std::lock_guard<std::mutex> l(store().mtx);
        for (size_t i = 0; i < names.size(); ++i) pending = pending || store().lines[names[i]].size() < p.total();
      }
      if (pending) mon::stat("obs.pending_at_shutdown");
      mon::phase("shutdown");
      if (life) life.reset();
      else if (r.chance(50)) il::shutdown();
      else m.shutdown();
      if (r.chance(25)) { m.shutdown(); mon::stat("obs.shutdown_twice"); }
      go = false; th2.join();
      mon::phase("judging");
      MON_CHECK(!m.initialized(), "still-initialized", "logging is still initialised behind shutdown");
      if (own)
      {
        own_sink->shutdown();
        MON_CHECK(int(own_sink->got.size()) == own_n, "own-stream", "an output which does not belong to the framework received " << own_sink->got.size() << " of " << own_n << " messages of a stream which does not either while the framework was shut down");
        own->removeOutputStream(own_sink); delete own; delete own_sink;
        mon::stat("obs.own");
      }
      const bool gone = mon::wait_for([&]() { return os_threads() <= base; }, 4000);
      MON_CHECK(gone, "threads", "behind the shutdown the process has " << os_threads() << " threads instead of " << base);
      for (size_t i = 0; i < names.size(); ++i)
      {
        MON_CHECK(store().live[names[i]] == 0 && store().made[names[i]] == c + 1, "outputs", "behind shutdown " << c + 1 << " " << store().made[names[i]] << " outputs " << names[i] << " have been created, and " << store().live[names[i]] << " are left");
        MON_CHECK(store().starts[names[i]] == store().stops[names[i]], "hooks", "onStart was called " << store().starts[names[i]] << " times, onShutdown " << store().stops[names[i]] << " times");
        judge_round("output " + names[i], kept(names[i]), p, c);
      }
      if (to_cout) judge_round("the standard output", split_lines(out->take()), p, c);
      if (file) { std::string s; slurp(path, s); judge_round("the log file", split_lines(s), p, c); }
      mon::stat("obs.rounds");
      if (r.chance(30))
      {
        mon::phase("logging behind the shutdown");
        LOGGING_ERROR(Alpha, "late" << il::endl);
        LOGGING_ERROR(il::Default, "late" << il::endl);
        mon::stat("obs.late");
        if (r.chance(50)) m.shutdown();
        for (size_t i = 0; i < names.size(); ++i)
        {
          if (!m.initialized()) { std::vector<std::string> k = kept(names[i]); MON_CHECK(k.size() <= 2, "late-twice", "2 messages behind the shutdown were delivered " << k.size() << " times"); }
          store().made[names[i]] = c + (m.initialized() ? 2 : 1);
        }
      }
    }
    if (m.initialized()) m.shutdown();
    sched_perturb(0, 1);
  }, real_exit);
  if (real_exit)
  {
    std::string s;
    const bool there = slurp(path, s);
    MON_CHECK(there, "no-file", "there is no log file behind the end of the program");
    judge_round(file ? "the log file at the end of the program" : "the standard output at the end of the program", split_lines(s), plans.back(), cycles - 1);
    mon::stat("obs.exit_judged");
  }
  unlink(path.c_str());
  for (size_t c = 0; c < plans.size(); ++c) { h.add(uint64_t(plans[c].threads)); for (size_t t = 0; t < plans[c].n.size(); ++t) h.add(uint64_t(plans[c].n[t])); }
  mon::state(h);
  if (mon::want_sample()) { std::ostringstream o; o << cycles << " rounds with " << sinks << " sinks" << (file ? " and a file" : "") << (to_cout ? " on stdout" : "") << (exit_mode ? ", ended by the end of the program" : "") << "; last round " << plans.back().total() << " messages of " << plans.back().threads << " threads"; mon::sample(o.str()); }
}
void mon::setup() { register_outputs(); }
void mon::teardown() { }
