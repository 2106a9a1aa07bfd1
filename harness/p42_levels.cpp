// P42: a message passes exactly if its level passes the stream and the output.
#include "mon_log.h"
#include "icl_core_config/Config.h"
using namespace logmon;
using locks::tick;

static std::map<std::string, Sink *> sinks;
static bool use_worker[4];
static il::LogOutputStream *make_sink(const std::string& name, const std::string& prefix, il::LogLevel level)
{
  Sink *s = new Sink(name, use_worker[sinks.size() % 4], level, prefix);
  sinks[name] = s;
  return s;
}

// One changeable value with its history.
struct Var
{
  struct V { int value; uint64_t call, ret; };
  std::vector<V> h;
  void set(int v, uint64_t call, uint64_t ret) { V x = { v, call, ret }; h.push_back(x); }
  int now() const { return h.back().value; }
  // the values that may have been seen during [c, r]
  std::vector<int> during(uint64_t c, uint64_t r) const
  {
    std::vector<int> out;
    for (size_t i = 0; i < h.size(); ++i) if (h[i].call < r && (i + 1 == h.size() || h[i + 1].ret > c)) out.push_back(h[i].value);
    return out;
  }
};
struct Rec { int stream, level; uint64_t call, ret; std::string text; };

static const char *level_name[] = { "Trace", "Debug", "Info", "Warning", "Error", "Mute" };

static void names(mon::Rng& r)
{
  for (int l = 0; l <= 5; ++l)
  {
    MON_CHECK(std::string(il::logLevelDescription(il::LogLevel(l))) == level_name[l], "name", "level " << l << " is called " << il::logLevelDescription(il::LogLevel(l)));
    il::LogLevel x = il::LogLevel((l + 1) % 6);
    MON_CHECK(il::stringToLogLevel(level_name[l], x) && int(x) == l, "value", "the level name " << level_name[l] << " gives " << int(x));
  }
  for (int i = 0; i < 30; ++i)
  {
    std::string t = level_name[r.below(6)];
    switch (r.below(6))
    {
      case 0: t += r.str("x \n", 1, 2); break;
      case 1: t = t.substr(0, size_t(r.below(t.size()))); break;
      case 2: t[0] = char(t[0] + 32); break;
      case 3: t = ""; break;
      case 4: t = r.str("TraceDbugInfoWn", 0, 8); break;
      case 5: t += level_name[r.below(6)]; break;
    }
    bool known = false;
    for (int l = 0; l <= 5; ++l) known = known || t == level_name[l];
    const int before = int(r.below(6));
    il::LogLevel x = il::LogLevel(before);
    const bool ok = il::stringToLogLevel(t, x);
    MON_CHECK(ok == known && (known || int(x) == before), "text", "the text " << mon::q(t) << " was " << (ok ? "" : "not ") << "read as a level, target " << int(x) << " before " << before);
  }
  MON_CHECK(std::string(il::logLevelDescription(il::LogLevel(6))) == "" && std::string(il::logLevelDescription(il::LogLevel(7))) == "", "unknown-value", "a value that is no level has a name");
  mon::stat("obs.names", 42);
}

static void levels(mon::Rng& r, bool concurrent)
{
  sched_perturb(concurrent ? unsigned(r.below(2)) * 8 : 0, r.next());
  for (int i = 0; i < 4; ++i) use_worker[i] = r.chance(50);
  // outputs and their levels come from the configuration
  const size_t O = size_t(r.range(1, 3)), S = size_t(r.range(1, 3));
  il::LoggingManager& m = il::LoggingManager::instance();
  m.registerLogOutputStream("VerifSink", &make_sink);
  std::vector<Var> ol(O), sl(S), sa(S);
  std::vector<std::set<size_t> > con(O);
  for (size_t o = 0; o < O; ++o)
  {
    std::ostringstream p; p << "/IclCore/Logging/OutputStream" << o;
    std::ostringstream n; n << "Out" << o;
    const int l = int(r.below(6));
    icl_core::config::setValue(p.str() + "/OutputStreamName", "VerifSink");
    icl_core::config::setValue(p.str() + "/Name", n.str());
    icl_core::config::setValue(p.str() + "/LogLevel", level_name[l]);
    ol[o].set(l, 0, 0);
    icl_core::config::setValue(p.str() + "/LogStream1", "nothing");   // connected by hand below
  }
  m.initialize();
  std::vector<il::LogStream *> st;
  std::vector<Sink *> out;
  for (size_t o = 0; o < O; ++o)
  {
    std::ostringstream n; n << "Out" << o;
    MON_CHECK(sinks.count(n.str()), "not-created", "the configured output " << n.str() << " was not created");
    out.push_back(sinks[n.str()]);
    MON_CHECK(int(out[o]->getLogLevel()) == ol[o].now(), "initial", "the output configured with level " << level_name[ol[o].now()] << " has " << int(out[o]->getLogLevel()));
  }
  for (size_t s = 0; s < S; ++s)
  {
    std::ostringstream n; n << "Stream" << s;
    const bool def = r.chance(20);
    const int l = def ? int(il::eLL_INFO) : int(r.below(6));
    il::LogStream *x = def ? new il::LogStream(n.str()) : new il::LogStream(n.str(), il::LogLevel(l));
    m.registerLogStream(x);
    st.push_back(x);
    sl[s].set(l, 0, 0); sa[s].set(1, 0, 0);
    for (size_t o = 0; o < O; ++o) if (r.chance(80)) { x->addOutputStream(out[o]); con[o].insert(s); }
  }
  mon::Hash h;
  std::vector<std::vector<Rec> > recs;
  std::atomic<bool> stop(false);
  locks::Threads th;
  const int T = concurrent ? int(r.range(1, 3)) : 0;
  recs.resize(size_t(T) + 1);
  struct Log
  {
    static void one(mon::Rng& q, std::vector<il::LogStream *>& st, std::vector<Rec>& v, int id, int i)
    {
      Rec x;
      x.stream = int(q.below(st.size())); x.level = int(q.below(5));
      std::ostringstream t; t << id << "." << i << "\n";
      x.text = t.str();
      il::LogStream& ls = *st[size_t(x.stream)];
      x.call = tick();
      if (q.chance(50)) SLOGGING_LOG(ls, il::LogLevel(x.level), id << "." << i << il::endl);
      else SLOGGING_FMT_LOG(ls, il::LogLevel(x.level), "%d.%d\n", id, i);
      x.ret = tick();
      v.push_back(x);
    }
  };
  for (int t = 0; t < T; ++t)
  {
    mon::Rng q(r.next());
    th.add([&, t, q]() mutable {
      for (int i = 0; i < 400 && !stop.load(std::memory_order_relaxed); ++i) { Log::one(q, st, recs[size_t(t) + 1], t + 1, i); if (q.chance(10)) mon::sleep_us(q.range(0, 80)); }
    });
  }
  const int steps = int(r.range(5, concurrent ? 25 : 80));
  for (int i = 0; i < steps; ++i)
  {
    const int what = int(r.below(10));
    uint64_t c = tick();
    if (what == 0)
    {
      const size_t s = size_t(r.below(S)); const bool a = r.chance(60);
      if (a && r.chance(50)) st[s]->setActive(); else st[s]->setActive(a);
      sa[s].set(a, c, tick());
      h.add(uint64_t(a));
      mon::stat("obs.activations");
    }
    else if (what == 1)
    {
      const size_t o = size_t(r.below(O)); const int l = int(r.below(6));
      out[o]->setLogLevel(il::LogLevel(l));
      ol[o].set(l, c, tick());
      h.add(uint64_t(l));
      mon::stat("obs.output_changes");
    }
    else if (what == 2)
    {
      const int l = int(r.below(6));
      mon::phase("setLogLevel");
      if (r.chance(50)) il::setLogLevel(il::LogLevel(l)); else m.setLogLevel(il::LogLevel(l));
      const uint64_t e = tick();
      for (size_t s = 0; s < S; ++s) sl[s].set(l, c, e);
      for (size_t o = 0; o < O; ++o) ol[o].set(l, c, e);
      h.add(uint64_t(10 + l));
      mon::stat("obs.global_changes");
    }
    else Log::one(r, st, recs[0], 0, i);
    for (size_t s = 0; s < S; ++s)
      MON_CHECK(int(st[s]->getLogLevel()) == sl[s].now() && int(st[s]->isActive()) == sa[s].now() && int(st[s]->initialLogLevel()) == sl[s].now(), "reported", "stream " << s << " reports level "
                << int(st[s]->getLogLevel()) << " active " << st[s]->isActive() << " instead of " << sl[s].now() << " and " << sa[s].now());
    if (r.chance(20))
    {
      // what a thread gets for writing
      const size_t s = r.below(S);
      il::ThreadStream& ts = st[s]->threadStream(il::LogLevel(r.below(6)));
      const int l = int(ts.getLogLevel());
      MON_CHECK(l == sl[s].now(), "reported", "a thread stream of stream " << s << " reports level " << l << " instead of " << sl[s].now());
      mon::stat("obs.thread_streams");
    }
    for (size_t o = 0; o < O; ++o) MON_CHECK(int(out[o]->getLogLevel()) == ol[o].now(), "reported", "output " << o << " reports level " << int(out[o]->getLogLevel()) << " instead of " << ol[o].now());
    if (concurrent && r.chance(30)) mon::sleep_us(r.range(0, 150));
  }
  stop.store(true, std::memory_order_relaxed);
  mon::phase("logging threads");
  th.join();
  for (size_t o = 0; o < O; ++o) out[o]->shutdown();
  size_t passed = 0, refused = 0, open = 0;
  for (size_t o = 0; o < O; ++o)
  {
    std::map<std::string, int> seen;
    for (size_t i = 0; i < out[o]->got.size(); ++i)
    {
      const Got& g = out[o]->got[i];
      ++seen[g.text];
    }
    for (size_t t = 0; t < recs.size(); ++t)
      for (size_t i = 0; i < recs[t].size(); ++i)
      {
        const Rec& x = recs[t][i];
        const size_t s = size_t(x.stream);
        bool must = con[o].count(s) > 0, may = must;
        const std::vector<int> a = sa[s].during(x.call, x.ret), l = sl[s].during(x.call, x.ret), k = ol[o].during(x.call, x.ret);
        bool any = false; for (size_t j = 0; j < a.size(); ++j) { must = must && a[j]; any = any || a[j]; } may = may && any;
        any = false; for (size_t j = 0; j < l.size(); ++j) { must = must && x.level >= l[j]; any = any || x.level >= l[j]; } may = may && any;
        any = false; for (size_t j = 0; j < k.size(); ++j) { must = must && x.level >= k[j]; any = any || x.level >= k[j]; } may = may && any;
        const int n = seen.count(x.text) ? seen[x.text] : 0;
        MON_CHECK(!(must && n != 1) && !(!may && n != 0) && n <= 1, must ? "held-back" : "passed", "a message of level " << level_name[x.level] << " on stream " << s
                  << (con[o].count(s) ? "" : " (not connected)") << " with level " << level_name[l.back()] << (a.back() ? "" : " (inactive)") << " was delivered " << n << " times to an output with level "
                  << level_name[k.back()] << (concurrent ? " while levels were changed" : ""));
        if (must) ++passed; else if (!may) ++refused; else ++open;
        if (!concurrent) mon::state(mon::Hash().add("l").add(uint64_t(x.level)).add(uint64_t(l.back())).add(uint64_t(a.back())).add(uint64_t(k.back())).add(uint64_t(n)));
      }
  }
  mon::stat("obs.passed", passed); mon::stat("obs.refused", refused);
  if (concurrent) { mon::stat("obs.while_changing", open); mon::state(h); }
  if (mon::want_sample()) { std::ostringstream o; o << S << " streams, " << O << " outputs, " << T << " logging threads: " << passed << " passed, " << refused << " refused"; mon::sample(o.str()); }
  mon::phase("shutdown");
  m.shutdown();
  sched_perturb(0, 1);
}

// Without configuration everything goes to the standard output.
static void default_output(mon::Rng& r)
{
  il::LoggingManager& m = il::LoggingManager::instance();
  m.initialize();
  il::LogStream *x = new il::LogStream("Stream");
  m.registerLogStream(x);
  fflush(stdout);
  const int keep = dup(1);
  FILE *f = tmpfile();
  if (!f || keep < 0) mon::broken("no temporary file");
  dup2(fileno(f), 1);
  int level = int(il::eLL_INFO);
  std::string want;
  const int n = int(r.range(3, 20));
  for (int i = 0; i < n; ++i)
  {
    if (r.chance(30)) { level = int(r.below(6)); il::setLogLevel(il::LogLevel(level)); }
    const int l = int(r.below(5));
    SLOGGING_LOG((*x), il::LogLevel(l), "message " << i << il::endl);
    if (l >= level) { std::ostringstream o; o << "message " << i << "\n"; want += o.str(); }
  }
  m.shutdown();
  fflush(stdout);
  dup2(keep, 1); close(keep);
  rewind(f);
  std::string got; char b[4096]; size_t k;
  while ((k = fread(b, 1, sizeof b, f)) > 0) got.append(b, k);
  fclose(f);
  std::string texts;
  std::istringstream in(got);
  std::string line;
  while (std::getline(in, line)) { const size_t at = line.find("message "); if (at != std::string::npos) texts += line.substr(at) + "\n"; }
  MON_CHECK(texts == want, "default-output", "without configuration the standard output shows " << mon::q(texts) << " instead of " << mon::q(want) << " after changes of the global level");
  mon::state(mon::Hash().add("default").add(want.size()));
  mon::stat("obs.default_outputs");
}

void mon::run_case(uint64_t i, Rng& r)
{
  const bool con = mon::cfg().mode == "concurrent";
  if (i % 20 == 0) names(r);
  mon::in_child([&]() { if (i % 6 == 5 && !con) default_output(r); else levels(r, con); });
}
void mon::setup() { }
void mon::teardown() { }
