// P49: the configuration and the command line decide which stream reaches which output from which level on.
#include "mon_logcfg.h"
#include <algorithm>
#include <memory>
using namespace logmon;
namespace cfg = icl_core::config;

DECLARE_LOG_STREAM(Alpha)
DECLARE_LOG_STREAM(Beta)
DECLARE_LOG_STREAM(Gamma)
REGISTER_LOG_STREAM(Alpha)
REGISTER_LOG_STREAM(Beta)
REGISTER_LOG_STREAM(Gamma)

static const char *LV[] = { "Trace", "Debug", "Info", "Warning", "Error", "Mute" };
static const char *DECLARED[] = { "Alpha", "Beta", "Gamma", "Default", "Nirwana", "QuickDebug" };

struct OutCfg { std::string entry, factory, name; int level; std::vector<std::string> streams; };
struct StreamCfg { std::string entry, name; int level; };

// --------------------------------------------------------------------- the model
struct MStream { int level; std::set<std::string> outs; };
struct Model
{
  std::map<std::string, OutCfg> oc;            // by entry
  std::map<std::string, StreamCfg> sc;
  int cmd_level;                               // -1: none (or not a level)
  bool quick;
  std::map<std::string, MStream> streams;
  std::map<std::string, int> outs;             // level by name; "" is the default output
  bool initialized;
  std::map<std::string, std::vector<std::string> > want;
  std::map<std::string, int> made;

  static bool known(const std::string& f) { return f == "WorkSink" || f == "SyncSink" || f == "File" || f == "Stdout" || f == "Stderr"; }
  void add_stream(const std::string& n, int level)
  {
    MStream s; s.level = level;
    if (outs.count("")) s.outs.insert("");
    streams[n] = s;
  }
  void drop_output(const std::string& n)
  {
    for (std::map<std::string, MStream>::iterator i = streams.begin(); i != streams.end(); ++i) i->second.outs.erase(n);
    outs.erase(n);
  }
  void configure()
  {
    if (oc.empty() && !outs.count("")) outs[""] = int(il::cDEFAULT_LOG_LEVEL);
    for (size_t i = 0; i < 6; ++i) if (!streams.count(DECLARED[i])) add_stream(DECLARED[i], int(il::cDEFAULT_LOG_LEVEL));
    if (!oc.empty()) drop_output("");
    for (std::map<std::string, OutCfg>::iterator i = oc.begin(); i != oc.end(); ++i)
    {
      const OutCfg& o = i->second;
      if (!outs.count(o.name))
      {
        if (!known(o.factory)) continue;
        outs[o.name] = o.level; ++made[o.name];
      }
      if (o.streams.empty()) for (std::map<std::string, MStream>::iterator s = streams.begin(); s != streams.end(); ++s) s->second.outs.insert(o.name);
      else for (size_t k = 0; k < o.streams.size(); ++k) if (streams.count(o.streams[k])) streams[o.streams[k]].outs.insert(o.name);
    }
    for (std::map<std::string, StreamCfg>::iterator i = sc.begin(); i != sc.end(); ++i) if (streams.count(i->second.name)) streams[i->second.name].level = i->second.level;
    if (cmd_level >= 0)
    {
      outs[""] = cmd_level;
      for (std::map<std::string, MStream>::iterator s = streams.begin(); s != streams.end(); ++s) { s->second.level = cmd_level; s->second.outs.insert(""); }
      for (std::map<std::string, int>::iterator o = outs.begin(); o != outs.end(); ++o) o->second = cmd_level;
    }
  }
  std::string quick_name;
  void initialize()
  {
    const bool first = !initialized;
    initialized = true;
    configure();
    if (quick && first)
    {
      quick_name = "QuickDebug";
      for (int n = 1; outs.count(quick_name); ++n) { std::ostringstream o; o << "QuickDebug" << n; quick_name = o.str(); }
      outs[quick_name] = 0;
      streams["QuickDebug"].level = 0;
      streams["QuickDebug"].outs.insert(quick_name);
    }
  }
  void set_level(int l)
  {
    for (std::map<std::string, MStream>::iterator s = streams.begin(); s != streams.end(); ++s) s->second.level = l;
    for (std::map<std::string, int>::iterator o = outs.begin(); o != outs.end(); ++o) o->second = l;
  }
  size_t message(const std::string& s, int level, const std::string& line)
  {
    const MStream& m = streams[s];
    if (level < m.level) return 0;
    size_t n = 0;
    for (std::set<std::string>::const_iterator o = m.outs.begin(); o != m.outs.end(); ++o) if (level >= outs[*o]) { want[*o].push_back(line); ++n; }
    return n;
  }
  void shutdown() { outs.clear(); streams.clear(); initialized = false; }
};

static std::string keep_line(const Line& l)
{
  std::string t = l.text;
  if (!t.empty() && t[t.size() - 1] == '\n') t.resize(t.size() - 1);
  return std::string(l.level >= 0 && l.level < 6 ? LV[l.level] : "?") + "|" + l.stream + "|" + t;
}
static void compare(const std::string& out, const std::vector<std::string>& got, const std::vector<std::string>& want, const std::string& history)
{
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  mon::stat("obs.delivered", got.size());
  if (i == got.size() && i == want.size()) return;
  const bool missing = i < want.size() && (i == got.size() || std::find(got.begin() + long(i), got.end(), want[i]) == got.end());
  mon::viol(missing ? "missing:" + std::string(out.empty() ? "default" : "configured") : "unexpected:" + std::string(out.empty() ? "default" : "configured"),
            "output " + (out.empty() ? std::string("on stdout") : out) + (missing ? " misses " + mon::q(want[i]) : " received " + mon::q(got[i]) + " instead of " + (i < want.size() ? mon::q(want[i]) : std::string("nothing"))) + " after" + history);
}

// The real outputs behind the names
static il::LogStream *declared(const std::string& n)
{
  if (n == "Alpha") return &Alpha::instance();
  if (n == "Beta") return &Beta::instance();
  if (n == "Gamma") return &Gamma::instance();
  if (n == "Default") return &il::Default::instance();
  if (n == "Nirwana") return &il::Nirwana::instance();
  return &il::QuickDebug::instance();
}

// A standard stream which several delivering threads use
struct Shared : std::streambuf
{
  std::mutex mtx; std::string text;
  virtual int overflow(int c) { std::lock_guard<std::mutex> l(mtx); if (c != EOF) text += char(c); return c == EOF ? 0 : c; }
  virtual std::streamsize xsputn(const char *s, std::streamsize n) { std::lock_guard<std::mutex> l(mtx); text.append(s, size_t(n)); return n; }
  std::string all() { std::lock_guard<std::mutex> l(mtx); return text; }
};
// Take the lines of the named outputs ("@name|...\n", each written at once) out of a text
static std::string split_named(const std::string& s, std::map<std::string, std::vector<std::string> >& named)
{
  std::string rest;
  size_t a = 0;
  while (a < s.size())
  {
    const size_t e = s.find('\n', a), b = s.find('|', a);
    if (s[a] == '@' && b != std::string::npos && e != std::string::npos && b < e) { named[s.substr(a + 1, b - a - 1)].push_back(s.substr(b + 1, e - b - 1)); a = e + 1; }
    else rest += s[a++];
  }
  return rest;
}

static void one_life(mon::Rng& r)
{
  Model m;
  m.cmd_level = -1; m.quick = false; m.initialized = false;
  std::ostringstream hist;
  Shared& out = *new Shared();
  Shared& err = *new Shared();
  std::cout.rdbuf(&out);
  std::cerr.rdbuf(&err);
  const std::string PRE = "/IclCore/Logging/";
  static const char *suffix[] = { "", "1", "2", "10", "Foo", "A_b" };
  std::set<std::string> used;
  mon::Hash h;
  const int n_out = int(r.range(0, 4));
  const bool quickish = r.chance(8);       // outputs that are called like those of --quick-debug
  for (int i = 0; i < n_out; ++i)
  {
    OutCfg o;
    o.entry = std::string("OutputStream") + suffix[r.below(6)];
    if (m.oc.count(o.entry)) continue;
    o.factory = r.chance(15) ? "NoSuchOutput" : r.chance(20) ? "File" : r.chance(15) ? "Stdout" : r.chance(20) ? "Stderr" : r.chance(50) ? "WorkSink" : "SyncSink";
    std::ostringstream n; n << "Out" << i;
    o.name = quickish || r.chance(10) ? (i ? "QuickDebug" + std::to_string(i) : std::string("QuickDebug")) : n.str();
    const bool named = !r.chance(15);
    if (!named) o.name = o.factory;
    if (!used.insert(o.name).second) continue;
    o.level = 0;
    cfg::setValue(PRE + o.entry + "/OutputStreamName", o.factory);
    if (named) cfg::setValue(PRE + o.entry + "/Name", o.name);
    if (r.chance(75)) { o.level = int(r.below(6)); cfg::setValue(PRE + o.entry + "/LogLevel", LV[o.level]); }
    else if (r.chance(30)) { static const char *bad[] = { "Verbose", "trace", "", "0", "Info ", "INFO" }; cfg::setValue(PRE + o.entry + "/LogLevel", bad[r.below(6)]); mon::stat("obs.bad_levels"); }   // like none
    if (o.factory == "File")
    {
      cfg::setValue(PRE + o.entry + "/FileName", "p49." + o.name + ".log");
      cfg::setValue(PRE + o.entry + "/Format", "~L|~S|~E");
    }
    if (o.factory == "Stdout" || o.factory == "Stderr") { cfg::setValue(PRE + o.entry + "/Format", "@" + o.name + "|~L|~S|~E"); mon::stat("obs.std_outputs"); }
    for (int k = int(r.chance(45) ? 0 : r.range(1, 4)); k > 0; --k)
    {
      static const char *ns[] = { "Alpha", "Beta", "Gamma", "Default", "QuickDebug", "Dyn0", "Dyn1", "NoSuchStream" };
      std::ostringstream key; key << "LogStream" << (r.chance(80) ? "" : "X") << k;
      const std::string s = ns[r.below(8)];
      cfg::setValue(PRE + o.entry + "/" + key.str(), s);
      o.streams.push_back(s);
    }
    if (r.chance(20)) cfg::setValue(PRE + o.entry + "/Other", "Alpha");
    m.oc[o.entry] = o;
    hist << " " << o.entry << "(" << o.factory << " " << o.name << " " << LV[o.level] << ":";
    for (size_t k = 0; k < o.streams.size(); ++k) hist << " " << o.streams[k];
    hist << ")";
  }
  std::set<std::string> levelled;
  for (int i = int(r.range(0, 4)); i > 0; --i)
  {
    static const char *ns[] = { "Alpha", "Beta", "Gamma", "Default", "QuickDebug", "Dyn0", "Dyn1", "NoSuchStream" };
    StreamCfg s;
    std::ostringstream e; e << "LogStream" << i << (r.chance(20) ? "x" : "");
    s.entry = e.str(); s.name = ns[r.below(8)]; s.level = int(r.below(6));
    if (!levelled.insert(s.name).second) continue;
    cfg::setValue(PRE + s.entry + "/Name", s.name);
    cfg::setValue(PRE + s.entry + "/LogLevel", LV[s.level]);
    m.sc[s.entry] = s;
    hist << " " << s.entry << "(" << s.name << " " << LV[s.level] << ")";
  }
  cfg::setValue(PRE + "Default/Format", "~L|~S|~E");
  if (r.chance(30)) { cfg::setValue("/Other/Logging/OutputStream1/OutputStreamName", "WorkSink"); cfg::setValue("/IclCore/LoggingX/OutputStream1/OutputStreamName", "WorkSink"); cfg::setValue(PRE + "Output", "WorkSink"); }
  // the command line
  std::vector<std::string> args(1, "prog");
  if (r.chance(30))
  {
    const int l = int(r.below(6));
    const bool bad = r.chance(15);
    if (!bad) m.cmd_level = l;
    const std::string v = bad ? "Verbose" : LV[l];
    if (r.chance(50)) args.push_back("--log-level=" + v);
    else { args.push_back("-l"); args.push_back(v); }
    hist << " log-level " << v;
    mon::stat("obs.log_level");
  }
  const std::string qd = "p49.qd.log";
  unlink(qd.c_str());
  std::string qd_before;
  if (r.chance(30))
  {
    m.quick = true;
    // the name may contain variables; what is in the file stays there
    setenv("VERIF_QD", "p49.qd", 1);
    const std::string given = r.chance(50) ? qd : r.chance(50) ? "$VERIF_QD.log" : "./${VERIF_QD}.log";
    if (r.chance(40)) { qd_before = "what was there before: text\n"; FILE *f = fopen(qd.c_str(), "w"); if (!f || fputs(qd_before.c_str(), f) < 0 || fclose(f) != 0) mon::broken("cannot write " + qd); mon::stat("obs.quick_appended"); }
    if (r.chance(50)) args.push_back("--quick-debug=" + given);
    else { args.push_back("-qd"); args.push_back(given); }
    hist << " quick-debug";
    mon::stat("obs.quick_debug");
  }
  std::vector<char *> argv;
  for (size_t i = 0; i < args.size(); ++i) argv.push_back(&args[i][0]);
  argv.push_back(NULL);
  int argc = int(args.size());
  il::LoggingManager& mgr = il::LoggingManager::instance();
  std::map<std::string, il::LogStream *> dyn;
  int serial = 0;
  mon::phase("initialising");
  { if (!il::initialize(argc, &argv[0], icl_core::config::Getopt::eCLC_None, icl_core::config::Getopt::ePRC_Relaxed)) mon::broken("command line refused"); }
  m.initialize();
  hist << "; initialize";
  const int ops = int(r.range(1, 14));
  for (int op = 0; op < ops; ++op)
  {
    const int k = int(r.below(12));
    if (op > 0 && !m.initialized && k != 3) { mon::phase("initialize"); mgr.initialize(); m.initialize(); hist << "; initialize"; }
    if (op == 0) { }
    else if (k == 0)
    {
      const int l = int(r.below(6));
      mon::phase("setLogLevel"); il::setLogLevel(il::LogLevel(l)); m.set_level(l);
      hist << "; setLogLevel " << LV[l]; mon::stat("obs.op.set_level");
    }
    else if (k == 1 || k == 4)
    {
      std::ostringstream n; n << "Dyn" << r.below(3);
      if (!dyn.count(n.str()))
      {
        const int l = int(r.below(6));
        mon::phase("registerLogStream");
        il::LogStream *s = new il::LogStream(n.str(), il::LogLevel(l));
        mgr.registerLogStream(s); dyn[n.str()] = s;
        m.add_stream(n.str(), l);
        hist << "; register " << n.str() << " " << LV[l]; mon::stat("obs.op.register");
      }
    }
    else if (k == 2 || k == 5) { mon::phase("configure"); mgr.configure(); m.configure(); hist << "; configure"; mon::stat("obs.op.configure"); }
    else if (k == 3 && r.chance(50))
    {
      mon::phase("shutdown"); mgr.shutdown(); m.shutdown(); dyn.clear(); hist << "; shutdown"; mon::stat("obs.op.shutdown");
      if (r.chance(70)) { mon::phase("initialize"); mgr.initialize(); m.initialize(); hist << "; initialize"; }
    }
    else if (k == 6) { mon::phase("initialize again"); mgr.initialize(); m.initialize(); hist << "; initialize again"; mon::stat("obs.op.initialize_again"); }
    else if (k == 7 && !dyn.empty())
    {
      std::map<std::string, il::LogStream *>::iterator d = dyn.begin();
      std::advance(d, long(r.below(dyn.size())));
      mon::phase("delete stream"); delete d->second;
      m.streams.erase(d->first); hist << "; delete " << d->first; dyn.erase(d); mon::stat("obs.op.delete_stream");
    }
    else if (k == 8)
    {
      // an output which does not belong to the framework any more
      std::vector<std::string> live;
      for (std::map<std::string, int>::iterator o = m.outs.begin(); o != m.outs.end(); ++o) if (store().ptr.count(o->first)) live.push_back(o->first);
      if (!live.empty())
      {
        const std::string n = r.pick(live);
        il::LogOutputStream *p = store().ptr[n];
        mon::phase("removeLogOutputStream"); mgr.removeLogOutputStream(p); p->shutdown(); delete p;
        m.drop_output(n);
        hist << "; remove output " << n; mon::stat("obs.op.remove_output");
      }
    }
    if (!m.initialized) continue;
    // what comes through
    mon::phase("logging");
    for (std::map<std::string, MStream>::iterator s = m.streams.begin(); s != m.streams.end(); ++s)
    {
      il::LogStream *ls = dyn.count(s->first) ? dyn[s->first] : declared(s->first);
      MON_CHECK(int(ls->getLogLevel()) == s->second.level, "stream-level", "the stream " << s->first << " has the level " << LV[ls->getLogLevel()] << " instead of " << LV[s->second.level] << " after" << hist.str());
      for (int l = 0; l < 5; ++l)
      {
        if (r.chance(25)) continue;
        std::ostringstream t; t << "t" << serial++;
        SLOGGING_LOG((*ls), il::LogLevel(l), t.str() << il::endl);
        const size_t n = m.message(s->first, l, std::string(LV[l]) + "|" + s->first + "|" + t.str());
        mon::stat("obs.logged");
        if (n > 1) mon::stat("obs.to_several");
        if (n == 0) mon::stat("obs.to_none");
      }
      h.add(uint64_t(s->second.level));
      for (std::set<std::string>::iterator o = s->second.outs.begin(); o != s->second.outs.end(); ++o) h.add(*o).add(uint64_t(m.outs[*o]));
    }
    if (r.chance(20))
    {
      const size_t before = err.all().size();
      mgr.printConfiguration();
      std::map<std::string, std::vector<std::string> > between;
      std::string shown = err.all().substr(before);
      // a line of a worker thread which was being written when the printing began is complete: it is written at once
      shown = split_named(shown, between);
      std::map<std::string, std::set<std::string> > printed;
      std::vector<std::string> ls = split_lines(shown);
      for (size_t i = 0; i < ls.size(); ++i)
      {
        const size_t a = ls[i].find(" -> ");
        if (a == std::string::npos) continue;
        std::istringstream in(ls[i].substr(a + 4));
        std::string w, name = ls[i].substr(0, a);
        name.erase(0, name.find_first_not_of(' '));
        std::set<std::string>& p = printed[name];
        while (in >> w) p.insert(w);
      }
      for (std::map<std::string, MStream>::iterator s = m.streams.begin(); s != m.streams.end(); ++s)
      {
        std::set<std::string> w;
        for (std::set<std::string>::iterator o = s->second.outs.begin(); o != s->second.outs.end(); ++o) w.insert(o->empty() ? "Default" : *o);
        MON_CHECK(printed.count(s->first) && printed[s->first] == w, "printed", "printConfiguration shows other outputs of " << s->first << " than are connected, after" << hist.str() << ": " << mon::q(shown, 1500));
      }
      MON_CHECK(printed.size() == m.streams.size(), "printed", "printConfiguration shows " << printed.size() << " instead of " << m.streams.size() << " streams after" << hist.str());
      mon::stat("obs.printed");
    }
    mon::state(h);
  }
  const std::string quick = m.quick_name;
  if (m.quick && m.initialized && m.want.count(quick) && store().ptr.count(quick) == 0 && r.chance(60))
  {
    // quick debug messages are in the file while the program goes on (or crashes)
    mon::phase("waiting for the quick debug file");
    const std::string last = m.want[quick].empty() ? "" : m.want[quick].back().substr(m.want[quick].back().rfind('|') + 1);
    bool there = last.empty();
    for (int i = 0; i < 4000 && !there; ++i)
    {
      std::string s;
      there = slurp(qd, s) && s.find(": " + last + "\n") != std::string::npos;
      if (!there) mon::sleep_us(5000);
    }
    MON_CHECK(there, "quick-live", "the quick debug file does not hold the last message " << mon::q(last) << " 20 s later, after" << hist.str());
    mon::stat("obs.quick_live");
  }
  mon::phase("shutdown");
  mgr.shutdown();
  // judge
  mon::phase("judging");
  std::map<std::string, std::vector<std::string> > on_out, on_err;
  const std::string on_default = split_named(out.all(), on_out);
  split_named(err.all(), on_err);
  for (int k = 0; k < 2; ++k)
  {
    std::map<std::string, std::vector<std::string> >& on = k ? on_err : on_out;
    for (std::map<std::string, std::vector<std::string> >::iterator i = on.begin(); i != on.end(); ++i)
    {
      bool right = false;
      for (std::map<std::string, OutCfg>::iterator o = m.oc.begin(); o != m.oc.end(); ++o) right = right || (o->second.name == i->first && o->second.factory == (k ? "Stderr" : "Stdout"));
      MON_CHECK(right, "wrong-stream", "lines of the output " << i->first << " are on standard " << (k ? "error" : "output") << " after" << hist.str());
      m.want[i->first];
      mon::stat("obs.std_lines", i->second.size());
    }
  }
  for (std::map<std::string, std::vector<Line> >::iterator i = store().lines.begin(); i != store().lines.end(); ++i) m.want[i->first];
  for (std::map<std::string, std::vector<std::string> >::iterator w = m.want.begin(); w != m.want.end(); ++w)
  {
    std::vector<std::string> got;
    bool file = false, std_out = false, std_err = false;
    for (std::map<std::string, OutCfg>::iterator o = m.oc.begin(); o != m.oc.end(); ++o) file = file || (o->second.name == w->first && o->second.factory == "File"), std_out = std_out || (o->second.name == w->first && o->second.factory == "Stdout"), std_err = std_err || (o->second.name == w->first && o->second.factory == "Stderr");
    if (w->first.empty()) got = split_lines(on_default);
    else if (std_out) got = on_out[w->first];
    else if (std_err) got = on_err[w->first];
    else if (file || (m.quick && w->first == quick))
    {
      std::string s;
      MON_CHECK(slurp(file ? "p49." + w->first + ".log" : qd, s), "no-file", "the file of output " << w->first << " does not exist after" << hist.str());
      if (!file) MON_CHECK(s.compare(0, qd_before.size(), qd_before) == 0, "quick-appended", "the lines that were in the quick debug file before are no longer there after" << hist.str());
      const std::vector<std::string> ls = split_lines(s);
      for (size_t i = 0; i < ls.size(); ++i)
      {
        if (file) { if (ls[i].find('|') != std::string::npos) got.push_back(ls[i]); continue; }
        const size_t a = ls[i].find(": t");                                      // the format of quick debug files is the default one
        const size_t p = ls[i].find('('), q = ls[i].find(')');
        if (a == std::string::npos || p == std::string::npos || q == std::string::npos) continue;
        const size_t sp = ls[i].rfind(' ', p);
        got.push_back(ls[i].substr(p + 1, q - p - 1) + "|" + ls[i].substr(sp + 1, p - sp - 1) + "|" + ls[i].substr(a + 2));
      }
    }
    else { std::vector<Line>& ls = store().lines[w->first]; for (size_t i = 0; i < ls.size(); ++i) got.push_back(keep_line(ls[i])); }
    compare(w->first, got, w->second, hist.str());
    mon::stat("obs.outputs");
  }
  for (std::map<std::string, int>::iterator i = store().made.begin(); i != store().made.end(); ++i)
    MON_CHECK(store().live[i->first] == 0 && i->second == m.made[i->first], "created", "the output " << i->first << " was created " << i->second << " instead of " << m.made[i->first] << " times, " << store().live[i->first] << " are left, after" << hist.str());
  if (mon::want_sample()) mon::sample(hist.str().substr(0, 900));
}

void mon::run_case(uint64_t, Rng& r)
{
  DIR *d = opendir(".");
  while (struct dirent *e = d ? readdir(d) : NULL) if (strncmp(e->d_name, "p49.", 4) == 0) unlink(e->d_name);
  if (d) closedir(d);
  mon::in_child([&]() { one_life(r); });
}
void mon::setup() { register_outputs(); }
void mon::teardown() { }
