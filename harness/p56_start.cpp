// P56: whichever way the framework is started, it reads the same configuration and leaves the caller what is the caller's.
#include "mon.h"
#include <iostream>
#include <functional>
#include <fcntl.h>
#include "icl_core_config/Config.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/LoggingManager.h"
namespace cf = icl_core::config;
namespace il = icl_core::logging;
typedef std::map<std::string, std::string> Map;

DECLARE_LOG_STREAM(StartA)
DECLARE_LOG_STREAM(StartB)
REGISTER_LOG_STREAM(StartA)
REGISTER_LOG_STREAM(StartB)

namespace {
const char *const LV[] = { "Trace", "Debug", "Info", "Warning", "Error", "Mute" };
const char *const HOW[] = { "config::initialize(argc, argv)", "config::initialize(argc, argv, flag)", "config::initialize(argc, argv, cleanup, check)", "logging::initialize(argc, argv)",
                            "logging::initialize(argc, argv, flag)", "logging::initialize(argc, argv, cleanup, check)", "LifeCycle(argc, argv)", "autoStart(argc, argv)" };
std::string dir;
void spit(const std::string& f, const std::string& s) { FILE *h = fopen(f.c_str(), "wb"); if (!h || fwrite(s.data(), 1, s.size(), h) != s.size()) mon::broken("write " + f); fclose(h); }
std::string slurp(const std::string& f)
{
  std::string s; FILE *h = fopen(f.c_str(), "rb"); if (!h) return s;
  char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
  fclose(h); return s;
}
// the messages of our streams
std::vector<std::string> lines(const std::string& s)
{
  std::vector<std::string> v; size_t p = 0;
  while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { v.push_back(s.substr(p) + "[no end of line]"); break; } const std::string l = s.substr(p, e - p); if (l.find("|Start") != std::string::npos) v.push_back(l); p = e + 1; }
  return v;
}

struct Arg { std::vector<std::string> w; bool known, refused; };     // refused: by a strict check
struct Par { std::string opt, sh, key, def; bool flag; };

// The argument vector as the system hands it over.
struct Argv
{
  std::vector<char *> own, p; int argc;
  explicit Argv(const std::vector<std::string>& a) : argc(int(a.size())) { for (size_t i = 0; i < a.size(); ++i) own.push_back(strdup(a[i].c_str())); p = own; p.push_back(NULL); }
  std::vector<std::string> now() const { std::vector<std::string> v; for (int i = 0; i < argc; ++i) v.push_back(p[size_t(i)] ? p[size_t(i)] : "[NULL]"); return v; }
};
std::string join(const std::vector<std::string>& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + mon::q(v[i], 60); return s; }

std::string word(mon::Rng& r) { return r.chance(30) ? r.pick(std::vector<std::string>{ "1", "value", "a b", "0x1F", "yes", "%s", "a=b", "\xc3\xa4" }) : r.str("abcXYZ019_.,;:", 1, 10); }

struct Log { int out, a, b, dflt; };        // levels, -1: there is no log file

void one(mon::Rng& r)
{
  const std::string out = dir + "stdout", errf = dir + "stderr", file = dir + "config.xml", logf = dir + "messages.log";
  {
    int o = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644), e = open(errf.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (o < 0 || e < 0 || dup2(o, 1) < 0 || dup2(e, 2) < 0) mon::broken("redirection");
    close(o); close(e);
  }
  // the file
  Map m;
  Log log = { -1, 2, 2, 2 };
  std::string text;
  const bool have = r.chance(80);
  bool bad = false;
  static const std::vector<std::string> keys = { "/App/a", "/App/b", "/App/c", "/x" };
  if (have)
  {
    text = "<?xml version='1.0'?>\n<root><App>";
    for (const char *k = "abc"; *k; ++k) if (r.chance(60)) { const std::string v = "file" + std::to_string(r.below(1000)); text += std::string("<") + *k + ">" + v + "</" + *k + ">"; m[std::string("/App/") + *k] = v; }
    text += "</App>";
    if (r.chance(70))
    {
      log.out = int(r.below(5));
      Map l;
      l["/IclCore/Logging/OutputStream1/OutputStreamName"] = "File";
      l["/IclCore/Logging/OutputStream1/Name"] = "MyFile";
      l["/IclCore/Logging/OutputStream1/FileName"] = logf;
      l["/IclCore/Logging/OutputStream1/LogLevel"] = LV[log.out];
      l["/IclCore/Logging/OutputStream1/Format"] = "~L|~S|~E";
      if (r.chance(60)) { log.a = int(r.below(6)); l["/IclCore/Logging/LogStream1/Name"] = "StartA"; l["/IclCore/Logging/LogStream1/LogLevel"] = LV[log.a]; }
      text += "<IclCore><Logging>";
      std::string open;
      for (Map::iterator i = l.begin(); i != l.end(); ++i)
      {
        const size_t s = i->first.rfind('/');
        const std::string sect = i->first.substr(17, s - 17), leaf = i->first.substr(s + 1);
        if (sect != open) { if (!open.empty()) text += "</" + open + ">"; text += "<" + sect + ">"; open = sect; }
        text += "<" + leaf + ">" + i->second + "</" + leaf + ">";
        m[i->first] = i->second;
      }
      text += "</" + open + "></Logging></IclCore>";
    }
    text += "</root>\n";
    bad = r.chance(12);
    if (!bad) spit(file, text);
    else if (r.chance(50)) spit(file, text.substr(0, text.size() - 9));
    m["/configfile"] = file;
  }
  // what is declared and given
  std::vector<Arg> args;
  std::vector<Par> pars;
  std::set<std::string> given;
  for (size_t i = 0, n = r.below(4); i < n; ++i)
  {
    Par p = { "par" + std::to_string(i), r.chance(60) ? "p" + std::to_string(i) : "", r.chance(80) ? r.pick(keys) : "", r.chance(50) ? "default" + std::to_string(i) : "", r.chance(25) };
    pars.push_back(p);
    cf::addParameter(cf::ConfigParameter(p.opt + (p.flag ? "" : ":"), p.sh, p.key, "help", p.def));
  }
  size_t npos = r.below(3);
  std::vector<Par> poss;
  for (size_t i = 0; i < npos; ++i)
  {
    Par p = { "pos" + std::to_string(i), "", r.chance(80) ? r.pick(keys) : "", r.chance(50) ? "pdefault" + std::to_string(i) : "", false };
    poss.push_back(p);
    cf::addParameter(cf::ConfigPositionalParameter(p.opt, p.key, "help", true, p.def));
  }
  if (have) { Arg a; a.known = true; a.refused = false; if (r.chance(50)) { a.w.push_back("-c"); a.w.push_back(file); } else a.w.push_back("--configfile=" + file); args.push_back(a); }
  Map parv;
  for (size_t i = 0; i < pars.size(); ++i)
  {
    if (!r.chance(50)) continue;
    Arg a; a.known = true; a.refused = false;
    const std::string v = pars[i].flag ? "yes" : word(r);
    if (!pars[i].sh.empty() && r.chance(50)) { a.w.push_back("-" + pars[i].sh); if (!pars[i].flag) a.w.push_back(v); }
    else a.w.push_back("--" + pars[i].opt + (pars[i].flag ? "" : "=" + v));
    parv[pars[i].opt] = v;
    args.push_back(a);
  }
  std::vector<std::pair<std::string, std::string> > over;
  for (size_t i = 0, n = r.below(3); i < n; ++i)
  {
    const std::string k = r.pick(keys), v = word(r);
    Arg a; a.known = true; a.refused = false;
    if (r.chance(50)) { a.w.push_back("-o" + k); a.w.push_back(v); } else a.w.push_back("--config-option" + k + "=" + v);
    args.push_back(a);
  }
  int level = -1;
  if (r.chance(35)) { level = int(r.below(6)); Arg a; a.known = true; a.refused = false; if (r.chance(50)) { a.w.push_back("-l"); a.w.push_back(LV[level]); } else a.w.push_back(std::string("--log-level=") + LV[level]); args.push_back(a); }
  const bool dumped = r.chance(20);
  if (dumped) { Arg a; a.known = true; a.refused = false; a.w.push_back(r.chance(50) ? "-dc" : "--dump-config"); args.push_back(a); }
  size_t strangers = 0;
  if (r.chance(35))
    for (size_t i = 0, n = 1 + r.below(3); i < n; ++i)
    { Arg a; a.known = false; a.refused = true; a.w.push_back(r.pick(std::vector<std::string>{ "--strange", "--strange=1", "-Zz", "-9", "--par", "--log-levels=Info", "--configfiles", "-pp" })); args.push_back(a); ++strangers; }
  for (size_t i = args.size(); i > 1; --i) std::swap(args[i - 1], args[r.below(i)]);
  // words go to the positional parameters in order, further ones remain
  size_t words = r.chance(50) ? npos : r.below(5);
  for (size_t i = 0; i < words; ++i)
  {
    // (between the other arguments, in this order)
    Arg a; a.refused = false; a.known = false; a.w.push_back("word" + std::to_string(i));
    args.insert(args.begin() + long(r.below(args.size() + 1)), a);
  }
  { size_t i = 0; for (size_t k = 0; k < args.size(); ++k) if (args[k].w[0].compare(0, 4, "word") == 0) { args[k].w[0] = "word" + std::to_string(i); if (i < npos) { args[k].known = true; parv[poss[i].opt] = args[k].w[0]; } ++i; } }
  // the overrides in the order in which they come
  for (size_t k = 0; k < args.size(); ++k)
  {
    const std::string& w = args[k].w[0];
    if (w.compare(0, 2, "-o") == 0) over.push_back(std::make_pair(w.substr(2), args[k].w[1]));
    else if (w.compare(0, 15, "--config-option") == 0) { const size_t e = w.find('=', 15); over.push_back(std::make_pair(w.substr(15, e - 15), w.substr(e + 1))); }
  }
  for (int g = 0; g < 2; ++g)
    for (size_t i = 0; i < (g ? poss : pars).size(); ++i)
    {
      const Par& p = (g ? poss : pars)[i];
      if (p.key.empty()) continue;
      if (parv.count(p.opt)) m[p.key] = parv[p.opt]; else if (!m.count(p.key) && !p.def.empty()) m[p.key] = p.def;
    }
  for (size_t i = 0; i < over.size(); ++i) m[over[i].first] = over[i].second;

  std::vector<std::string> all(1, "prog"), rest(1, "prog");
  for (size_t i = 0; i < args.size(); ++i) { all.insert(all.end(), args[i].w.begin(), args[i].w.end()); if (!args[i].known) rest.insert(rest.end(), args[i].w.begin(), args[i].w.end()); }
  if (level >= 0) log.a = log.b = log.dflt = level;
  if (level >= 0 && log.out >= 0) log.out = level;

  il::LoggingManager& mgr = il::LoggingManager::instance();
  boost::shared_ptr<il::LifeCycle> life, life2;
  std::ostringstream hist;
  Argv v(all);
  std::vector<std::string> want = all;
  bool started = false;        // configuration
  std::vector<std::string> expected;
  int serial = 0;
  size_t rounds = 1 + r.below(3);
  mon::Hash h;
  bool configured = false, with = false, opts = false;       // of the logging
  std::function<void (const std::string&)> talk = [&](const std::string& ctx)
  {
    const int a = log.a, b = log.b;
    MON_CHECK(int(StartA::instance().getLogLevel()) == a && int(StartB::instance().getLogLevel()) == b, "level", "the streams have the levels " << LV[StartA::instance().getLogLevel()] << " and " << LV[StartB::instance().getLogLevel()]
              << " instead of " << LV[a] << " and " << LV[b] << " behind " << ctx);
    for (int l = 0; l < 5; ++l)
      for (int s = 0; s < 2; ++s)
      {
        std::ostringstream t; t << "message " << serial++;
        il::LogStream& st = s ? StartB::instance() : StartA::instance();
        SLOGGING_LOG(st, il::LogLevel(l), t.str() << il::endl);
        mon::stat("obs.logged");
        if (log.out >= 0 && l >= log.out && l >= (s ? b : a)) { expected.push_back(std::string(LV[l]) + "|" + (s ? "StartB|" : "StartA|") + t.str()); mon::stat("obs.delivered"); }
      }
  };
  for (size_t round = 0; round <= rounds; ++round)
  {
    if (!mgr.initialized() && r.chance(25))
    {
      // logging alone: on request, or because somebody logs
      const bool first_use = r.chance(60);
      hist << (round ? "; then " : "") << (first_use ? "first use of a stream" : "logging::initialize()");
      const std::string ctx = hist.str() + " with " + join(all) + (have ? " and the file " + text : "") + (bad && !started ? " (broken)" : "");
      mon::phase(ctx);
      const size_t out0 = slurp(out).size();
      if (first_use) StartB::instance(); else il::initialize();
      MON_CHECK(mgr.initialized(), "logging", "logging is not initialized behind " << ctx);
      const bool warned = slurp(out).find("WARNING", out0) != std::string::npos;
      MON_CHECK(warned || !first_use, "unwarned", "nobody was told that logging had not been initialized behind " << ctx);
      MON_CHECK(v.now() == want && cf::ConfigManager::instance().isInitialized() == started, "touched", "more than the logging was initialized behind " << ctx);
      if (!configured) { with = started; opts = cf::Getopt::instance().isInitialized(); configured = with && opts; }
      if (with && opts) talk(ctx);
      mon::stat(first_use ? "obs.first_use" : "obs.logging_alone");
      h.add(uint64_t(first_use ? 9 : 8));
    }
    if (round == rounds) break;
    int how = int(r.below(8));
    const bool clean = how >= 6 || (how % 3 && r.chance(60));
    const bool strict = how < 6 && !(how % 3 == 2 && r.chance(70));
    hist << (round ? "; then " : "") << HOW[how] << (clean ? " cleaning" : "") << (strict ? " strictly" : "");
    const std::string ctx = hist.str() + " with " + join(all) + (have ? " and the file " + text : "") + (bad && !started ? " (broken)" : "");
    mon::phase(ctx);
    const bool first = !cf::Getopt::instance().isInitialized();
    const bool refused = (first && strict && strangers) || (!started && bad);
    const bool opts_ok = !(first && strict && strangers);
    bool ok = !refused;
    const size_t out0 = slurp(out).size(), err0 = slurp(errf).size();
    const cf::Getopt::CommandLineCleaning c = clean ? cf::Getopt::eCLC_Cleanup : cf::Getopt::eCLC_None;
    const cf::Getopt::ParameterRegistrationCheck k = strict ? cf::Getopt::ePRC_Strict : cf::Getopt::ePRC_Relaxed;
    const bool was = mgr.initialized();
    switch (how)
    {
      case 0: ok = cf::initialize(v.argc, &v.p[0]); break;
      case 1: ok = cf::initialize(v.argc, &v.p[0], clean); break;
      case 2: ok = cf::initialize(v.argc, &v.p[0], c, k); break;
      case 3: ok = il::initialize(v.argc, &v.p[0]); break;
      case 4: ok = il::initialize(v.argc, &v.p[0], clean); break;
      case 5: ok = il::initialize(v.argc, &v.p[0], c, k); break;
      case 6: life.reset(new il::LifeCycle(v.argc, &v.p[0])); break;
      default: life = il::autoStart(v.argc, &v.p[0]); MON_CHECK(life.unique(), "autostart", "autoStart() keeps hold of what it returns");
    }
    mon::stat(std::string("obs.") + HOW[how]);
    h.add(uint64_t(how)).add(uint64_t(clean)).add(uint64_t(strict)).add(uint64_t(refused));
    MON_CHECK(ok == !refused, ok ? "accepted" : "refused", (ok ? "accepted: " : "refused: ") << ctx);
    const bool now = !refused && !started;
    if (!refused) started = true;
    else { MON_CHECK(slurp(errf).size() > err0, "silent", "refused without a message: " << ctx); mon::stat("obs.refused"); }
    MON_CHECK(cf::Getopt::instance().isInitialized() == (opts_ok || !first) && cf::ConfigManager::instance().isInitialized() == started, "initialized", "isInitialized() is " << cf::Getopt::instance().isInitialized()
              << " for options and " << cf::ConfigManager::instance().isInitialized() << " for the configuration behind " << ctx);
    // (logging is there even if its configuration is not)
    MON_CHECK(mgr.initialized() == (how >= 3 || was), "logging", "logging is " << (mgr.initialized() ? "" : "not ") << "initialized behind " << ctx);
    // what is left of the arguments
    if (first && opts_ok && clean) want = rest;
    if (opts_ok || !first)
    {
      MON_CHECK(v.now() == want, clean ? "cleaned" : "touched", "the arguments are " << join(v.now()) << " instead of " << join(want) << " behind " << ctx);
      if (first && clean && want.size() < all.size()) mon::stat("obs.cleaned");
      if (first && clean && want.size() > 1) mon::stat("obs.left_over");
      if (!first) mon::stat("obs.again");
    }
    if (started)
    {
      mon::phase("reading behind " + ctx);
      for (Map::iterator i = m.begin(); i != m.end(); ++i)
        MON_CHECK(cf::getDefault<std::string>(i->first, "unset") == i->second, "value", "key " << i->first << " is " << mon::q(cf::getDefault<std::string>(i->first, "unset")) << " instead of " << mon::q(i->second) << " behind " << ctx);
      size_t n = 0;
      for (cf::ConfigIterator it = cf::find(".*"); it.next(); )
        if (it.key().find("_ATTRIBUTE_TREE_FILE_") == std::string::npos) { ++n; MON_CHECK(m.count(it.key()), "extra", "key " << it.key() << " = " << mon::q(it.value()) << " from nowhere behind " << ctx); }
      MON_CHECK(n == m.size(), "missing", n << " keys instead of " << m.size() << " behind " << ctx);
      const std::string shown = slurp(out).substr(out0);
      if (now && dumped)
      {
        for (Map::iterator i = m.begin(); i != m.end(); ++i) MON_CHECK(shown.find("\n" + i->first + " = '" + i->second + "'\n") != std::string::npos, "dump", "the dump lacks " << i->first << " behind " << ctx);
        mon::stat("obs.dumped");
      }
      mon::stat("obs.values", m.size());
    }
    // a file which has come in between is read by the next start
    if (bad && r.chance(70)) { spit(file, text); if (!started) mon::stat("obs.repaired"); bad = false; }
    if (how >= 6 && r.chance(40)) { life2 = life; life.reset(); MON_CHECK(mgr.initialized(), "copy", "logging is shut down although a second owner of the life cycle lives, behind " << ctx); mon::stat("obs.shared"); }
    if (mgr.initialized())
    {
      // the configuration of the logging is that of the first start which had one
      if (!was && !configured) { with = started; opts = cf::Getopt::instance().isInitialized(); configured = with && opts; }
      mon::phase("logging behind " + ctx);
      if (!was || configured)
      {
        if (with && opts) talk(ctx);
      }
      // and an end
      if (r.chance(60) || life || life2)
      {
        mon::phase("shutting down behind " + ctx);
        if (life || life2) { life.reset(); life2.reset(); hist << "; end of the life cycle"; mon::stat("obs.life_ended"); }
        else { il::shutdown(); hist << "; shutdown"; mon::stat("obs.shutdown"); }
        MON_CHECK(!mgr.initialized(), "not-ended", "logging is still initialized behind " << hist.str());
        const std::vector<std::string> got = lines(slurp(logf));
        if (got != expected)
        {
          size_t i = 0; while (i < got.size() && i < expected.size() && got[i] == expected[i]) ++i;
          mon::viol("messages", "line " + std::to_string(i) + " of the log file is " + (i < got.size() ? mon::q(got[i]) : "missing") + " instead of " + (i < expected.size() ? mon::q(expected[i]) : "missing") + " behind " + ctx);
        }
        mon::stat("obs.ended");
      }
    }
  }
  mon::phase("ending " + hist.str());
  if (mgr.initialized()) il::shutdown();
  MON_CHECK(lines(slurp(logf)) == expected, "messages", "the log file has " << lines(slurp(logf)).size() << " messages instead of " << expected.size() << ", or other ones, at the end of " << hist.str());
  mon::state(h.add(join(all)));
  if (mon::want_sample()) mon::sample(hist.str() + " with " + join(all));
}
} // namespace

namespace mon {
void setup() { }
void teardown() { }
void run_case(uint64_t, Rng& r)
{
  for (int k = 0; k < 4; ++k)
  {
    dir = cfg().scratch + "/d" + std::to_string(k) + "/";
    if (system(("/bin/rm -rf " + dir).c_str()) != 0) broken("rm " + dir);      // (what a failed one has left)
    mkdir(dir.c_str(), 0755);
    Rng cr(r.next());
    in_child([&]() { one(cr); });
    std::string rm = "/bin/rm -rf " + cfg().scratch + "/d" + std::to_string(k);
    if (system(rm.c_str()) != 0) broken(rm);
  }
}
}
