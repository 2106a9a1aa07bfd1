// P55: the help text tells everything that was declared; who asks for it, or makes a mistake, gets it.
#include "mon.h"
#include <iostream>
#include <fstream>
#include <fcntl.h>
#include <sys/wait.h>
#include "icl_core_config/Config.h"
using namespace icl_core::config;
namespace cf = icl_core::config;

namespace {
struct Opt { std::string name, sh, help; bool val, prefix; std::string dflt; };
struct Pos { std::string name, help; bool optional; };
struct Decl { std::vector<Opt> opts; std::vector<Pos> pos; std::string prog, version, description; bool config; };

std::string text(mon::Rng& r)
{
  std::string s;
  if (r.chance(8)) return s;
  for (int n = int(r.below(4)); n >= 0; --n) { s += r.str("abcdefgh ABC.,;$&\\()0123<>=?*+[]{}|^%\"'", 1, 40); if (n) s += "\n"; }
  return s;
}
Decl gen(mon::Rng& r)
{
  Decl d;
  d.prog = r.pick(std::vector<std::string>{ "prog", "/usr/bin/tool", "./a b", "x" });
  if (r.chance(60)) d.version = r.str("0123456789.abc", 1, 12);
  if (r.chance(70)) d.description = text(r);
  d.config = r.chance(40);
  std::set<std::string> used, sh;
  // those the library declares itself
  const Opt help = { "help", "h", "", false, false }; d.opts.push_back(help); used.insert("help"); sh.insert("h");
  if (d.config)
  {
    const Opt c = { "configfile", "c", "", true, false }, dc = { "dump-config", "dc", "", false, false }, o = { "config-option", "o", "", true, true };
    d.opts.push_back(c); d.opts.push_back(dc); d.opts.push_back(o);
  }
  used.insert("configfile"); used.insert("dump-config"); used.insert("config-option"); sh.insert("c"); sh.insert("dc"); sh.insert("o");
  const int n = int(r.below(r.chance(10) ? 40 : 8));
  for (int i = 0; i < n; ++i)
  {
    Opt o;
    o.name = r.chance(10) ? r.pick(std::vector<std::string>{ "log-level", "quick-debug", "helper", "configfiles", "z" }) : r.str("abcdefgh", 1, 6) + (r.chance(30) ? "-" + r.str("xyz0", 1, 3) : "");
    if (r.chance(60)) o.sh = r.str("abcdefgijklmnpq", 1, 2);
    if (used.count(o.name) || (!o.sh.empty() && sh.count(o.sh))) continue;
    used.insert(o.name); if (!o.sh.empty()) sh.insert(o.sh);
    o.val = r.chance(50); o.prefix = r.chance(20); o.help = text(r);
    // the default value is part of the explanation
    if (d.config && o.val && !o.prefix && r.chance(40)) { o.dflt = r.chance(20) ? r.str("0123456789", 1, 1) : r.str("abc/0.", 1, 30); if (r.chance(20)) o.help = ""; }
    d.opts.push_back(o);
  }
  for (int i = int(r.below(4)); i > 0; --i) { Pos p; p.name = r.str("klmnop", 2, 6); if (used.count(p.name)) continue; used.insert(p.name); p.help = text(r); p.optional = r.chance(50); d.pos.push_back(p); }
  return d;
}
void declare(const Decl& d, mon::Rng& r)
{
  if (d.config) ConfigManager::instance();
  GetoptParameterList gl; GetoptPositionalParameterList pl; ConfigParameterList cl; ConfigPositionalParameterList cpl;
  for (size_t i = d.config ? 4 : 1; i < d.opts.size(); ++i)
  {
    const Opt& o = d.opts[i];
    const GetoptParameter p(o.name + (o.val ? ":" : ""), o.sh, o.help, o.prefix);
    if (d.config && !o.prefix && (!o.dflt.empty() || r.chance(50)))
    {
      const ConfigParameter c(o.name + (o.val ? ":" : ""), o.sh, r.chance(80) ? "/k/" + o.name : "", o.help, o.dflt);
      switch (r.below(3)) { case 0: cf::addParameter(c); break; case 1: ConfigManager::instance().addParameter(c); break; default: cl.push_back(c); }
    }
    else switch (r.below(3)) { case 0: cf::addParameter(p); break; case 1: Getopt::instance().addParameter(p); break; default: gl.push_back(p); }
  }
  for (size_t i = 0; i < d.pos.size(); ++i)
  {
    // the order matters: lists would come last
    const Pos& p = d.pos[i];
    if (d.config && r.chance(50)) { const ConfigPositionalParameter c(p.name, r.chance(80) ? "/p/" + p.name : "", p.help, p.optional); if (r.chance(50)) cf::addParameter(c); else { ConfigPositionalParameterList one(1, c); cf::addParameter(one); } }
    else { const GetoptPositionalParameter g(p.name, p.help, p.optional); if (r.chance(50)) cf::addParameter(g); else { GetoptPositionalParameterList one(1, g); cf::addParameter(one); } }
  }
  if (r.chance(50)) cf::addParameter(gl); else Getopt::instance().addParameter(gl);
  if (!cl.empty()) { if (r.chance(50)) cf::addParameter(cl); else ConfigManager::instance().addParameter(cl); }
  if (!d.version.empty()) { if (r.chance(50)) cf::setProgramVersion(d.version); else Getopt::instance().setProgramVersion(d.version); }
  if (!d.description.empty()) { if (r.chance(50)) cf::setProgramDescription(d.description); else Getopt::instance().setProgramDescription(d.description); }
}

std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) v.push_back(l); return v; }
bool name_char(char c) { return isalnum((unsigned char)c) || c == '-' || c == '_'; }
// `what` stands in `l` as a word of its own (a prefix option goes on behind its name)
bool has_word(const std::string& l, const std::string& what, bool open_end)
{
  for (size_t p = l.find(what); p != std::string::npos; p = l.find(what, p + 1))
    if ((p == 0 || !name_char(l[p - 1])) && (open_end || p + what.size() == l.size() || !name_char(l[p + what.size()]))) return true;
  return false;
}
std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }

// The lines behind `at` are the help text.
bool followed_by(const std::vector<std::string>& l, size_t at, const std::string& help)
{
  const std::vector<std::string> h = lines(help);
  for (size_t i = 0; i < h.size(); ++i) if (at + 1 + i >= l.size() || trim(l[at + 1 + i]) != trim(h[i])) return false;
  return true;
}
// The explanation, up to the next option or empty line, ends with the default value.
bool dflt_named(const std::vector<std::string>& l, size_t at, const Opt& o)
{
  if (o.dflt.empty()) return true;
  mon::stat("obs.defaults");
  for (size_t k = at + 1 + lines(o.help).size(); k < l.size() && l[k].compare(0, 3, "  -") != 0; ++k) if (l[k].find(o.dflt) != std::string::npos) return true;
  return false;
}
void judge(const Decl& d, const std::string& out, const std::string& ctx)
{
  const std::vector<std::string> l = lines(out);
  MON_CHECK(out.find(d.prog) != std::string::npos, "program", "the help does not name the program " << mon::q(d.prog) << ctx << ": " << mon::esc(out, 600));
  MON_CHECK(d.version.empty() || out.find("version " + d.version) != std::string::npos, "version", "the help does not tell the version " << mon::q(d.version) << ctx << ": " << mon::esc(out, 600));
  MON_CHECK(out.find(d.description) != std::string::npos, "description", "the help does not contain the description " << mon::q(d.description) << ctx << ": " << mon::esc(out, 600));
  // the usage: required before optional parameters, each kind in the order of declaration
  std::string usage;
  for (int k = 0; k < 2; ++k) for (size_t i = 0; i < d.pos.size(); ++i) if (d.pos[i].optional == (k == 1)) usage += k ? " [<" + d.pos[i].name + ">]" : " <" + d.pos[i].name + ">";
  size_t at = 0;
  while (at < l.size() && l[at].compare(0, 6, "Usage:") != 0) ++at;
  MON_CHECK(at < l.size(), "usage", "there is no usage" << ctx << ": " << mon::esc(out, 600));
  MON_CHECK(l[at].size() >= usage.size() && l[at].compare(l[at].size() - usage.size(), usage.size(), usage) == 0, "usage", "the usage " << mon::q(l[at]) << " does not end with " << mon::q(usage) << ctx);
  for (size_t i = 0; i < d.pos.size(); ++i)
  {
    bool found = false;
    for (size_t k = at + 1; k < l.size() && !found; ++k) found = trim(l[k]).compare(0, d.pos[i].name.size() + 2, "<" + d.pos[i].name + ">") == 0 && followed_by(l, k, d.pos[i].help);
    MON_CHECK(found, "positional", "the help does not explain <" << d.pos[i].name << "> with " << mon::q(d.pos[i].help) << ctx << ": " << mon::esc(out, 1500));
    mon::stat("obs.positional");
  }
  for (size_t i = 0; i < d.opts.size(); ++i)
  {
    const Opt& o = d.opts[i];
    int named = 0; bool ok = false;
    for (size_t k = at + 1; k < l.size(); ++k)
    {
      if (l[k].compare(0, 3, "  -") != 0 || !has_word(l[k], "--" + o.name, o.prefix)) continue;
      // a longer option that goes on behind this prefix
      bool other = false;
      for (size_t j = 0; j < d.opts.size() && o.prefix; ++j) other = other || (d.opts[j].name.size() > o.name.size() && has_word(l[k], "--" + d.opts[j].name, d.opts[j].prefix));
      if (other) continue;
      ++named;
      const size_t sep = l[k].find("--" + o.name), first = l[k].find("value");
      const bool value = l[k].find("value", sep) != std::string::npos;
      if (!o.sh.empty() && (first != std::string::npos && first < sep) != o.val) continue;
      if ((o.sh.empty() || has_word(l[k], "-" + o.sh, o.prefix)) && value == o.val && followed_by(l, k, o.help) && dflt_named(l, k, o)) ok = true;
    }
    const std::string kind = o.prefix ? "prefix" : "option";
    MON_CHECK(named > 0, "missing:" + kind, "the help does not name the option --" << o.name << " (" << kind << ")" << ctx << ": " << mon::esc(out, 1500));
    MON_CHECK(ok, "explained:" + kind, "the help does not explain --" << o.name << (o.sh.empty() ? "" : ", -" + o.sh) << (o.val ? " with" : " without") << " value by " << mon::q(o.help) << (o.dflt.empty() ? std::string() : " and the default " + mon::q(o.dflt)) << ctx << ": " << mon::esc(out, 1500));
    MON_CHECK(named == 1, "twice", "the help names --" << o.name << " " << named << " times" << ctx << ": " << mon::esc(out, 1500));
    mon::stat(o.prefix ? "obs.prefix_options" : "obs.options");
  }
}
} // namespace

namespace mon {
void setup() { }
void teardown() { }
void run_case(uint64_t, Rng& r)
{
  Decl d = gen(r);
  size_t required = 0; for (size_t i = 0; i < d.pos.size(); ++i) required += !d.pos[i].optional;
  // how the help comes about
  enum { ASKED, LONG, SHORT, UNKNOWN, NO_VALUE, MISSING };
  int how = int(r.below(6));
  const Opt *valued = NULL;
  for (size_t i = 1; i < d.opts.size(); ++i) if (d.opts[i].val && !d.opts[i].prefix) valued = &d.opts[i];
  if (how == NO_VALUE && !valued) how = UNKNOWN;
  if (how == MISSING && required == 0) how = LONG;
  std::vector<std::string> args(1, d.prog);
  for (size_t i = 0; i < required && how != MISSING; ++i) args.push_back("v" + std::to_string(i));
  if (how == MISSING) for (size_t i = 0; i < r.below(required); ++i) args.push_back("v");
  if (how == LONG) args.push_back("--help");
  if (how == SHORT) args.push_back("-h");
  if (how == UNKNOWN) args.push_back("--no_such_option");
  if (how == NO_VALUE) { if (!valued->sh.empty() && r.chance(50)) args.push_back("-" + valued->sh); else args.push_back("--" + valued->name); }
  static const char *const kinds[] = { "printHelp()", "--help", "-h", "an unknown option", "a missing value", "a missing parameter" };
  const std::string file = cfg().scratch + "/help.txt";
  Rng cr(r.next());
  phase(std::string("help by ") + kinds[how]);
  fflush(g().out);
  const pid_t pid = fork();
  if (pid < 0) broken("fork");
  if (pid == 0)
  {
    const int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0 || dup2(fd, 2) != 2) _exit(99);
    close(fd);
    declare(d, cr);
    std::vector<char *> v; for (size_t i = 0; i < args.size(); ++i) v.push_back(strdup(args[i].c_str())); v.push_back(NULL);
    int argc = int(args.size());
    bool ok = Getopt::instance().initialize(argc, &v[0], Getopt::eCLC_None, Getopt::ePRC_Strict);
    if (how == ASKED && ok) { if (cr.chance(50)) cf::printHelp(); else Getopt::instance().printHelp(); }
    std::cerr.flush(); std::cout.flush();
    _exit(ok ? 41 : 42);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0) { }
  if (WIFSIGNALED(st)) _exit(128 + WTERMSIG(st));
  std::ifstream in(file.c_str(), std::ios::binary); std::ostringstream o; o << in.rdbuf();
  const std::string out = o.str();
  if (WEXITSTATUS(st) == 99) broken("cannot redirect");
  if (out.find("ERROR: AddressSanitizer") != std::string::npos || out.find("runtime error:") != std::string::npos) { fputs(out.c_str(), stderr); _exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 1); }
  const std::string ctx = std::string(" (by ") + kinds[how] + ")";
  const int want = how == ASKED ? 41 : how == UNKNOWN || how == NO_VALUE ? 42 : 0;
  static const char *const ends[] = { "the program ended with status 0", "initialize() returned true", "initialize() returned false" };
  const int got = WEXITSTATUS(st);
  MON_CHECK(got == want, "end", "wanted that " << ends[want ? want - 40 : 0] << ", but " << (got == 0 || got == 41 || got == 42 ? std::string(ends[got ? got - 40 : 0]) : "the program ended with status " + std::to_string(got)) << ctx << ": " << esc(out, 600));
  judge(d, out, ctx);
  stat(std::string("obs.by ") + kinds[how]);
  Hash h; for (size_t i = 0; i < d.opts.size(); ++i) h.add(d.opts[i].name); h.add(uint64_t(how));
  state(h);
  if (want_sample()) sample(std::to_string(d.opts.size()) + " options and " + std::to_string(d.pos.size()) + " positional parameters, help by " + kinds[how] + ": " + esc(out.substr(0, 500)));
}
}
