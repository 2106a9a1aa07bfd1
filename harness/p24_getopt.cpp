// P24: command line parsing against an independent model; every parse in its own process (the parser is a singleton and may exit).
#include "mon.h"
#include <algorithm>
#include <iostream>
#include "icl_core_config/Config.h"
#include "icl_core_config/GetoptParser.h"
namespace cf = icl_core::config;
using namespace icl_core::config;
typedef std::vector<std::string> Args;

namespace {
struct Opt { std::string name, sh; bool val, prefix; };
struct Decl { std::vector<Opt> opts; std::vector<std::string> req, optl; bool extra; std::string delim; };
struct Res
{
  bool ok;
  std::map<std::string, std::string> opt;
  std::map<std::string, std::vector<std::pair<std::string, std::string> > > prefix;
  Args non, extra, left;        // left: arguments kept by the cleanup
};
bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

// What the command line means.
Res model(const Decl& d, const Args& a, bool strict)
{
  Res r; r.ok = true;
  size_t pos = 0;
  bool rest = false, bad = false;
  for (size_t i = 1; i < a.size() && !bad; ++i)
  {
    const std::string& s = a[i];
    if (rest) { r.extra.push_back(s); continue; }
    if (d.extra && s == d.delim) { rest = true; continue; }
    bool lng = s.size() > 2 && s[0] == '-' && s[1] == '-' && s[2] != '-';
    bool sho = s.size() > 1 && s[0] == '-' && s[1] != '-';
    if (lng || sho)
    {
      std::string name = s.substr(lng ? 2 : 1), value;
      bool has = false;
      if (lng) { size_t e = name.find('=', 1); if (e != std::string::npos) { has = true; value = name.substr(e + 1); name.resize(e); } }
      const Opt *o = NULL;
      for (size_t k = 0; !o && k < d.opts.size(); ++k) if (!d.opts[k].prefix && (lng ? d.opts[k].name : d.opts[k].sh) == name && !name.empty()) o = &d.opts[k];
      for (size_t k = 0; !o && k < d.opts.size(); ++k) if (d.opts[k].prefix) { const std::string& p = lng ? d.opts[k].name : d.opts[k].sh; if (!p.empty() && starts(name, p)) o = &d.opts[k]; }
      if (!o) { if (strict) bad = true; else { r.non.push_back(s); r.left.push_back(s); } continue; }
      if (!o->val) value = "yes";
      else if (lng) { if (!has) { bad = true; continue; } }
      else { if (i + 1 >= a.size()) { bad = true; continue; } value = a[++i]; }
      if (o->prefix) r.prefix[o->name].push_back(std::make_pair(name.substr((lng ? o->name : o->sh).size()), value));
      else r.opt[o->name] = value;
    }
    else if (pos < d.req.size()) r.opt[d.req[pos++]] = s;
    else if (pos < d.req.size() + d.optl.size()) r.opt[d.optl[pos++ - d.req.size()]] = s;
    else { r.non.push_back(s); r.left.push_back(s); }
  }
  r.ok = !bad && pos >= d.req.size() && !r.opt.count("help");
  return r;
}

Decl gen_decl(mon::Rng& r)
{
  static const std::vector<std::string> n = { "alpha", "beta", "a", "b.c", "x+y", "n(", "very-long-name", "with space", "o*", "[z]", "9", "al", "name:x", "$v" };
  static const std::vector<std::string> s = { "a", "b", "x", "al", "1", "?", "v", "xy", ".", "+" };
  static const std::vector<std::string> pl = { "define-", "P.", "w+", "Q" }, ps = { "D", "P.", "W+", "Q" };
  Decl d;
  Opt help = { "help", "h", false, false };
  d.opts.push_back(help);
  size_t k = r.below(6);
  for (size_t i = 0; i < k; ++i) { Opt o = { r.pick(n), r.chance(60) ? r.pick(s) : "", r.chance(60), false }; bool dup = false; for (size_t j = 0; j < d.opts.size(); ++j) dup = dup || d.opts[j].name == o.name || (!o.sh.empty() && d.opts[j].sh == o.sh); if (!dup) d.opts.push_back(o); }
  for (size_t i = 0; i < pl.size(); ++i) if (r.chance(30)) { Opt o = { pl[i], r.chance(70) ? ps[i] : "", r.chance(70), true }; d.opts.push_back(o); }
  static const std::vector<std::string> p = { "in", "out", "third", "p4", "p5" };
  size_t q = r.chance(50) ? 0 : r.below(3), w = r.chance(50) ? 0 : r.below(3);
  for (size_t i = 0; i < q; ++i) d.req.push_back(p[i]);
  for (size_t i = 0; i < w; ++i) d.optl.push_back(p[q + i]);
  d.extra = r.chance(50);
  static const std::vector<std::string> del = { "--", "--", "--", "--args", "-e", "++", "---" };
  d.delim = r.pick(del);
  return d;
}
std::string word(mon::Rng& r)
{
  static const std::vector<std::string> w = { "", "w", "-", "--", "---", "---x", "v=1", "a b", "--alpha", "-a", "yes", "=", "1", "-1", "file.txt", "w", "\n", "x\ny", "\xc3\xa4", "--args" };
  return r.chance(80) ? r.pick(w) : r.str("ab-=x. +*", 0, 6);
}
Args gen_args(mon::Rng& r, const Decl& d)
{
  Args a(1, r.chance(90) ? "prog" : "./dir/my prog");
  size_t n = r.chance(4) ? r.below(90) : r.below(9);
  for (size_t i = 0; i < n; ++i)
  {
    unsigned c = unsigned(r.below(100));
    const Opt& o = d.opts[r.below(d.opts.size())];
    if (o.name == "help" && !r.chance(10)) c = 80;
    std::string suf = o.prefix ? word(r) : r.chance(96) ? "" : "x";
    if (o.prefix) suf.erase(std::remove(suf.begin(), suf.end(), '='), suf.end());
    if (c < 35) { std::string s = "--" + o.name + suf; if (r.chance(o.val ? 95 : 8)) s += "=" + word(r); a.push_back(s); }
    else if (c < 65 && !o.sh.empty()) { a.push_back("-" + o.sh + suf); if (o.val && r.chance(95)) a.push_back(r.chance(5) ? r.chance(50) ? "--help" : "-h" : word(r)); }
    else if (c < 70 && d.extra) a.push_back(d.delim);
    else if (c < 74) a.push_back(word(r));
    else { static const std::vector<std::string> w = { "w", "in", "1", "", "a", "b c", "yes", "x=y", "-" }; a.push_back(r.pick(w)); }
  }
  for (size_t i = 0; i < a.size(); ++i) if (starts(a[i], "--=")) a[i] = "w";
  return a;
}
std::string show(const Args& a) { std::string s; for (size_t i = 0; i < a.size(); ++i) s += (i ? " " : "") + mon::q(a[i], 60); return s; }
std::string show(const Decl& d)
{
  std::string s = "options";
  for (size_t i = 0; i < d.opts.size(); ++i) s += " " + d.opts[i].name + "/" + d.opts[i].sh + (d.opts[i].val ? ":" : "") + (d.opts[i].prefix ? "*" : "");
  s += ", required"; for (size_t i = 0; i < d.req.size(); ++i) s += " " + d.req[i];
  s += ", optional"; for (size_t i = 0; i < d.optl.size(); ++i) s += " " + d.optl[i];
  if (d.extra) s += ", separator " + d.delim;
  return s;
}
void declare(const Decl& d, mon::Rng& r)
{
  Getopt& g = Getopt::instance();
  GetoptParameterList l;
  for (size_t i = 1; i < d.opts.size(); ++i)        // help is always there
  {
    GetoptParameter p(d.opts[i].name + (d.opts[i].val ? ":" : ""), d.opts[i].sh, "help text", d.opts[i].prefix);
    if (r.chance(30)) g.addParameter(p); else if (r.chance(30)) cf::addParameter(p); else l.push_back(p);
  }
  if (r.chance(50)) g.addParameter(l); else cf::addParameter(l);
  for (size_t i = 0; i < d.req.size(); ++i) g.addParameter(GetoptPositionalParameter(d.req[i], "help", false));
  GetoptPositionalParameterList o;
  for (size_t i = 0; i < d.optl.size(); ++i) o.push_back(GetoptPositionalParameter(d.optl[i], "help", true));
  g.addParameter(o);
  if (d.extra) { if (r.chance(50)) { if (d.delim == "--") cf::activateExtraCmdParams(); else cf::activateExtraCmdParams(d.delim); } else if (d.delim == "--") g.activateExtraCmdParams(); else g.activateExtraCmdParams(d.delim); }
}
struct Argv
{
  Args copy; std::vector<char *> p; std::vector<char *> orig; int argc;
  explicit Argv(const Args& a) : argc(int(a.size())) { for (size_t i = 0; i < a.size(); ++i) p.push_back(strdup(a[i].c_str())); orig = p; p.push_back(NULL); }
};
void judge(const Decl& d, const Args& a, const Res& m)
{
  Getopt& g = Getopt::instance();
  std::string ctx = show(a) + " with " + show(d);
  std::set<std::string> names(d.req.begin(), d.req.end());
  names.insert(d.optl.begin(), d.optl.end());
  for (size_t i = 0; i < d.opts.size(); ++i) { names.insert(d.opts[i].name); names.insert(d.opts[i].sh); }
  names.insert("unknown"); names.insert("");
  for (size_t i = 1; i < a.size(); ++i) names.insert(a[i]);
  for (std::set<std::string>::iterator n = names.begin(); n != names.end(); ++n)
  {
    std::map<std::string, std::string>::const_iterator f = m.opt.find(*n);
    MON_CHECK(g.paramOptPresent(*n) == (f != m.opt.end()), "present", "option " << mon::q(*n) << " is " << (g.paramOptPresent(*n) ? "" : "not ") << "present for " << ctx);
    MON_CHECK(g.paramOpt(*n) == (f == m.opt.end() ? "" : f->second), "value", "option " << mon::q(*n) << " is " << mon::q(g.paramOpt(*n)) << " for " << ctx);
    MON_CHECK(cf::paramOptPresent(*n) == (f != m.opt.end()), "present", "config::paramOptPresent(" << mon::q(*n) << ") is " << (f == m.opt.end()) << " for " << ctx);
    std::string fv = "unset"; const bool got = cf::paramOpt<std::string>(*n, fv);
    MON_CHECK(got == (f != m.opt.end()) && fv == (got ? f->second : "unset"), "value", "config::paramOpt(" << mon::q(*n) << ") gives " << got << ", " << mon::q(fv) << " for " << ctx);
    std::map<std::string, std::vector<std::pair<std::string, std::string> > >::const_iterator h = m.prefix.find(*n);
    Getopt::KeyValueList l = g.paramPrefixOpt(*n);
    std::vector<std::pair<std::string, std::string> > v;
    for (Getopt::KeyValueList::iterator it = l.begin(); it != l.end(); ++it) v.push_back(std::make_pair(it->m_key, it->m_value));
    MON_CHECK(g.paramPrefixOptPresent(*n) == (h != m.prefix.end()), "prefix_present", "prefix option " << mon::q(*n) << " is " << (h == m.prefix.end() ? "" : "not ") << "present for " << ctx);
    MON_CHECK(v == (h == m.prefix.end() ? std::vector<std::pair<std::string, std::string> >() : h->second), "prefix", "prefix option " << mon::q(*n) << " has " << v.size() << " other values for " << ctx);
  }
  Args non, extra;
  for (size_t i = 0; i < g.paramNonOptCount(); ++i) non.push_back(g.paramNonOpt(i));
  for (size_t i = 0; i < g.extraCmdParamCount(); ++i) extra.push_back(g.extraCmdParam(i));
  MON_CHECK(non == m.non, "positional", "positional arguments are " << show(non) << " for " << ctx);
  MON_CHECK(extra == m.extra, "extra", "extra arguments are " << show(extra) << " for " << ctx);
  non.clear(); extra.clear();
  for (size_t i = 0; i < cf::paramNonOptCount(); ++i) non.push_back(cf::paramNonOpt(i));
  for (size_t i = 0; i < cf::extraCmdParamCount(); ++i) extra.push_back(cf::extraCmdParam(i));
  MON_CHECK(non == m.non, "positional", "config::paramNonOpt: the positional arguments are " << show(non) << " for " << ctx);
  MON_CHECK(extra == m.extra, "extra", "config::extraCmdParam: the extra arguments are " << show(extra) << " for " << ctx);
  for (size_t i = 0; i < 3; ++i)
  {
    MON_CHECK(g.paramNonOpt(non.size() + i * 1000) == "", "out_of_range", "paramNonOpt behind the end for " << ctx);
    MON_CHECK(cf::paramNonOpt(non.size() + i * 1000) == "" && cf::extraCmdParam(extra.size() + i * 1000) == "", "out_of_range", "config::paramNonOpt or extraCmdParam behind the end for " << ctx);
    MON_CHECK(g.extraCmdParam(extra.size() + i * 1000) == "", "out_of_range", "extraCmdParam behind the end for " << ctx);
  }
  std::string untouched = "untouched";
  MON_CHECK(!cf::paramNonOpt<std::string>(non.size(), untouched) && untouched == "untouched", "out_of_range", "config::paramNonOpt<String> behind the end for " << ctx);
  MON_CHECK(g.programName() == a[0], "program", "programName() is " << mon::q(g.programName()));
  mon::stat("obs.options", m.opt.size());
  mon::stat("obs.extras", extra.size());
  mon::stat("obs.positional", non.size());
  if (!m.prefix.empty()) mon::stat("obs.prefix_options");
}
} // namespace

namespace mon {
void setup() { }
void teardown() { }
void run_case(uint64_t, Rng& r)
{
  for (int k = 0; k < 8; ++k)
  {
    Decl d = gen_decl(r);
    std::vector<Args> tries(1, gen_args(r, d));
    bool strict = r.chance(50);
    // Several command lines in one process: only failures are followed by another attempt.
    while (tries.size() < 4 && r.chance(50)) tries.push_back(gen_args(r, d));
    Rng cr(r.next());
    unsigned cleanup = unsigned(r.below(3));       // none, cleanup, deprecated flag
    size_t done = 0;
    Res first = model(d, tries[0], strict);
    for (size_t t = 0; t < tries.size(); ++t) { first = model(d, tries[t], cleanup == 2 ? true : strict); done = t; if (first.ok || first.opt.count("help")) break; if (!first.ok) { bool bad_only = true; (void)bad_only; } }
    // The process ends instead of returning if help is wanted or required parameters are missing.
    int fd[2]; if (pipe(fd) != 0) broken("pipe");
    fflush(g().out);
    phase("parsing " + show(tries[0]) + " with " + show(d));
    pid_t pid = fork();
    if (pid < 0) broken("fork");
    if (pid == 0)
    {
      close(fd[0]);
      std::ostringstream err; std::cerr.rdbuf(err.rdbuf());
      g().stats.clear(); g().samples.clear();
      size_t v0 = g().viols;
      try
      {
        declare(d, cr);
        Getopt& o = Getopt::instance();
        { int zero = 0; char *none[1] = { NULL }; MON_CHECK(!o.initialize(zero, none) && !o.isInitialized(), "empty", "an empty argument vector was accepted"); }
        for (size_t t = 0; t < tries.size(); ++t)
        {
          Argv *v = new Argv(tries[t]);
          bool s = cleanup == 2 ? true : strict, clean = cleanup == 1 || (cleanup == 2 && cr.chance(50));
          Res m = model(d, tries[t], s);
          std::string ctx = show(tries[t]) + " with " + show(d) + (s ? ", strict" : ", relaxed");
          phase("parsing " + ctx);
          char tag = char('a' + t); if (write(fd[1], &tag, 1) != 1) _exit(3);
          bool ok = cleanup == 2 ? o.initialize(v->argc, &v->p[0], clean) : o.initialize(v->argc, &v->p[0], clean ? Getopt::eCLC_Cleanup : Getopt::eCLC_None, s ? Getopt::ePRC_Strict : Getopt::ePRC_Relaxed);
          MON_CHECK(ok == m.ok, ok ? "accepted" : "refused", (ok ? "accepted " : "refused ") << ctx);
          MON_CHECK(o.isInitialized() == ok, "initialized", "isInitialized() is " << !ok << " after " << ctx);
          if (!ok)
          {
            MON_CHECK(v->argc == int(tries[t].size()), "argc", "argc changed by the failed " << ctx);
            for (int i = 0; i < v->argc; ++i) MON_CHECK(v->p[i] == v->orig[i], "argv", "argv changed by the failed " << ctx);
            stat("obs.refused");
            continue;
          }
          judge(d, tries[t], m);
          Args left;
          for (int i = 1; i < v->argc; ++i) left.push_back(v->p[i]);
          MON_CHECK(v->argc >= 1 && v->p[0] == v->orig[0] && left == (clean ? m.left : Args(tries[t].begin() + 1, tries[t].end())), "cleanup", (clean ? "the cleanup left " : "without cleanup: ") << show(left) << " of " << ctx);
          // A second initialization changes nothing.
          Args other = gen_args(cr, d); Argv w(other);
          MON_CHECK(o.initialize(w.argc, &w.p[0], Getopt::eCLC_Cleanup, Getopt::ePRC_Relaxed), "second", "a second initialization failed");
          MON_CHECK(w.argc == int(other.size()), "second", "a second initialization changed argc");
          judge(d, tries[t], m);
          stat("obs.accepted");
          if (clean && !m.left.empty()) stat("obs.cleaned");
          break;
        }
      }
      catch (const Fail&) { }
      catch (const std::exception& e) { note_viol("exception", e.what()); }
      std::string out = "Z";
      for (std::map<std::string, uint64_t>::iterator it = g().stats.begin(); it != g().stats.end(); ++it) out += it->first + " " + std::to_string(it->second) + "\n";
      if (write(fd[1], out.data(), out.size()) != ssize_t(out.size())) _exit(3);
      _exit(g().viols == v0 ? 0 : 77);
    }
    close(fd[1]);
    std::string t; char b[4096]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) t.append(b, size_t(n));
    close(fd[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0) { }
    if (WIFSIGNALED(st)) _exit(128 + WTERMSIG(st));
    if (WEXITSTATUS(st) == 77) { ++g().viols; throw Fail(); }
    if (WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
    size_t z = t.find('Z');
    if (z == std::string::npos)       // it ended by itself
    {
      size_t last = t.empty() ? 0 : size_t(t[t.size() - 1] - 'a');
      bool s = cleanup == 2 ? true : strict;
      Res m = model(d, tries[last], s);
      MON_CHECK(!m.ok, "exited", "the process ended while parsing " << show(tries[last]) << " with " << show(d));
      stat("obs.ended");
    }
    else
    {
      std::istringstream in(t.substr(z + 1)); std::string name; uint64_t v;
      while (in >> name >> v) stat(name, v);
    }
    state(Hash().add(show(tries[done])).add(show(d)).add(strict).add(cleanup));
    if (want_sample()) sample(show(tries[0]) + " with " + show(d) + (first.ok ? ": accepted" : ": refused"));
  }
}
}
