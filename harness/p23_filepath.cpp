// P23: FilePath against a lexical model and the real file system.
#include "mon.h"
#include <algorithm>
#include <limits.h>
#include "icl_core_config/AttributeTree.h"
using icl_core::config::FilePath;

namespace {
// What a path denotes: root or current directory, steps up, then names.
struct Den { bool abs; unsigned up; std::vector<std::string> names; bool operator==(const Den& o) const { return abs == o.abs && up == o.up && names == o.names; } };
Den denote(const std::string& p)
{
  Den d; d.abs = !p.empty() && p[0] == '/'; d.up = 0;
  std::string c;
  for (size_t i = 0; i <= p.size(); ++i)
  {
    if (i < p.size() && p[i] != '/') { c += p[i]; continue; }
    if (c == "..") { if (!d.names.empty()) d.names.pop_back(); else if (!d.abs) ++d.up; }
    else if (!c.empty() && c != ".") d.names.push_back(c);
    c.clear();
  }
  return d;
}
std::string fwd(std::string p) { std::replace(p.begin(), p.end(), '\\', '/'); return p; }
std::vector<std::string> comps(const std::string& p) { std::vector<std::string> v(1); for (size_t i = 0; i < p.size(); ++i) if (p[i] == '/') v.push_back(""); else v.back() += p[i]; return v; }

std::string gen_path(mon::Rng& r)
{
  static const std::vector<std::string> c = { "a", "b", "..", "..", ".", ".", "", "dir.d", "file.xml", ".hidden", "...", "..x", "x..", "a:", "C:", "name", ".a.b.", "\xc3\xa4" };
  std::string p = r.chance(35) ? "/" : "";
  size_t n = 1 + r.below(7);
  for (size_t i = 0; i < n; ++i) { if (i) p += r.chance(10) ? "\\" : r.chance(8) ? "//" : "/"; p += r.chance(90) ? r.pick(c) : r.str("ab./\\:~", 0, 5); }
  if (r.chance(15)) p += "/";
  return p;
}
std::string root;
void check_norm(const std::string& p)
{
  mon::phase("normalizePath(" + mon::q(p) + ")");
  std::string n = FilePath::normalizePath(p);
  MON_CHECK(denote(n) == denote(fwd(p)), "denotes", "normalizePath(" << mon::q(p) << ") = " << mon::q(n) << " denotes another file");
  MON_CHECK(FilePath::normalizePath(n) == n, "idempotent", "normalizePath(" << mon::q(p) << ") = " << mon::q(n) << ", again: " << mon::q(FilePath::normalizePath(n)));
  MON_CHECK(n.find('\\') == std::string::npos, "separator", "normalizePath(" << mon::q(p) << ") = " << mon::q(n) << " has another separator");
  std::vector<std::string> c = comps(n);
  for (size_t i = 0; i + 1 < c.size(); ++i)       // the last one is the name
  {
    MON_CHECK(c[i] != ".", "dot", "normalizePath(" << mon::q(p) << ") = " << mon::q(n) << " still has \"./\"");
    if (c[i] == "..") for (size_t j = 0; j < i; ++j) MON_CHECK(c[j] == ".." || c[j].empty(), "dotdot", "normalizePath(" << mon::q(p) << ") = " << mon::q(n) << " still has \"something/../\"");
  }
  bool trailing = !p.empty() && fwd(p)[p.size() - 1] == '/';
  if (!n.empty()) MON_CHECK((n[n.size() - 1] == '/') == trailing, "trailing", "normalizePath(" << mon::q(p) << ") = " << mon::q(n) << " has another end");
  MON_CHECK(FilePath::exchangeSeparators(p) == fwd(p), "exchange", "exchangeSeparators(" << mon::q(p) << ") = " << mon::q(FilePath::exchangeSeparators(p)));
  bool rel = p.empty() || p[0] != '/';
  MON_CHECK(FilePath::isRelativePath(p) == rel, "relative", "isRelativePath(" << mon::q(p) << ") is " << !rel);
}
void check_object(const std::string& p, bool cstr)
{
  mon::phase("FilePath(" + mon::q(p) + ")");
  FilePath f = cstr ? FilePath(p.c_str()) : FilePath(icl_core::String(p));
  std::string full = f.absoluteName(), q = fwd(p);
  char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) mon::broken("getcwd");
  std::string want = (!q.empty() && q[0] == '/') ? q : std::string(cwd) + "/" + q;
  MON_CHECK(denote(full) == denote(want), "absolute", "absoluteName() of " << mon::q(p) << " in " << cwd << " is " << mon::q(full));
  MON_CHECK(!f.isRelativePath() && full[0] == '/', "absolute", "absoluteName() of " << mon::q(p) << " is relative: " << mon::q(full));
  MON_CHECK(denote(f.currentDir()) == denote(cwd), "cwd", "currentDir() is " << mon::q(f.currentDir()) << " in " << cwd);
  MON_CHECK(f.path() + f.name() == full, "parts", "path " << mon::q(f.path()) << " and name " << mon::q(f.name()) << " do not make " << mon::q(full));
  MON_CHECK(f.name().find('/') == std::string::npos && !f.path().empty() && f.path()[f.path().size() - 1] == '/', "parts", "path " << mon::q(f.path()) << ", name " << mon::q(f.name()) << " of " << mon::q(full));
  size_t dot = f.name().rfind('.');
  std::string ext = dot == std::string::npos ? "" : f.name().substr(dot);
  MON_CHECK(f.extension() == ext, "extension", "extension of " << mon::q(full) << " is " << mon::q(f.extension()) << " instead of " << mon::q(ext));
  MON_CHECK(denote(f.absolutePath(p)) == denote(p.empty() || p[0] != '/' ? std::string(cwd) + "/" + q : q), "absolute", "absolutePath(" << mon::q(p) << ") is " << mon::q(f.absolutePath(p)));
}
bool replace_model(std::string& s)      // false: not to be replaced at all
{
  for (unsigned n = 0; n < 3000; ++n)
  {
    size_t a = s.find("${");
    if (a == std::string::npos) return true;
    size_t e = s.find('}', a + 2);
    if (e == std::string::npos) return false;
    std::string name = s.substr(a + 2, e - a - 2);
    const char *v = getenv(name.c_str());
    s = s.substr(0, a) + (v ? std::string(v) : name) + s.substr(e + 1);
  }
  return false;
}
void check_env(mon::Rng& r)
{
  static const std::vector<std::string> frag = { "a", "/", "$", "{", "}", "${", "${P23_A}", "${P23_B}", "${P23_C}", "${P23_UNSET}", "${}", "${P23_EMPTY}", "x.y", "$P23_A", "\\", " ", "${P23_D}", "${ P23_A}" };
  setenv("P23_EMPTY", "", 1);
  unsetenv("P23_UNSET"); unsetenv("P23_D");
  const char *vars[] = { "P23_A", "P23_B", "P23_C" };
  bool cyc = r.chance(25);
  for (unsigned i = 0; i < 3; ++i)
  {
    std::string v = r.str("ab/.", 0, 6);
    if (r.chance(40))
    {
      unsigned to = cyc ? unsigned(r.below(3)) : i + 1;
      if (to < 3) v += std::string("${") + vars[to] + "}" + r.str("xy", 0, 2);
    }
    if (r.chance(4)) v += "${";
    if (r.chance(4)) v += "$";
    setenv(vars[i], v.c_str(), 1);
  }
  std::string s; size_t n = r.below(7);
  for (size_t i = 0; i < n; ++i) s += r.pick(frag);
  mon::phase("replaceEnvironment(" + mon::q(s) + ")");
  std::string m = s;
  bool ok = replace_model(m);
  if (!ok) m = s;
  std::string got = FilePath::replaceEnvironment(s);
  MON_CHECK(got == m, "environment", "replaceEnvironment(" << mon::q(s) << ") is " << mon::q(got) << " instead of " << mon::q(m) << " with A=" << mon::q(getenv("P23_A")) << " B=" << mon::q(getenv("P23_B")) << " C=" << mon::q(getenv("P23_C")));
  for (unsigned i = 0; i < 3; ++i) MON_CHECK(FilePath::getEnvironment(vars[i]) == getenv(vars[i]), "environment", "getEnvironment() is wrong");
  if (ok && m != s) mon::stat("obs.replaced");
  if (!ok) mon::stat("obs.unreplaceable");
  mon::state(mon::Hash().add(300).add(ok).add(n).add(std::min(s.size(), size_t(40))).add(std::min(m.size(), size_t(60))));
}
ino_t inode(const std::string& p) { struct stat st; return stat(p.empty() ? "." : p.c_str(), &st) == 0 ? st.st_ino : 0; }
// A path that exists, with detours.
void check_real(mon::Rng& r)
{
  static const std::vector<std::string> dirs = { "", "a", "a/b", "a/b/c", "d.x", "d.x/e", ".h" };
  std::string at = r.pick(dirs);
  if (chdir((root + "/" + at).c_str()) != 0) mon::broken("chdir");
  bool abs = r.chance(40);
  std::string p = abs ? root : "";
  std::string cur = abs ? "" : at;        // directory reached, relative to root
  size_t steps = r.below(8);
  for (size_t i = 0; i < steps; ++i)
  {
    std::string go;
    unsigned k = unsigned(r.below(4));
    if (k == 0) go = ".";
    else if (k == 1 && !cur.empty()) { go = ".."; size_t s = cur.rfind('/'); cur = s == std::string::npos ? "" : cur.substr(0, s); }
    else
    {
      std::vector<std::string> sub;
      for (size_t j = 0; j < dirs.size(); ++j)
        if (dirs[j].size() > cur.size() && dirs[j].compare(0, cur.size(), cur) == 0 && (cur.empty() || dirs[j][cur.size()] == '/'))
        {
          std::string rest = dirs[j].substr(cur.empty() ? 0 : cur.size() + 1);
          if (rest.find('/') == std::string::npos) sub.push_back(rest);
        }
      if (sub.empty()) continue;
      go = r.pick(sub); cur = cur.empty() ? go : cur + "/" + go;
    }
    if (!p.empty() && p[p.size() - 1] != '/') p += "/";
    p += go + (r.chance(15) ? "//" : "/");
  }
  if (!p.empty() && p[p.size() - 1] != '/') p += "/";
  p += "f.txt";
  ino_t i = inode(p);
  if (!i) mon::broken("path " + p + " does not exist in " + at);
  mon::phase("real path " + p);
  std::string n = FilePath::normalizePath(p);
  MON_CHECK(inode(n) == i, "file-system", "normalizePath(" << mon::q(p) << ") = " << mon::q(n) << " is another file in directory " << mon::q(at));
  FilePath f(p.c_str());
  MON_CHECK(inode(f.absoluteName()) == i, "file-system", "FilePath(" << mon::q(p) << ") = " << mon::q(f.absoluteName()) << " is another file in directory " << mon::q(at));
  MON_CHECK(f.name() == "f.txt" && f.extension() == ".txt", "file-system", "name " << mon::q(f.name()) << " extension " << mon::q(f.extension()) << " of " << mon::q(p));
  mon::stat("obs.real_files");
  mon::state(mon::Hash().add(400).add(p.substr(abs ? root.size() : 0)).add(at));
}
}

void mon::setup()
{
  if (!freopen("/dev/null", "w", stdout)) mon::broken("stdout");
  root = mon::cfg().scratch + "/fs";
  const char *d[] = { "", "/a", "/a/b", "/a/b/c", "/d.x", "/d.x/e", "/.h" };
  for (unsigned i = 0; i < 7; ++i) { mkdir((root + d[i]).c_str(), 0755); FILE *f = fopen((root + d[i] + "/f.txt").c_str(), "w"); if (!f) mon::broken("fs"); fclose(f); }
}
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  for (unsigned i = 0; i < 20; ++i)
  {
    std::string p = r.chance(2) ? std::string() : gen_path(r);
    check_norm(p);
    if (r.chance(50)) { static const char *d[] = { "", "/a", "/a/b/c", "/.h", "/d.x" }; if (chdir((root + d[r.below(5)]).c_str()) != 0) mon::broken("chdir"); check_object(p, r.chance(50)); mon::stat("obs.objects"); }
    if (p.find("..") != std::string::npos) mon::stat("obs.with_dotdot");
    mon::state(mon::Hash().add(p));
    if (mon::want_sample()) mon::sample("normalizePath(" + p + ") = " + FilePath::normalizePath(p));
  }
  for (unsigned i = 0; i < 5; ++i) check_env(r);
  for (unsigned i = 0; i < 5; ++i) check_real(r);
}
