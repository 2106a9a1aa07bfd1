// P22: hostile attribute tree text: terminates, stays in bounds, leaves a usable tree.
#include "mon.h"
#include <fstream>
#include "icl_core_config/AttributeTree.h"
using icl_core::config::AttributeTree;

namespace {
std::string dir;
void spit(const std::string& f, const std::string& t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; o.close(); if (!o) mon::broken("cannot write " + f); }
std::string token(mon::Rng& r)
{
  static const std::vector<std::string> t = {
    "a", "b.c", "x{", "}", "}x", "{", ":", ":v", "a:1", "a.b:2", "_COMMENT_{", "}_COMMENT_", "_COMMENT_:c", "_COMMENT_", "_COMMENT_{{", "_INCLUDE_:f0.at", "_INCLUDE_:f1.at",
    "_INCLUDE_:./sub/../f2.at", "_INCLUDE_", "_INCLUDE_:", "_INCLUDE_:${", "_INCLUDE_:${HOME}", "_INCLUDE_:${VERIF_SELF}", "_INCLUDE_:nothere", "_INCLUDE_:.", "_INCLUDE_{",
    "_ATTRIBUTE_TREE_FILE_PATH_:x", "_ATTRIBUTE_TREE_FILE_NAME_{", "a._ATTRIBUTE_TREE_FILE_PATH_:z", "#", "# c", "\r", "\t", " ", "", ".", "..", ".a:1", "a.:1", "a..b:1", "...:", ".{", "a.{",
    "\xff\xfe", "\x80", "\x80:\x81", " \xa0{", "a b c", "a:b:c", "a{b}:c", "}a:{", "a{b}", "garbage", "\x1b[0m", "%s%n", "a.b.c.d.e.f.g.h.i.j:deep" };
  return r.pick(t);
}
std::string hostile(mon::Rng& r)
{
  std::string s;
  unsigned style = unsigned(r.below(10));
  static const char *const nls[] = { "\n", "\r\n", "\n\n", "\r", "\n\r" };
  std::string nl = r.chance(70) ? "\n" : nls[r.below(5)];
  if (style == 0) { size_t n = r.below(600); for (size_t i = 0; i < n; ++i) s += char(r.below(256)); }
  else if (style == 1) { size_t n = r.below(600); for (size_t i = 0; i < n; ++i) s += "a{}:.#\n _"[r.below(9)]; }
  else if (style == 2)
  {
    // lines around the size of a line buffer and far above
    size_t n = 1 + r.below(4);
    for (size_t i = 0; i < n; ++i)
    {
      static const std::vector<size_t> len = { 1990, 1996, 1997, 1998, 1999, 2000, 2001, 4096, 20000, 100000 };
      size_t l = r.chance(70) ? r.pick(len) : 1900 + r.below(300);
      std::string lead = r.chance(50) ? token(r) : "";
      lead += std::string(l > lead.size() ? l - lead.size() : 0, r.chance(20) ? ' ' : r.chance(50) ? 'x' : char(1 + r.below(255)));
      s += lead + nl + token(r) + nl;
    }
  }
  else if (style == 3) { size_t n = 1 + r.below(r.chance(20) ? 1500 : 50); for (size_t i = 0; i < n; ++i) s += "n" + std::string(r.chance(30) ? ".m" : "") + "{" + nl; if (r.chance(50)) for (size_t i = 0; i < n + r.below(3); ++i) s += "}" + nl; }
  else if (style == 4) { size_t n = 1 + r.below(r.chance(10) ? 2000 : 100); for (size_t i = 0; i < n; ++i) s += "k" + std::to_string(r.below(1 + n)) + (r.chance(80) ? ":1" : "{") + nl; }
  else { size_t n = r.below(40); for (size_t i = 0; i < n; ++i) { s += token(r); if (r.chance(80)) s += nl; } }
  if (r.chance(30) && !s.empty()) s.resize(r.below(s.size() + 1));
  if (r.chance(15) && !s.empty()) s[r.below(s.size())] = 0;
  if (r.chance(15) && !s.empty()) s.insert(r.below(s.size()), s.substr(r.below(s.size()), 1 + r.below(300)));
  return s;
}
unsigned walk(AttributeTree *t, unsigned depth)
{
  unsigned n = 1;
  AttributeTree *prev = 0;
  for (AttributeTree *k = t->firstSubTree(); k; prev = k, k = t->nextSubTree(k))
  {
    MON_CHECK(k != prev, "walk", "a subtree follows itself");
    MON_CHECK(k->parentTree() == t, "parent", "a subtree has another parent");
    MON_CHECK(k->getDescription() != 0, "no-description", "a subtree read from a file has no description");
    n += walk(k, depth + 1);
    k->hasMultilineComment();
    k->isMultilineComment();
    if (n > 3000) break;
  }
  return n;
}
}

void mon::setup()
{
  if (!freopen("/dev/null", "w", stdout)) mon::broken("stdout");
  dir = mon::cfg().scratch + "/h/";
  mkdir(dir.c_str(), 0755);
  mkdir((dir + "sub").c_str(), 0755);
  setenv("VERIF_SELF", "${VERIF_SELF}", 1);
}
void mon::teardown() { }

void mon::run_case(uint64_t, Rng& r)
{
  for (unsigned rep = 0; rep < 6; ++rep)
  {
    unsigned files = 1 + unsigned(r.below(3));
    std::string main_text;
    size_t total = 0;
    for (unsigned i = 0; i < 3; ++i)
    {
      std::string f = dir + "f" + std::to_string(i) + ".at";
      unlink(f.c_str());
      if (i >= files) continue;
      std::string t = hostile(r);
      // includes that include each other are the point of several files
      if (files > 1 || r.chance(20))
        for (unsigned k = unsigned(r.below(4)); k > 0; --k)
        {
          std::string line = std::string("_INCLUDE_:") + (r.chance(50) ? "" : dir) + (r.chance(30) ? "sub/../" : "") + "f" + std::to_string(r.below(3)) + ".at\n";
          if (r.chance(70)) t = line + t; else t += (r.chance(50) ? "\n" : "") + line;
        }
      total += t.size();
      spit(f, t);
      if (i == 0) main_text = t;
    }
    bool unmark = r.chance(50), include = r.chance(70), comments = r.chance(50), order = r.chance(30), stream = r.chance(30);
    AttributeTree *t = new AttributeTree(r.chance(30) ? "root" : 0);
    AttributeTree *into = r.chance(20) ? t->setAttribute("deep.er", "1") : t;
    mon::phase("reading " + mon::q(main_text, 300));
    int rc;
    if (stream)
    {
      std::istringstream in(main_text);
      rc = into->get(in, include, comments);
      mon::stat(rc < 0 ? "obs.read" : "obs.refused");
      if (rc >= 0)
      {
        size_t lines = 1;
        for (size_t i = 0; i < main_text.size(); ++i) lines += main_text[i] == '\n';
        MON_CHECK(size_t(rc) <= lines + 2, "line-number", "error in line " << rc << " of a text with " << lines << " lines: " << mon::q(main_text, 1000));
      }
    }
    else
    {
      rc = into->load((dir + "f0.at").c_str(), unmark, include, comments, order);
      MON_CHECK(rc == AttributeTree::eOK || rc == AttributeTree::eFILE_LOAD_ERROR, "result", "load() returned " << rc);
      mon::stat(rc == AttributeTree::eOK ? "obs.read" : "obs.refused");
    }
    mon::phase("walking " + mon::q(main_text, 300));
    unsigned nodes = walk(t, 0);
    mon::stat_max("nodes", nodes);
    t->contains(); t->changed();
    static const char *const paths[] = { "a", "a.b", "a.b.c", "x", "n.n.n", "k1", "", ".", "..", "_COMMENT_", "a._ATTRIBUTE_TREE_FILE_PATH_", "deep.er" };
    for (unsigned i = 0; i < 12; ++i) { const char *v = t->getAttribute(paths[i], "d"); MON_CHECK(v != 0, "query", "no default for " << paths[i]); t->search(paths[i], 0); }
    t->getFilePath(); t->fileName();
    if (nodes <= 3000)
    {
      mon::phase("printing " + mon::q(main_text, 300));
      std::ostringstream os;
      t->printSubTree(os, int(r.below(6)) - 1);
      AttributeTree again;
      std::istringstream in(os.str());
      mon::phase("reading the printed text of " + mon::q(main_text, 300));
      again.get(in, false, comments);
      if (r.chance(30)) AttributeTree copy(*t);
    }
    mon::phase("deleting " + mon::q(main_text, 300));
    delete t;
    mon::stat("obs.files", files);
    mon::state(mon::Hash().add(stream).add(include).add(comments).add(unsigned(rc)).add(std::min(nodes, 60u)).add(std::min(total / 100, size_t(50))));
    if (mon::want_sample()) mon::sample("result " + std::to_string(rc) + ", " + std::to_string(nodes) + " nodes: " + mon::q(main_text, 300));
  }
}
