// P21: attribute trees written and read back, files with includes and free formatting.
#include "mon.h"
#include <fstream>
#include <functional>
#include <algorithm>
#include <sys/resource.h>
#include <signal.h>
#include "icl_core_config/AttributeTree.h"
using icl_core::config::AttributeTree;

namespace {

struct Node
{
  std::string name, val, comment;
  bool named, has_val, has_comment;
  std::vector<Node> kids;
  Node() : named(true), has_val(false), has_comment(false) { }
  bool printed(bool comments) const
  {
    if (has_val || (comments && has_comment)) return true;
    for (size_t i = 0; i < kids.size(); ++i) if (kids[i].printed(comments)) return true;
    return false;
  }
};

std::string gen_name(mon::Rng& r)
{
  static const std::vector<std::string> n = { "a", "b", "Pushbutton", "geometry", "x", "y", "1", "2", "10", "with space", "a#b", "\xc3\xa4\xc3\xb6", "x-y", "_x", "a=b", "[1]" };
  return r.chance(60) ? r.pick(n) : r.str("abcXYZ0189_-+*/\\|<>()[]=,;\"'!?$%&~^@\xe4", 1, 1 + r.below(12));
}
std::string gen_val(mon::Rng& r)
{
  static const std::vector<std::string> n = { "", "1", "135", "text", " lead", "trail ", "a:b", "x{", "}", "{}", "#no comment", ":", "::", "a.b.c", "_COMMENT_", "}_COMMENT_", "_INCLUDE_:x", "\t", "\xff\xfe" };
  if (r.chance(3)) return r.str("abc :{}.", 1900, 6000);
  if (r.chance(20)) { std::string s; size_t m = r.below(30); for (size_t i = 0; i < m; ++i) { char c = char(1 + r.below(255)); if (c != '\n' && c != '\r') s += c; } return s; }
  return r.pick(n);
}
std::string gen_comment(mon::Rng& r)
{
  static const std::vector<std::string> one = { "c", "a comment", "a: b", "x{", "}", "# c", "", "see a.b" };
  std::string s = r.pick(one);
  if (r.chance(50)) { unsigned n = 1 + unsigned(r.below(4)); for (unsigned i = 0; i < n; ++i) s += "\n" + r.pick(one); }
  return s;
}
void gen(mon::Rng& r, Node& n, unsigned depth, unsigned& budget, bool comments)
{
  if (r.chance(depth ? 65 : 40)) { n.has_val = true; n.val = gen_val(r); }
  if (comments && r.chance(20)) { n.has_comment = true; n.comment = gen_comment(r); }
  if (depth >= 6) return;
  size_t k = r.below(depth == 0 ? 6 : 4);
  std::set<std::string> used;
  for (size_t i = 0; i < k && budget; ++i)
  {
    Node c; c.name = gen_name(r);
    if (c.name[0] == '#' || !used.insert(c.name).second) continue;
    --budget;
    gen(r, c, depth + 1, budget, comments);
    n.kids.push_back(c);
  }
}
// Builds the real tree so that its children are in the order of the model.
void build(const Node& n, AttributeTree *t)
{
  if (n.has_val) t->setAttribute(n.val.c_str());
  for (size_t i = n.kids.size(); i-- > 0; )
    build(n.kids[i], new AttributeTree(n.kids[i].name.c_str(), t));
  if (n.has_comment) t->setComment(n.comment.c_str());      // becomes the first subtree
}
std::string qz(const char *p) { return p ? mon::q(p, 120) : "NULL"; }

// The subtrees a user put there (no virtual attributes).
std::vector<AttributeTree *> real_kids(AttributeTree *t)
{
  std::vector<AttributeTree *> v;
  for (AttributeTree *k = t->firstSubTree(); k; k = t->nextSubTree(k))
    if (std::string(k->getDescription() ? k->getDescription() : "").compare(0, 16, "_ATTRIBUTE_TREE_") != 0) v.push_back(k);
  return v;
}
enum Order { same, reverse, any };
void compare(const Node& n, AttributeTree *t, bool comments, Order order, const std::string& path, const std::string& file)
{
  const char *a = t->attribute();
  MON_CHECK((a != 0) == n.has_val && (!a || n.val == a), "value", "value of " << mon::q(path) << " is " << qz(a) << " instead of " << (n.has_val ? mon::q(n.val, 120) : "NULL") << " from: " << mon::q(file, 1500));
  std::vector<const Node *> want;
  for (size_t i = 0; i < n.kids.size(); ++i) if (n.kids[i].printed(comments)) want.push_back(&n.kids[i]);
  std::vector<AttributeTree *> got = real_kids(t), kids;
  unsigned nc = 0;
  for (size_t i = 0; i < got.size(); ++i) if (std::string(got[i]->getDescription()) == "_COMMENT_") ++nc; else kids.push_back(got[i]);
  bool want_comment = comments && n.has_comment;
  MON_CHECK(nc == (want_comment ? 1u : 0u), "comment", nc << " comments of " << mon::q(path) << " from: " << mon::q(file, 1500));
  if (want_comment) MON_CHECK(n.comment == t->comment(), "comment", "comment of " << mon::q(path) << " is " << qz(t->comment()) << " instead of " << mon::q(n.comment) << " from: " << mon::q(file, 1500));
  MON_CHECK(kids.size() == want.size(), "children", mon::q(path) << " has " << kids.size() << " subtrees instead of " << want.size() << " from: " << mon::q(file, 1500));
  if (order == reverse) std::reverse(kids.begin(), kids.end());
  for (size_t i = 0; i < want.size(); ++i)
  {
    AttributeTree *k = 0;
    if (order == any) { for (size_t j = 0; j < kids.size(); ++j) if (want[i]->name == kids[j]->getDescription()) k = kids[j]; }
    else k = kids[i];
    MON_CHECK(k && want[i]->name == k->getDescription(), "children", "subtree " << i << " of " << mon::q(path) << " is " << (k ? qz(k->getDescription()) : "missing") << " instead of " << mon::q(want[i]->name) << " from: " << mon::q(file, 1500));
    compare(*want[i], k, comments, order, path + "." + want[i]->name, file);
  }
}
std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
void spit(const std::string& f, const std::string& t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; o.close(); if (!o) mon::broken("cannot write " + f); }
unsigned depth_of(const Node& n) { unsigned d = 0; for (size_t i = 0; i < n.kids.size(); ++i) d = std::max(d, 1 + depth_of(n.kids[i])); return d; }
unsigned count(const Node& n) { unsigned d = n.has_val; for (size_t i = 0; i < n.kids.size(); ++i) d += count(n.kids[i]); return d; }

// Nodes without value and subtrees may or may not be written: they are not compared.
void prune(AttributeTree *t)
{
  std::vector<AttributeTree *> k = real_kids(t);
  for (size_t i = 0; i < k.size(); ++i) { prune(k[i]); if (!k[i]->attribute() && !k[i]->firstSubTree()) delete k[i]; }
}
void round_trip(mon::Rng& r)
{
  Node root; unsigned budget = 1 + unsigned(r.below(r.chance(20) ? 60 : 12));
  bool comments = r.chance(50);
  gen(r, root, 0, budget, comments);
  root.named = r.chance(50);
  if (root.named) { root.name = gen_name(r); if (root.name[0] == '#') root.name = "root"; }
  AttributeTree t(root.named ? root.name.c_str() : 0);
  build(root, &t);
  int style = r.chance(40) ? 3 : int(r.below(12)) - 1;
  std::string how = "style " + std::to_string(style);
  mon::phase("round trip, " + how);
  std::string file = mon::cfg().scratch + "/tree.at", text;
  bool by_file = r.chance(50);
  if (by_file)
  {
    bool keep = r.chance(30), was = t.changed();
    int rc = t.save(file.c_str(), style, !keep);
    MON_CHECK(rc == AttributeTree::eOK, "save", "save() returned " << rc);
    MON_CHECK(t.changed() == (keep && was), "save-changed", "changed() is " << t.changed() << " after saving");
    text = slurp(file);
    std::ostringstream os; t.printSubTree(os, style, "");
    MON_CHECK(os.str() == text, "save", "saved file " << mon::q(text) << " differs from the printed tree " << mon::q(os.str()));
  }
  else { std::ostringstream os; t.printSubTree(os, style); text = os.str(); }
  bool load_comments = r.chance(70), preserve = r.chance(50);
  AttributeTree l;
  if (by_file)
  {
    bool unmark = r.chance(70);
    int rc = l.load(file.c_str(), unmark, r.chance(50), load_comments, preserve);
    MON_CHECK(rc == AttributeTree::eOK, "load", "load() returned " << rc << " for " << mon::q(text, 1500));
    MON_CHECK(l.changed() == !unmark, "load-changed", "changed() is " << l.changed() << " after loading");
    MON_CHECK(l.getFilePath() == mon::cfg().scratch + "/" && std::string(l.fileName()) == "tree.at", "load-path", "file path " << qz(l.getFilePath()) << ", name " << qz(l.fileName()));
  }
  else
  {
    std::istringstream is(text);
    int rc = l.get(is, r.chance(50), load_comments);
    MON_CHECK(rc < 0, "load", "get() failed in line " << rc << " of " << mon::q(text, 1500));
    if (preserve) l.revertOrder();
  }
  Node want;
  AttributeTree *lt = &l;
  if (root.named)
  {
    want.named = false;
    if (root.printed(load_comments)) want.kids.push_back(root);
    if (root.printed(load_comments)) { lt = l.getSubTree(root.name.c_str()); MON_CHECK(lt != 0, "children", "no node " << mon::q(root.name) << " from: " << mon::q(text)); }
  }
  else want = root;
  std::ostringstream again;
  lt->printSubTree(again, style);
  prune(&l);
  compare(want, &l, load_comments, preserve ? same : reverse, "", text);
  // once more: the same text again
  bool no_comments = !comments;
  // (the virtual attributes of a loaded file count for the layout of an unnamed root)
  if (preserve && (load_comments || no_comments) && root.printed(load_comments) && (root.named || !by_file))
  {
    MON_CHECK(again.str() == text, "rewrite", "written again, style " << style << ": " << mon::q(again.str(), 1500) << " instead of " << mon::q(text, 1500));
    mon::stat("obs.rewritten");
  }
  mon::stat("obs.round_trips");
  if (comments) mon::stat("obs.with_comments");
  mon::Hash h; h.add(unsigned(style)).add(comments).add(load_comments).add(preserve).add(root.named).add(by_file).add(std::min(depth_of(root), 7u)).add(std::min(count(root), 40u)).add(root.has_val);
  mon::state(h);
  if (mon::want_sample()) mon::sample("style " + std::to_string(style) + ": " + text);
}

// ------------------------------------------------------- hand-written files
// Writes the tree in some layout of the format's freedom; pieces may go to files that are included.
struct Writer
{
  mon::Rng& r; std::string nl; unsigned files; unsigned includes; bool comments; unsigned written_comments;
  Writer(mon::Rng& r_, bool comments_) : r(r_), nl(r_.chance(20) && !comments_ ? "\r\n" : "\n"), files(0), includes(0), comments(comments_), written_comments(0) { }
  std::string noise()
  {
    std::string s;
    while (r.chance(15))
      switch (r.below(5))
      {
      case 2: case 3: if (comments) break; // comments belong to the tree then
        if (r.chance(50)) s += "_COMMENT_:one line" + nl;
        else s += "_COMMENT_{" + nl + " a:wrong" + nl + "b{" + nl + "}" + nl + "" + nl + "  }_COMMENT_" + nl;
        break;
      case 0: s += nl; break;
      case 1: s += "   # a:comment { }" + nl; break;
      default: s += " \t " + nl;
      }
    return s;
  }
  std::string indent() { return r.str(" \t", 0, 5); }
  // A comment of the current node, in one of its two notations.
  std::string comment(const std::string& c)
  {
    ++written_comments;
    if (c.find('\n') == std::string::npos && r.chance(50)) return indent() + "_COMMENT_:" + c + nl;
    std::string s = indent() + "_COMMENT_{" + nl, line;
    std::istringstream is(c + "\n");
    while (std::getline(is, line)) s += indent() + line + r.str(" \t", 0, 3) + nl;
    return s + indent() + "}_COMMENT_" + nl;
  }
  std::string body(Node& n, const std::string& dir, const std::string& root_dir)
  {
    std::string s;
    if (n.has_comment && r.chance(50)) s += comment(n.comment);
    const bool commented = !s.empty();
    std::vector<size_t> order;
    for (size_t i = 0; i < n.kids.size(); ++i) order.push_back(i);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    for (size_t i = 0; i < order.size(); ++i)
    {
      s += noise();
      Node& k = n.kids[order[i]];
      if (r.chance(15) && k.kids.size() <= 30 && includes < 8)
      {
        // the whole node in a file of its own
        ++includes;
        const std::string var = "VERIF_P21_" + std::to_string(files);
        std::string name = "inc" + std::to_string(files++) + ".at", sub = r.chance(40) ? "sub/" : "";
        std::string fdir = r.chance(50) ? dir : root_dir;
        std::string here = fdir + sub;
        mkdir(here.c_str(), 0755);
        Node holder; holder.kids.push_back(k);
        spit(here + name, body(holder, here, root_dir));
        k = holder.kids[0];
        std::string ref;
        if (fdir == dir && r.chance(60)) ref = (r.chance(30) ? "./" : "") + sub + name;
        else if (r.chance(50)) ref = here + name;
        else
        {
          // directory separators of another system may come from the environment, too
          if (r.chance(30)) { std::replace(here.begin(), here.end(), '/', '\\'); mon::stat("obs.other_separators"); }
          setenv(var.c_str(), here.c_str(), 1); ref = "${" + var + "}/./" + name;
        }
        if (r.chance(10)) std::replace(ref.begin(), ref.end(), '/', '\\');
        s += indent() + "_INCLUDE_:" + ref + nl;
        continue;
      }
      s += node(k, k.name, dir, root_dir);
    }
    if (n.has_comment && !commented) s += comment(n.comment);
    return s;
  }
  std::string node(Node& k, const std::string& path, const std::string& dir, const std::string& root_dir)
  {
    std::string s;
    if (path == k.name && r.chance(50))
    {
      s += indent() + path + "{" + (r.chance(20) ? " " : "") + nl;
      if (k.has_val && r.chance(50)) { s += indent() + ":" + k.val + nl; s += body(k, dir, root_dir); }
      else { s += body(k, dir, root_dir); if (k.has_val) s += indent() + ":" + k.val + nl; }
      s += indent() + "}" + (r.chance(50) ? path : "") + nl;
      return s;
    }
    if (k.has_val) s += indent() + path + ":" + k.val + nl;
    if (k.has_comment)
    {
      // only one line is possible in this notation
      k.comment = k.comment.substr(0, k.comment.find('\n'));
      s += indent() + path + "._COMMENT_:" + k.comment + nl;
      ++written_comments;
    }
    for (size_t i = 0; i < k.kids.size(); ++i) s += noise() + node(k.kids[i], path + "." + k.kids[i].name, dir, root_dir);
    return s;
  }
};
void merge(Node& into, const Node& n)
{
  if (n.has_val) { into.has_val = true; into.val = n.val; }
  if (n.has_comment) { into.has_comment = true; into.comment = n.comment; }
  for (size_t i = 0; i < n.kids.size(); ++i)
  {
    size_t j = 0;
    while (j < into.kids.size() && into.kids[j].name != n.kids[i].name) ++j;
    if (j == into.kids.size()) into.kids.push_back(n.kids[i]); else merge(into.kids[j], n.kids[i]);
  }
}
void strip_comments(Node& n)
{
  n.has_comment = false;
  for (size_t i = 0; i < n.kids.size(); ++i) strip_comments(n.kids[i]);
}
void free_format(mon::Rng& r)
{
  Node root, before; unsigned budget = 1 + unsigned(r.below(r.chance(20) ? 60 : 14));
  const bool comments = r.chance(40), load_comments = comments && r.chance(75);
  gen(r, root, 0, budget, comments);
  bool preloaded = r.chance(40);
  if (preloaded) { unsigned b2 = 8; gen(r, before, 0, b2, false); if (root.kids.size() && r.chance(60)) { before.kids.clear(); before.kids.push_back(root.kids[0]); strip_comments(before); } }
  std::string dir = mon::cfg().scratch + "/ff/";
  mkdir(dir.c_str(), 0755);
  Writer wr(r, comments);
  std::string text = wr.body(root, dir, dir);
  if (root.has_val) text = (r.chance(50) ? ":" + root.val + wr.nl + text : text + ":" + root.val + wr.nl);
  bool cut = r.chance(30) && !text.empty() && wr.nl == "\n";
  if (cut) text.erase(text.size() - 1);
  spit(dir + "main.at", text);
  mon::phase("free format");
  AttributeTree t;
  build(before, &t);
  int rc;
  unsigned how = unsigned(r.below(3));
  if (how == 0) rc = t.load((dir + "main.at").c_str(), r.chance(50), true, load_comments);
  else if (how == 1)
  {
    if (chdir(dir.c_str()) != 0) mon::broken("chdir");
    rc = t.load("main.at", r.chance(50), true, load_comments);
    if (chdir(mon::cfg().scratch.c_str()) != 0) mon::broken("chdir");
  }
  else
  {
    std::ifstream in((dir + "main.at").c_str());
    icl_core::config::FilePath fp((dir + "main.at").c_str());
    rc = t.get(in, true, load_comments, &fp) < 0 ? 0 : 1;
  }
  MON_CHECK(rc == AttributeTree::eOK, "load", "reading failed for " << mon::q(text, 1500));
  Node want = before;
  merge(want, root);
  prune(&t);
  compare(want, &t, load_comments, any, "", text);
  mon::stat("obs.free_format");
  if (load_comments) mon::stat("obs.hand_written_comments", wr.written_comments);
  mon::stat("obs.includes", wr.includes);
  mon::Hash h; h.add(100).add(wr.includes).add(preloaded).add(cut).add(how).add(wr.nl).add(std::min(depth_of(root), 7u)).add(std::min(count(root), 40u));
  mon::state(h);
  if (system(("rm -rf " + dir).c_str()) != 0) mon::broken("cleanup");
}

void faults(mon::Rng& r)
{
  Node root; unsigned budget = 30;
  gen(r, root, 0, budget, false);
  root.has_val = true;
  AttributeTree t("root");
  build(root, &t);
  t.setAttribute("some.value", "1");
  std::ostringstream os; t.printSubTree(os, 3, "");
  const std::string full = os.str();
  unsigned kind = unsigned(r.below(4));
  int rc; std::string what;
  if (kind == 0) { what = "full device"; rc = t.save("/dev/full"); }
  else if (kind == 1) { what = "missing directory"; rc = t.save((mon::cfg().scratch + "/no/such/file").c_str()); }
  else if (kind == 2)
  {
    what = "file size limit";
    struct rlimit old, l; getrlimit(RLIMIT_FSIZE, &old);
    l = old; l.rlim_cur = r.below(full.size());
    signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &l);
    rc = t.save((mon::cfg().scratch + "/limited.at").c_str());
    setrlimit(RLIMIT_FSIZE, &old);
  }
  else
  {
    what = "missing file";
    AttributeTree l; l.setAttribute("a.b", "1");
    rc = l.load((mon::cfg().scratch + "/no/such/file").c_str());
    MON_CHECK(rc == AttributeTree::eFILE_LOAD_ERROR, "load-missing", "loading a missing file returned " << rc);
    MON_CHECK(l.isAttribute("a.b", "1"), "load-missing", "loading a missing file changed the tree");
    if (r.chance(60))
    {
      // the file appears later
      const std::string late = mon::cfg().scratch + "/late.at";
      unlink(late.c_str());
      rc = l.load(late.c_str());
      MON_CHECK(rc == AttributeTree::eFILE_LOAD_ERROR, "load-missing", "loading a missing file returned " << rc);
      spit(late, "a.late:" + std::to_string(r.below(100)) + "\n");
      rc = l.load(late.c_str());
      MON_CHECK(rc == AttributeTree::eOK, "load-late", "loading a file that was missing at the first attempt returned " << rc);
      MON_CHECK(l.getSubTree("a") && l.getAttribute("a.late", 0) && l.isAttribute("a.b", "1"), "load-late", "the file that was missing at first was not read");
      mon::stat("obs.late_files");
    }
    rc = l.load(0); MON_CHECK(rc == AttributeTree::eFILE_LOAD_ERROR, "load-missing", "load(NULL) returned " << rc);
    mon::stat("obs.faults"); mon::state(mon::Hash().add(203));
    return;
  }
  MON_CHECK(rc == AttributeTree::eFILE_SAVE_ERROR, "save-fault", "save() returned " << rc << " in spite of " << what);
  MON_CHECK(t.changed(), "save-fault", "save() with " << what << " cleared the change flags");
  mon::stat("obs.faults");
  mon::state(mon::Hash().add(200 + kind).add(std::min(full.size() / 64, size_t(40))));
}

} // namespace

void mon::setup()
{
  // the code under test reports to stdout
  if (!freopen("/dev/null", "w", stdout)) mon::broken("stdout");
}
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  for (unsigned i = 0; i < 6; ++i) round_trip(r);
  for (unsigned i = 0; i < 3; ++i) free_format(r);
  faults(r);
}
