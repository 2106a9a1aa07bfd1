// P20: AttributeTree against a plain model of named nodes; every allocation made by it is accounted for.
#include "mon.h"
#include <sanitizer/allocator_interface.h>
#include "icl_core_config/AttributeTree.h"
using icl_core::config::AttributeTree;

namespace {

thread_local int in_real = 0;
long live = 0;            // blocks allocated by the code under test and not yet freed
std::unordered_set<const volatile void *> *blocks = 0;
void on_malloc(const volatile void *p, size_t) { if (in_real == 1) { in_real = 2; blocks->insert(p); in_real = 1; } }
void on_free(const volatile void *p) { if (in_real == 1) { in_real = 2; blocks->erase(p); in_real = 1; } }
struct Real { Real() { in_real = 1; } ~Real() { in_real = 0; } };
template <class F> auto real(F f) -> decltype(f()) { Real r; return f(); }

const char *PATH_STR = "_ATTRIBUTE_TREE_FILE_PATH_";
const char *NAME_STR = "_ATTRIBUTE_TREE_FILE_NAME_";

struct Node
{
  bool has_name; std::string name;
  bool has_val; std::string val;
  bool changed;
  Node *parent;
  std::vector<Node *> kids;
  AttributeTree *r;
  Node() : has_name(false), has_val(false), changed(false), parent(0), r(0) { }
  ~Node() { for (size_t i = 0; i < kids.size(); ++i) delete kids[i]; }
};

struct World
{
  std::vector<Node *> roots;
  std::vector<std::string> trace;
  ~World() { for (size_t i = 0; i < roots.size(); ++i) delete roots[i]; }
} *w;

Node *kid(Node *n, const std::string& name)
{
  for (size_t i = 0; i < n->kids.size(); ++i) if (n->kids[i]->has_name && n->kids[i]->name == name) return n->kids[i];
  return 0;
}
Node *add_front(Node *parent, const std::string *name)
{
  Node *n = new Node();
  if (name) { n->has_name = true; n->name = *name; }
  n->parent = parent;
  parent->kids.insert(parent->kids.begin(), n);
  parent->changed = true;
  return n;
}
std::vector<std::string> parts(const std::string& p)
{
  std::vector<std::string> v(1);
  for (size_t i = 0; i < p.size(); ++i) if (p[i] == '.') v.push_back(""); else v.back() += p[i];
  return v;
}
void set_val(Node *n, const std::string *v)
{
  if (!v) { n->has_val = false; n->val.clear(); n->changed = true; return; }
  if (!n->has_val || n->val != *v) { n->has_val = true; n->val = *v; n->changed = true; }
}
Node *set_path(Node *n, const std::string& path, const std::string *v)
{
  std::vector<std::string> p = parts(path);
  for (size_t i = 0; i < p.size(); ++i) { Node *k = kid(n, p[i]); n = k ? k : add_front(n, &p[i]); }
  if (v) set_val(n, v);
  return n;
}
bool ends(const std::string& s, const char *t) { size_t n = strlen(t); return s.size() >= n && s.compare(s.size() - n, n, t) == 0; }
Node *get_path(Node *n, const std::string& path)
{
  const char *special = ends(path, PATH_STR) ? PATH_STR : ends(path, NAME_STR) ? NAME_STR : 0;
  if (special)
    for (Node *u = n; u; u = u->parent)
      if (Node *k = kid(u, special)) { if (k->has_val) return k; break; }
  std::vector<std::string> p = parts(path);
  for (size_t i = 0; i < p.size() && n; ++i) n = kid(n, p[i]);
  return n && n->has_val ? n : 0;
}
int count(Node *n) { int c = n->has_val; for (size_t i = 0; i < n->kids.size(); ++i) c += count(n->kids[i]); return c; }
bool changed(Node *n) { if (n->changed) return true; for (size_t i = 0; i < n->kids.size(); ++i) if (changed(n->kids[i])) return true; return false; }
void unmark(Node *n) { n->changed = false; for (size_t i = 0; i < n->kids.size(); ++i) unmark(n->kids[i]); }
void revert(Node *n) { std::vector<Node *> k(n->kids.rbegin(), n->kids.rend()); n->kids = k; for (size_t i = 0; i < k.size(); ++i) revert(k[i]); }
Node *search(Node *n, const std::string& d, const std::string *a)
{
  if (n->has_name && n->name == d && (!a || (n->has_val && n->val == *a))) return n;
  for (size_t i = 0; i < n->kids.size(); ++i) if (Node *f = search(n->kids[i], d, a)) return f;
  return 0;
}
Node *comment_node(Node *n)
{
  for (size_t i = 0; i < n->kids.size(); ++i)
    if (n->kids[i]->has_name && n->kids[i]->name == "_COMMENT_" && n->kids[i]->has_val) return n->kids[i];
  return 0;
}
Node *copy_of(Node *n)      // of the model; the real pointers are attached by adopt()
{
  Node *c = new Node();
  c->has_name = n->has_name; c->name = n->name; c->has_val = n->has_val; c->val = n->val;
  for (size_t i = 0; i < n->kids.size(); ++i) { Node *k = copy_of(n->kids[i]); k->parent = c; c->kids.push_back(k); }
  // building the copy adds its subtrees one by one, which is a change of its nodes
  c->changed = !c->kids.empty();
  return c;
}
std::string text()
{
  std::string s; size_t from = w->trace.size() > 25 ? w->trace.size() - 25 : 0;
  for (size_t i = from; i < w->trace.size(); ++i) s += w->trace[i] + "; ";
  return s;
}
std::string qz(const char *p) { return p ? mon::q(p) : "NULL"; }

// Takes over the pointers of nodes the model has just created.
void adopt(Node *n, AttributeTree *r)
{
  n->r = r;
  AttributeTree *k = r->firstSubTree();
  for (size_t i = 0; i < n->kids.size(); ++i)
  {
    MON_CHECK(k != 0, "missing-child", "child " << i << " of " << mon::q(n->name) << " is missing after: " << text());
    adopt(n->kids[i], k);
    k = r->nextSubTree(k);
  }
  MON_CHECK(k == 0, "extra-child", "node " << mon::q(n->name) << " has more children than the model after: " << text());
}
void compare(Node *n, Node *root, unsigned depth, mon::Hash& h)
{
  AttributeTree *r = n->r;
  h.add(depth * 4 + n->has_val * 2 + n->has_name).add(n->kids.size());
  const char *d = r->getDescription(), *a = r->attribute();
  MON_CHECK((d != 0) == n->has_name && (!d || n->name == d), "description", "description " << qz(d) << " instead of " << mon::q(n->name) << " after: " << text());
  MON_CHECK((a != 0) == n->has_val && (!a || n->val == a), "attribute", "attribute of " << qz(d) << " is " << qz(a) << " instead of " << (n->has_val ? mon::q(n->val) : "NULL") << " after: " << text());
  MON_CHECK(r->getAttribute() == a, "attribute", "getAttribute() differs from attribute()");
  MON_CHECK(r->parentTree() == (n->parent ? n->parent->r : 0) && r->parent() == r->parentTree(), "parent", "parent of " << qz(d) << " is wrong after: " << text());
  MON_CHECK(real([&] { return r->root(); }) == root->r, "root", "root of " << qz(d) << " is wrong after: " << text());
  int c = real([&] { return r->contains(); });
  MON_CHECK(c == count(n), "contains", "contains() of " << qz(d) << " is " << c << " instead of " << count(n) << " after: " << text());
  bool ch = real([&] { return r->changed(); });
  // what a copy or a load leaves marked is not specified, everything else is
  MON_CHECK(ch == changed(n), "changed", "changed() of " << qz(d) << " is " << ch << " after: " << text());
  Node *cn = comment_node(n);
  const char *cm = real([&] { return r->comment(); });
  MON_CHECK(cm && std::string(cm) == (cn ? cn->val : ""), "comment", "comment() of " << qz(d) << " is " << qz(cm) << " after: " << text());
  MON_CHECK(real([&] { return r->hasComment(); }) == (cn != 0), "comment", "hasComment() of " << qz(d) << " after: " << text());
  MON_CHECK(real([&] { return r->commentAttributeTree(); }) == (cn ? cn->r : 0), "comment", "commentAttributeTree() of " << qz(d) << " after: " << text());
  MON_CHECK(real([&] { return r->hasMultilineComment(); }) == (cn && cn->val.find('\n') != std::string::npos), "comment", "hasMultilineComment() of " << qz(d) << " after: " << text());
  bool is_c = n->has_name && n->name == "_COMMENT_";
  MON_CHECK(real([&] { return r->isComment(); }) == is_c, "comment", "isComment() of " << qz(d) << " after: " << text());
  MON_CHECK(real([&] { return r->isMultilineComment(); }) == (is_c && n->has_val && n->val.find('\n') != std::string::npos), "comment", "isMultilineComment() of " << qz(d) << " after: " << text());
  AttributeTree *k = real([&] { return r->firstSubTree(); });
  for (size_t i = 0; i < n->kids.size(); ++i)
  {
    MON_CHECK(k == n->kids[i]->r, "children", "child " << i << " of " << qz(d) << " is " << (k ? qz(k->getDescription()) : "none") << " instead of " << mon::q(n->kids[i]->name) << " after: " << text());
    compare(n->kids[i], root, depth + 1, h);
    k = real([&] { return r->nextSubTree(k); });
  }
  MON_CHECK(k == 0, "children", "node " << qz(d) << " has more children than the model after: " << text());
}
void all(Node *n, std::vector<Node *>& v) { v.push_back(n); for (size_t i = 0; i < n->kids.size(); ++i) all(n->kids[i], v); }
Node *root_of(Node *n) { while (n->parent) n = n->parent; return n; }
void detach(Node *n)
{
  if (!n->parent) return;
  std::vector<Node *>& k = n->parent->kids;
  for (size_t i = 0; i < k.size(); ++i) if (k[i] == n) { k.erase(k.begin() + long(i)); break; }
  n->parent->changed = true;
  n->parent = 0;
}
void drop_root(Node *n) { for (size_t i = 0; i < w->roots.size(); ++i) if (w->roots[i] == n) { w->roots.erase(w->roots.begin() + long(i)); return; } }

std::string gen_name(mon::Rng& r)
{
  static const std::vector<std::string> n = { "a", "b", "c", "n1", "n2", "n9", "n10", "n99", "7", "07", "9", "x-5", "x 7", "n99999", "n100000", "n100001", "n999999999",
                                              "1234567890123", "_COMMENT_", "geometry", "Pushbutton", "\xc3\xa4", "_ATTRIBUTE_TREE_FILE_PATH_", "_ATTRIBUTE_TREE_FILE_NAME_", "_INCLUDE_", " ", "0x1", "n" };
  return r.chance(60) ? n[r.below(8)] : r.pick(n);
}
std::string gen_val(mon::Rng& r)
{
  static const std::vector<std::string> n = { "", "1", "135", "text", "line\nnext", "a.b:c{d}", " ", "1" };
  if (r.chance(3)) return std::string(200 + r.below(r.chance(20) ? 5000 : 200), 'v') + r.str("ab", 0, 3);
  return r.chance(15) ? r.str("ab\n.:", 0, 60) : r.pick(n);
}
std::string gen_path(mon::Rng& r)
{
  std::string p = gen_name(r);
  while (r.chance(45)) p += "." + gen_name(r);
  return p;
}
// the name with its trailing number (at most 9 digits) cut off
std::string stem(const std::string& s) { size_t i = s.size(); while (i > 0 && isdigit((unsigned char)s[i - 1])) --i; return s.substr(0, i); }
void check_new_name(Node *parent, const std::string& base, const char *got)
{
  MON_CHECK(got != 0, "new-name", "no new description for " << mon::q(base));
  std::string g = got;
  MON_CHECK(!kid(parent, g), "new-name", "the new description " << mon::q(g) << " for " << mon::q(base) << " is in use already, after: " << text());
  MON_CHECK(stem(g) == stem(base) && stem(g).size() < g.size(), "new-name", "the new description " << mon::q(g) << " is not " << mon::q(base) << " with a number, after: " << text());
}

} // namespace

void mon::setup()
{
  blocks = new std::unordered_set<const volatile void *>();
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
}
void mon::teardown() { }

void mon::run_case(uint64_t, Rng& r)
{
  delete w; w = new World();
  blocks->clear();
  size_t ops = 15 + r.below(60);
  for (size_t o = 0; o < ops; ++o)
  {
    std::vector<Node *> v;
    for (size_t i = 0; i < w->roots.size(); ++i) all(w->roots[i], v);
    unsigned k = unsigned(r.below(100));
    mon::stat("ops");
    if (v.empty() || k < 4)
    {
      Node *n = new Node();
      n->has_name = r.chance(60);
      if (n->has_name) n->name = gen_name(r);
      w->trace.push_back("new root " + (n->has_name ? mon::q(n->name) : "NULL"));
      mon::phase(w->trace.back());
      n->r = real([&] { return n->has_name ? new AttributeTree(n->name.c_str()) : new AttributeTree(); });
      w->roots.push_back(n);
      v.push_back(n);
    }
    Node *n = v[r.below(v.size())];
    std::string at = "on " + mon::q(n->name) + ": ";
    // NB: arguments are copied before the operation, the trace is written before it
    if (k < 30)
    {
      std::string path = gen_path(r), val = gen_val(r);
      bool null = r.chance(15);
      w->trace.push_back(at + "setAttribute(" + mon::q(path) + ", " + (null ? "NULL" : mon::q(val)) + ")");
      mon::phase(w->trace.back());
      AttributeTree *got = real([&] { return n->r->setAttribute(path.c_str(), null ? (const char *)0 : val.c_str()); });
      Node *m = set_path(n, path, null ? 0 : &val);
      if (!n->r) mon::broken("model");
      adopt(root_of(n), root_of(n)->r);
      MON_CHECK(got == m->r, "set-result", "setAttribute() returned another node after: " << text());
    }
    else if (k < 36)
    {
      std::string val = gen_val(r); bool null = r.chance(20);
      w->trace.push_back(at + "setAttribute(" + (null ? "NULL" : mon::q(val)) + ")");
      mon::phase(w->trace.back());
      real([&] { n->r->setAttribute(null ? (const char *)0 : val.c_str()); return 0; });
      set_val(n, null ? 0 : &val);
    }
    else if (k < 41)
    {
      std::string name = gen_name(r); bool null = r.chance(10);
      w->trace.push_back(at + "new child " + (null ? "NULL" : mon::q(name)));
      mon::phase(w->trace.back());
      Node *c = add_front(n, null ? 0 : &name);
      c->r = real([&] { return new AttributeTree(null ? (const char *)0 : name.c_str(), n->r); });
    }
    else if (k < 45)
    {
      std::string name = gen_name(r);
      w->trace.push_back(at + "subTree(" + mon::q(name) + ")");
      mon::phase(w->trace.back());
      Node *c = kid(n, name);
      MON_CHECK(real([&] { return n->r->getSubTree(name.c_str()); }) == (c ? c->r : 0), "getSubTree", "getSubTree(" << mon::q(name) << ") is wrong after: " << text());
      AttributeTree *got = real([&] { return n->r->subTree(name.c_str()); });
      if (c) MON_CHECK(got == c->r, "subTree", "subTree() returned another node after: " << text());
      else { c = add_front(n, &name); c->r = got; }
    }
    else if (k < 49)
    {
      std::string base = r.chance(30) ? "" : gen_name(r);
      if (r.chance(50) && !n->kids.empty()) base = n->kids[r.below(n->kids.size())]->name;
      if (r.chance(15)) base += r.str("0123456789", 1, 14);
      if (o < 3 && r.chance(7))
      {
        // very many new names, in a tree of their own
        size_t many = 990 + r.below(60);
        w->trace.push_back(std::to_string(many) + " times addNewSubTree() on a new tree");
        mon::phase(w->trace.back());
        AttributeTree *big = real([&] { return new AttributeTree(); });
        std::set<std::string> names;
        for (size_t i = 0; i < many; ++i)
        {
          AttributeTree *t = real([&] { return big->addNewSubTree(); });
          MON_CHECK(t && t->getDescription(), "new-name", "addNewSubTree() gave nothing after: " << text());
          MON_CHECK(names.insert(t->getDescription()).second, "new-name", "addNewSubTree() gave the name " << mon::q(t->getDescription()) << " again, after: " << text());
          MON_CHECK(real([&] { return big->getSubTree(t->getDescription()); }) == t, "new-name", "the subtree added last is not found after: " << text());
        }
        real([&] { delete big; return 0; });
        mon::stat("obs.many_names");
      }
      w->trace.push_back(at + "newSubNodeDescription(" + mon::q(base) + ")");
      mon::phase(w->trace.back());
      char *heap_base = strdup(base.c_str());
      char *got = real([&] { return n->r->newSubNodeDescription(heap_base); });
      check_new_name(n, base, got);
      real([&] { free(got); return 0; });
      free(heap_base);
      if (r.chance(50))
      {
        w->trace.push_back(at + "addNewSubTree()");
        mon::phase(w->trace.back());
        AttributeTree *t = real([&] { return n->r->addNewSubTree(); });
        MON_CHECK(t && t->getDescription(), "new-name", "addNewSubTree() gave nothing after: " << text());
        std::string name = t->getDescription();
        check_new_name(n, "", name.c_str());
        add_front(n, &name)->r = t;
      }
      mon::stat("obs.new_names");
    }
    else if (k < 60)
    {
      // attach a detached tree, below n or next to n
      Node *d = w->roots[r.below(w->roots.size())];
      bool next = r.chance(40);
      Node *parent = next ? n->parent : n;
      if (d == root_of(n)) continue;
      w->trace.push_back(at + (next ? "addNextTree(" : "addSubTree(") + mon::q(d->name) + ")");
      mon::phase(w->trace.back());
      AttributeTree *got = real([&] { return next ? n->r->addNextTree(d->r) : n->r->addSubTree(d->r); });
      if (!parent) { MON_CHECK(got == 0, "addNextTree", "addNextTree() of a root gave a node"); }
      else
      {
        MON_CHECK(got == d->r, "addSubTree", "adding a tree returned another node");
        if (d->has_name && kid(parent, d->name))
        {
          check_new_name(parent, d->name, got->getDescription());
          d->name = got->getDescription();
          mon::stat("obs.renamed");
        }
        drop_root(d);
        d->parent = parent;
        size_t pos = 0;
        if (next) while (parent->kids[pos++] != n) { }
        parent->kids.insert(parent->kids.begin() + long(pos), d);
        parent->changed = true;
        mon::stat("obs.attached");
      }
    }
    else if (k < 66)
    {
      w->trace.push_back(at + "unlink()");
      mon::phase(w->trace.back());
      real([&] { n->r->unlink(); return 0; });
      if (n->parent) { detach(n); w->roots.push_back(n); }
      mon::stat("obs.unlinked");
    }
    else if (k < 68)
    {
      w->trace.push_back(at + "unlinkSub()");
      mon::phase(w->trace.back());
      real([&] { n->r->unlinkSub(); return 0; });
      for (size_t i = 0; i < n->kids.size(); ++i) { n->kids[i]->parent = 0; w->roots.push_back(n->kids[i]); }
      n->kids.clear();
    }
    else if (k < 73)
    {
      w->trace.push_back(at + "delete");
      mon::phase(w->trace.back());
      real([&] { delete n->r; return 0; });
      if (n->parent) detach(n); else drop_root(n);
      delete n;
      mon::stat("obs.deleted");
    }
    else if (k < 79)
    {
      if (v.size() > 150) continue;
      // a copy, free or below another tree (that may be the original's own)
      Node *p = r.chance(50) ? v[r.below(v.size())] : 0;
      for (Node *u = p; u; u = u->parent) if (u == n) { p = 0; break; }
      w->trace.push_back(at + "copy below " + (p ? mon::q(p->name) : "nothing"));
      mon::phase(w->trace.back());
      Node *c = copy_of(n);
      AttributeTree *t = real([&] { return p ? new AttributeTree(*n->r, p->r) : new AttributeTree(*n->r); });
      c->parent = p;
      if (p) { p->kids.insert(p->kids.begin(), c); p->changed = true; } else w->roots.push_back(c);
      adopt(c, t);
      // whether a fresh copy counts as changed is not specified: start from a known state
      real([&] { t->unmarkChanges(); return 0; });
      unmark(c);
      mon::stat("obs.copies");
    }
    else if (k < 82)
    {
      std::string name = gen_name(r); bool null = r.chance(15);
      w->trace.push_back(at + "setDescription(" + (null ? "NULL" : mon::q(name)) + ")");
      mon::phase(w->trace.back());
      real([&] { n->r->setDescription(null ? 0 : name.c_str()); return 0; });
      n->has_name = !null; n->name = null ? "" : name;
      n->changed = true;
    }
    else if (k < 86)
    {
      bool desc = r.chance(30), null = r.chance(10);
      std::string a = desc ? gen_name(r) : gen_val(r), sep = r.chance(50) ? "" : r.chance(50) ? "\n" : ", ";
      w->trace.push_back(at + (desc ? "appendDescription(" : "appendAttribute(") + (null ? "NULL" : mon::q(a)) + ", " + mon::q(sep) + ")");
      mon::phase(w->trace.back());
      real([&] { if (desc) n->r->appendDescription(null ? 0 : a.c_str(), sep.c_str()); else n->r->appendAttribute(null ? 0 : a.c_str(), sep.c_str()); return 0; });
      if (!null)
      {
        bool& has = desc ? n->has_name : n->has_val; std::string& s = desc ? n->name : n->val;
        s = has ? s + sep + a : a; has = true; n->changed = true;
      }
    }
    else if (k < 89)
    {
      std::string c = gen_val(r), cs = "_COMMENT_";
      w->trace.push_back(at + "setComment(" + mon::q(c) + ")");
      mon::phase(w->trace.back());
      real([&] { n->r->setComment(c.c_str()); return 0; });
      set_path(n, cs, &c);
      adopt(n, n->r);
      mon::stat("obs.comments");
    }
    else if (k < 94)
    {
      std::string path = gen_path(r), val = gen_val(r);
      w->trace.push_back(at + "getOrSetDefault(" + mon::q(path) + ", " + mon::q(val) + ")");
      mon::phase(w->trace.back());
      Node *m = get_path(n, path);
      const char *got = real([&] { return n->r->getOrSetDefault(path.c_str(), val.c_str()); });
      std::string want = m ? m->val : val;
      MON_CHECK(got && want == got, "getOrSetDefault", "gave " << qz(got) << " instead of " << mon::q(want) << " after: " << text());
      if (!m) { set_path(n, path, &val); adopt(root_of(n), root_of(n)->r); }
    }
    else if (k < 97)
    {
      w->trace.push_back(at + "revertOrder()");
      mon::phase(w->trace.back());
      real([&] { n->r->revertOrder(); return 0; });
      revert(n);
    }
    else
    {
      w->trace.push_back(at + "unmarkChanges()");
      mon::phase(w->trace.back());
      real([&] { n->r->unmarkChanges(); return 0; });
      unmark(n);
    }

    mon::phase("comparing after " + w->trace.back());
    Hash h; h.add(k);
    for (size_t i = 0; i < w->roots.size(); ++i) compare(w->roots[i], w->roots[i], 0, h);
    mon::state(h);
    mon::stat_max("nodes", v.size());
    // queries on a node (leaves and empty trees included)
    v.clear();
    for (size_t i = 0; i < w->roots.size(); ++i) all(w->roots[i], v);
    for (unsigned i = 0; i < 3 && !v.empty(); ++i)
    {
      Node *x = v[r.below(v.size())];
      std::string path = gen_path(r), val = gen_val(r);
      if (r.chance(60))
      {
        // a path that exists
        Node *y = v[r.below(v.size())]; path = y->name;
        for (Node *u = y->parent; u && u->parent; u = u->parent) path = u->name + "." + path;
        x = root_of(y);
        if (y->has_val) val = y->val;
      }
      Node *m = get_path(x, path);
      AttributeTree *sub = (AttributeTree *)1;
      const char *got = real([&] { return x->r->getAttribute(path.c_str(), "dflt", &sub); });
      MON_CHECK(got && std::string(got) == (m ? m->val : "dflt"), "getAttribute", "getAttribute(" << mon::q(path) << ") is " << qz(got) << " instead of " << (m ? mon::q(m->val) : "the default") << " after: " << text());
      MON_CHECK(sub == (m ? m->r : 0), "getAttribute", "getAttribute(" << mon::q(path) << ") names another node after: " << text());
      const char *none = real([&] { return x->r->getAttribute(path.c_str()); });
      MON_CHECK((none != 0) == (m != 0), "getAttribute", "getAttribute(" << mon::q(path) << ") without default is " << qz(none) << " after: " << text());
      MON_CHECK(real([&] { return x->r->isAttribute(path.c_str()); }) == (m != 0), "isAttribute", "isAttribute(" << mon::q(path) << ") after: " << text());
      MON_CHECK(real([&] { return x->r->isAttribute(path.c_str(), val.c_str()); }) == (m && m->val == val), "isAttribute", "isAttribute(" << mon::q(path) << ", " << mon::q(val) << ") after: " << text());
      if (m && m->has_val)
      {
        std::string near = m->val;
        if (near.empty() || r.chance(30)) near += "x"; else if (r.chance(50)) near[near.size() - 1] ^= 1; else near.resize(near.size() - 1);
        MON_CHECK(!real([&] { return x->r->isAttribute(path.c_str(), near.c_str()); }), "isAttribute", "isAttribute(" << mon::q(path) << ", " << mon::q(near) << ") after: " << text());
      }
      std::string last = parts(path).back(); bool any = r.chance(50);
      Node *s = search(x, last, any ? 0 : &val);
      MON_CHECK(real([&] { return x->r->search(last.c_str(), any ? 0 : val.c_str()); }) == (s ? s->r : 0), "search", "search(" << mon::q(last) << ", " << (any ? "NULL" : mon::q(val)) << ") after: " << text());
      Node *fp = get_path(root_of(x), PATH_STR), *fn = get_path(root_of(x), NAME_STR);
      MON_CHECK(real([&] { return x->r->getFilePath(); }) == (fp ? fp->val : std::string()), "file-path", "getFilePath() after: " << text());
      MON_CHECK(real([&] { return x->r->fileName(); }) == (fn ? fn->val : std::string()), "file-path", "fileName() after: " << text());
      mon::stat(m ? "obs.found" : "obs.not_found");
    }
    // printing is safe on every tree
    if (r.chance(5) && !v.empty())
    {
      std::ostringstream os;
      Node *x = v[r.below(v.size())];
      mon::phase("printing after " + w->trace.back());
      x->r->printSubTree(os, int(r.below(5)));
      mon::stat("obs.printed");
    }
  }
  if (mon::want_sample()) mon::sample(text());
  while (!w->roots.empty())
  {
    Node *n = w->roots.back();
    real([&] { delete n->r; return 0; });
    delete n; w->roots.pop_back();
  }
  MON_CHECK(blocks->empty(), "leak", blocks->size() << " blocks are still allocated after all trees were deleted: " << text());
  mon::stat("obs.leak_checks");
}
