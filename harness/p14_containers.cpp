// P14: small containers and helpers against plain models.
#include "mon.h"
#include <algorithm>
#include "icl_core/BaseTypes.h"
#include "icl_core/Deprecate.h"
#include "icl_core/Array2D.h"
#include "icl_core/ZBuffer.h"
#include "icl_core/SetHelper.h"
#include "icl_core/SearchableStack.h"
#include "icl_core/BitfieldHelper.h"
#include "icl_core/AtScopeEnd.h"

struct Grid { size_t w, h; std::vector<int> c; Grid() : w(0), h(0) { } };

static void compare(const icl_core::Array2D<int>& a, const Grid& g, const std::string& trace)
{
  MON_CHECK(a.width() == g.w && a.height() == g.h && a.size() == g.w * g.h && a.empty() == (g.w * g.h == 0), "array-size",
            "size is " << a.width() << "x" << a.height() << " (" << a.size() << "); " << trace);
  MON_CHECK(size_t(a.end() - a.begin()) == g.c.size() && std::equal(a.begin(), a.end(), g.c.begin()), "array-content", "iteration differs; " << trace);
  for (size_t row = 0; row < g.h; ++row)
    for (size_t col = 0; col < g.w; ++col)
    {
      size_t i = row * g.w + col, c2 = 99, r2 = 99;
      MON_CHECK(a.index1D(col, row) == i, "array-index", "index1D(" << col << "," << row << ")=" << a.index1D(col, row) << "; " << trace);
      a.indexTo2D(i, c2, r2);
      MON_CHECK(c2 == col && r2 == row, "array-index2d", "indexTo2D(" << i << ")=" << c2 << "," << r2 << "; " << trace);
      MON_CHECK(a(col, row) == g.c[i] && a.at(col, row) == g.c[i] && a[i] == g.c[i] && a.at(i) == g.c[i], "array-cell",
                "cell (" << col << "," << row << ") differs; " << trace);
    }
}

static void arrays(mon::Rng& r)
{
  typedef icl_core::Array2D<int> A;
  A a, b;
  Grid ga, gb;
  std::string trace;
  for (int o = 0; o < 25; ++o)
  {
    size_t w = r.below(7), h = r.below(7);
    int v = int(r.next());
    unsigned k = unsigned(r.below(12));
    if (k == 0) { A n(w, h, v); a = n; ga.w = w; ga.h = h; ga.c.assign(w * h, v); trace += "ctor "; }
    else if (k == 1) { a.resize(w, h); ga.w = w; ga.h = h; ga.c.resize(w * h); trace += "resize "; }
    else if (k == 2) { a.resize(w, h, v); ga.w = w; ga.h = h; ga.c.resize(w * h, v); trace += "resizev "; }
    else if (k == 3) { a.assign(w, h); ga.w = w; ga.h = h; ga.c.assign(w * h, 0); trace += "assign "; }
    else if (k == 4) { a.assign(w, h, v); ga.w = w; ga.h = h; ga.c.assign(w * h, v); trace += "assignv "; }
    else if (k == 5) { a.reset(); ga.c.assign(ga.w * ga.h, 0); trace += "reset "; }
    else if (k == 6) { a.set(v); ga.c.assign(ga.w * ga.h, v); trace += "set "; }
    else if (k == 7) { a.swap(b); std::swap(ga, gb); trace += "swap "; }
    else if (k == 8) { A n(a); b = n; gb = ga; if (r.chance(30)) { a = a; } trace += "copy "; }
    else if (ga.w && ga.h)
    {
      size_t c = r.below(ga.w), row = r.below(ga.h), i = row * ga.w + c;
      switch (r.below(4))
      {
        case 0: a(c, row) = v; break;
        case 1: a.at(c, row) = v; break;
        case 2: a[i] = v; break;
        default: a.at(i) = v; break;
      }
      ga.c[i] = v;
      trace += "write ";
    }
    compare(a, ga, trace);
    compare(b, gb, trace);
    mon::stat("obs.arrays");
    mon::state(mon::Hash().add(1).add(k).add(ga.w).add(ga.h));
  }
}

static void zbuffers(mon::Rng& r)
{
  size_t n = r.below(9);
  bool greater = r.chance(50);
  icl_core::ZBuffer<int> z(n);
  icl_core::ZBuffer<int, std::greater<int> > zg(n);
  std::vector<boost::optional<int> > m(n);
  for (int o = 0; o < 40 && n; ++o)
  {
    if (r.chance(3))
    {
      if (greater) zg.reset(); else z.reset();
      m.assign(n, boost::optional<int>());
      mon::stat("obs.zbuffer_resets");
    }
    size_t p = r.below(n);
    int v = int(r.range(-5, 5));
    bool want = !m[p] || (greater ? v > *m[p] : v < *m[p]);
    bool got = greater ? zg.update(p, v) : z.update(p, v);
    if (want) m[p] = v;
    MON_CHECK(got == want, "zbuffer-update", "update(" << p << ", " << v << ") returned " << got);
    for (size_t i = 0; i < n; ++i)
      MON_CHECK((greater ? zg.at(i) : z.at(i)) == m[i] && (greater ? zg[i] : z[i]) == m[i] && (greater ? zg.buffer() : z.buffer())[i] == m[i],
                "zbuffer-cell", "cell " << i << " after update(" << p << ", " << v << ")");
    MON_CHECK((greater ? zg.size() : z.size()) == n, "zbuffer-size", "size");
    mon::stat("obs.zbuffers");
    mon::state(mon::Hash().add(2).add(n).add(greater).add(want).add(uint64_t(v + 5)));
  }
}

template <class C> static void sets(mon::Rng& r, int id)
{
  std::set<int, C> a, b;
  size_t dom = 1 + r.below(8), n = r.below(7), k = r.below(7);
  for (size_t i = 0; i < n; ++i) a.insert(int(r.below(dom)));
  if (r.chance(40)) b = a;
  for (size_t i = 0; i < (b.empty() ? k : r.below(3)); ++i) b.insert(int(r.below(dom)));
  if (r.chance(20) && !b.empty()) b.erase(b.begin());
  if (r.chance(50)) a.swap(b);
  bool sub = true, sup = true, inter = false;
  for (typename std::set<int, C>::iterator i = a.begin(); i != a.end(); ++i) { if (b.count(*i)) inter = true; else sub = false; }
  for (typename std::set<int, C>::iterator i = b.begin(); i != b.end(); ++i) if (!a.count(*i)) sup = false;
  icl_core::SetRelation want = sub && sup ? icl_core::eSR_EQUAL : sup ? icl_core::eSR_PROPER_SUPERSET : sub ? icl_core::eSR_PROPER_SUBSET
    : inter ? icl_core::eSR_INTERSECTION_NONEMPTY : icl_core::eSR_DISJUNCT;
  icl_core::SetRelation got = icl_core::setRelation(a, b);
  MON_CHECK(got == want, "set-relation", "sets of " << a.size() << " and " << b.size() << " elements: relation " << int(got) << " expected " << int(want));
  mon::stat("obs.set_relations");
  mon::state(mon::Hash().add(3).add(id).add(want).add(a.size()).add(b.size()));
}

struct Mod10 { bool operator()(int a, int b) const { return a % 10 == b % 10; } };

template <class C> static void stacks(mon::Rng& r, int id)
{
  icl_core::SearchableStack<int, C> s;
  std::vector<int> m;
  C comp;
  for (int o = 0; o < 60; ++o)
  {
    unsigned k = unsigned(r.below(20));
    int v = int(r.below(40));
    if (k < 10) { s.push(v); m.push_back(v); }
    else if (k < 14 && !m.empty()) { s.pop(); m.pop_back(); }
    else if (k < 15) { s.clear(); m.clear(); }
    else if (k < 17 && !m.empty()) { s.top() = v; m.back() = v; }
    const icl_core::SearchableStack<int, C>& cs = s;
    MON_CHECK(s.size() == m.size() && s.empty() == m.empty(), "stack-size", "size " << s.size() << " expected " << m.size());
    if (!m.empty()) MON_CHECK(s.top() == m.back() && cs.top() == m.back(), "stack-top", "top");
    MON_CHECK(std::equal(m.begin(), m.end(), cs.begin()) && cs.end() - cs.begin() == long(m.size()), "stack-order", "iteration");
    MON_CHECK(std::equal(m.rbegin(), m.rend(), cs.rbegin()) && cs.rend() - cs.rbegin() == long(m.size()), "stack-reverse", "reverse iteration");
    int w = int(r.below(40));
    size_t at = 0;
    while (at < m.size() && !comp(m[at], w)) ++at;
    MON_CHECK(size_t(cs.find(w) - cs.begin()) == at, "stack-find", "find(" << w << ") at " << (cs.find(w) - cs.begin()) << " expected " << at);
    mon::stat("obs.stacks");
    mon::state(mon::Hash().add(4).add(id).add(m.size()).add(at < m.size()));
  }
}

template <class T> static void bits(mon::Rng& r, int id)
{
  const int width = int(sizeof(T) * 8);
  const int usable = std::min(width, 31);
  T v = T(r.next());
  const T before = v;
  int mask = 0;
  if (r.chance(50)) mask = 1 << r.below(usable);
  else mask = int(r.next() & ((uint64_t(1) << usable) - 1));
  icl_core::setBits<T>(mask, v);
  MON_CHECK(v == T(uint64_t(before) | uint64_t(mask)), "bits-set", "setBits(" << mask << ") of " << int64_t(before) << " (" << width << " bit) gave " << int64_t(v));
  for (int b = 0; b < usable; ++b)
  {
    bool want = (uint64_t(v) >> b) & 1;
    MON_CHECK(icl_core::isBitSet<T>(1 << b, v) == want, "bits-test", "isBitSet(1<<" << b << ") of " << int64_t(v) << " is not " << want);
  }
  T c = before;
  icl_core::clearBits<T>(mask, c);
  MON_CHECK(c == T(uint64_t(before) & ~uint64_t(mask)), "bits-clear", "clearBits(" << mask << ") of " << int64_t(before) << " (" << width << " bit) gave " << int64_t(c));
  mon::stat("obs.bits");
  mon::state(mon::Hash().add(5).add(id).add(mask == 0).add(uint64_t(mask) & (uint64_t(mask) - 1) ? 99 : uint64_t(mask)));
}
enum Flags { eA = 1, eB = 2, eC = 4, eAll = 7 };

static void scopes(mon::Rng& r)
{
  int calls = 0;
  bool want = true, thrown = r.chance(30);
  struct Inc { int *p; void operator()() { ++*p; } } inc = { &calls };
  try
  {
    icl_core::AtScopeEnd at((boost::function<void()>(inc)));
    size_t n = r.below(4);
    for (size_t i = 0; i < n; ++i) { if (r.chance(50)) { at.disable(); want = false; } else { at.enable(); want = true; } }
    MON_CHECK(calls == 0, "scope-early", "called before the end of the scope");
    if (thrown) throw 1;
  }
  catch (int) { }
  MON_CHECK(calls == (want ? 1 : 0), "scope", "called " << calls << " times, enabled " << want);
  mon::state(mon::Hash().add(6).add(want).add(thrown));
  mon::stat("obs.scopes");
}

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  arrays(r);
  zbuffers(r);
  for (int i = 0; i < 20; ++i) { sets<std::less<int> >(r, 0); sets<std::greater<int> >(r, 1); scopes(r); }
  stacks<std::equal_to<int> >(r, 0);
  stacks<Mod10>(r, 1);
  for (int i = 0; i < 10; ++i)
  {
    bits<uint8_t>(r, 0); bits<int8_t>(r, 1); bits<uint16_t>(r, 2); bits<int16_t>(r, 3);
    bits<uint32_t>(r, 4); bits<int32_t>(r, 5); bits<uint64_t>(r, 6); bits<int64_t>(r, 7);
    Flags f = Flags(r.below(8));
    const Flags f0 = f;
    int m = int(r.below(8));
    icl_core::setBits<Flags>(m, f);
    MON_CHECK(int(f) == (int(f0) | m), "bits-enum", "setBits on an enumeration");
    f = f0;
    icl_core::clearBits<Flags>(m, f);
    MON_CHECK(int(f) == (int(f0) & ~m), "bits-enum", "clearBits on an enumeration");
  }
  if (want_sample()) sample("arrays, z-buffers, sets, stacks, bit fields, scope guards");
}
