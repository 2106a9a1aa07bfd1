// P05: UnionFind against an explicit partition.
#include "mon.h"
#include <algorithm>
#include <stdexcept>
#include "icl_core/UnionFind.h"

void mon::setup() { }
void mon::teardown() { }
// A chain of very many elements: the partition has to be found without running out of stack.
static void large(mon::Rng& r)
{
  const size_t n = 300000 + r.below(700000);
  const unsigned way = unsigned(r.below(6));
  mon::phase("chain of " + std::to_string(n) + " elements, way " + std::to_string(way));
  icl_core::UnionFind uf(r.chance(50) ? n : 0);
  if (uf.size() == 0) uf.grow(n);
  const size_t cut = r.below(n - 1);   // not connected behind this element
  for (size_t j = 0; j + 1 < n; ++j)
  {
    const size_t i = way % 3 == 0 ? j : way % 3 == 1 ? n - 2 - j : (j % 2 ? j / 2 : n - 2 - j / 2);
    if (i == cut) continue;
    if (way < 3) uf.merge(i, i + 1); else uf.merge(i + 1, i);
  }
  const size_t a = uf.find(way < 3 ? 0 : cut), b = uf.find(way < 3 ? n - 1 : cut + 1);
  MON_CHECK(uf.size() == n && a <= cut && b > cut, "large", "representatives " << a << " and " << b << " of the parts up to and behind " << cut << ", way " << way);
  for (size_t i = 0; i < n; ++i)
    MON_CHECK(uf.find(i) == (i <= cut ? a : b), "large", "element " << i << " of " << n << " is in another part, way " << way);
  mon::stat("obs.large");
  mon::state(mon::Hash().add(77).add(way));
}

// Parts of equal size merged pairwise: deep trees. The elements are looked up in random order, through few of them first.
static void tournament(mon::Rng& r)
{
  const size_t parts = 1 + r.below(4), per = size_t(1) << (4 + r.below(7)), n = parts * per;
  icl_core::UnionFind uf(n);
  std::vector<size_t> name(n);
  for (size_t i = 0; i < n; ++i) name[i] = i;
  if (r.chance(50)) for (size_t i = n; i > 1; --i) std::swap(name[i - 1], name[r.below(i)]);
  const unsigned how = unsigned(r.below(3)), finds = unsigned(r.below(30));
  const std::string trace = std::to_string(parts) + " parts of " + std::to_string(per) + ", merged by way " + std::to_string(how);
  mon::phase(trace);
  for (size_t w = 1; w < per; w *= 2)
    for (size_t p = 0; p < parts; ++p)
      for (size_t b = 0; b + w < per; b += 2 * w)
      {
        const size_t o = p * per + b;
        size_t x = how == 0 ? o : o + r.below(w), y = how == 0 ? o + w : o + w + r.below(w);
        if (how == 2) { x = o; y = uf.find(name[o + w]); x = uf.find(name[x]); } else { x = name[x]; y = name[y]; }
        if (r.chance(50)) std::swap(x, y);
        uf.merge(x, y);
        if (r.below(100) < finds) { const size_t i = o + r.below(2 * w); uf.find(name[i]); }
      }
  for (unsigned round = 0; round < 2; ++round)
  {
    std::vector<size_t> order(n), rep(parts, n);
    for (size_t i = 0; i < n; ++i) order[i] = i;
    for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    for (size_t k = 0; k < n; ++k)
    {
      const size_t i = order[k], f = uf.find(name[i]), p = i / per;
      if (rep[p] == n) rep[p] = f;
      MON_CHECK(f == rep[p], "tournament", "element " << name[i] << " is represented by " << f << " and others of its part by " << rep[p] << "; " << trace);
    }
    for (size_t p = 0; p < parts; ++p)
    {
      MON_CHECK(std::count(rep.begin(), rep.end(), rep[p]) == 1, "tournament", "two parts have the same representative; " << trace);
      MON_CHECK(uf.find(rep[p]) == rep[p], "tournament", "a representative is represented by another; " << trace);
    }
    if (parts > 1 && round == 0)
    {
      uf.merge(name[r.below(n)], name[0]);
      // later elements are looked up in another state of the trees; the parts are taken apart again by a new model
      std::vector<size_t> q(n);
      for (size_t i = 0; i < n; ++i) q[i] = uf.find(name[i]);
      for (size_t i = 0; i < n; ++i) MON_CHECK(q[i] == q[i / per * per], "tournament", "a part was split by a merge; " << trace);
      break;
    }
  }
  mon::stat("obs.tournaments");
  mon::state(mon::Hash().add(78).add(how).add(per).add(parts));
}

void mon::run_case(uint64_t c, Rng& r)
{
  if (c % 10 == 7) tournament(r);
  if (c % 250 == 17) large(r);
  size_t n = r.chance(10) ? 0 : size_t(r.range(1, r.chance(50) ? 12 : 80));
  icl_core::UnionFind uf(n);
  std::vector<size_t> cls(n);
  for (size_t i = 0; i < n; ++i) cls[i] = i;
  std::string trace = "n=" + std::to_string(n) + " ";
  size_t ops = 10 + r.below(80), classes = n;
  unsigned style = unsigned(r.below(4));
  for (size_t o = 0; o < ops; ++o)
  {
    unsigned k = unsigned(r.below(100));
    mon::stat("ops");
    if (k < 55 && n > 0)
    {
      size_t x, y;
      if (style == 0) { x = o % n; y = (o + 1) % n; }           // chains
      else if (style == 1) { x = r.below(n); y = 0; }           // star
      else { x = r.below(n); y = r.below(n); }
      if (r.chance(50)) std::swap(x, y);
      trace += "m(" + std::to_string(x) + "," + std::to_string(y) + ") ";
      uf.merge(x, y);
      size_t a = cls[x], b = cls[y];
      if (a != b) { --classes; for (size_t i = 0; i < n; ++i) if (cls[i] == b) cls[i] = a; }
    }
    else if (k < 65)
    {
      size_t g = r.chance(20) ? 0 : 1 + r.below(5);
      trace += "grow(" + std::to_string(g) + ") ";
      if (g == 1) uf.grow(); else uf.grow(g);
      for (size_t i = 0; i < g; ++i) cls.push_back(1000000 + n + i);
      n += g; classes += g;
      mon::stat("obs.grows");
    }
    else if (k < 80 && n > 0)
    {
      size_t x = r.below(n);
      trace += "f(" + std::to_string(x) + ") ";
      size_t f = uf.find(x);
      MON_CHECK(f < n && cls[f] == cls[x], "find", "find(" << x << ")=" << f << " is not in the class of " << x << "; " << trace);
    }
    else
    {
      // out of range arguments are refused and change nothing
      size_t bad = r.chance(50) ? n : n + r.below(1000) + (r.chance(20) ? (size_t(1) << 62) : 0);
      int which = int(r.below(3));
      bool threw = false;
      try
      {
        if (which == 0) uf.find(bad);
        else if (which == 1) uf.merge(bad, n ? r.below(n) : bad);
        else uf.merge(n ? r.below(n) : bad, bad);
      }
      catch (const std::out_of_range&) { threw = true; }
      MON_CHECK(threw, "range", "index " << bad << " of " << n << " was accepted; " << trace);
      mon::stat("obs.refused");
    }
    MON_CHECK(uf.size() == n, "size", "size()=" << uf.size() << " expected " << n << "; " << trace);
    // the whole partition, judged pairwise through representatives
    if (o % 3 == 0 || o + 1 == ops)
    {
      std::vector<size_t> rep(n);
      std::map<size_t, size_t> rep_of_class;
      std::map<size_t, size_t> class_of_rep;
      for (size_t i = 0; i < n; ++i)
      {
        rep[i] = uf.find(i);
        MON_CHECK(rep[i] < n, "find-range", "find(" << i << ")=" << rep[i] << "; " << trace);
        if (!rep_of_class.count(cls[i])) rep_of_class[cls[i]] = rep[i];
        if (!class_of_rep.count(rep[i])) class_of_rep[rep[i]] = cls[i];
        MON_CHECK(rep_of_class[cls[i]] == rep[i], "split", "element " << i << " lost its class; " << trace);
        MON_CHECK(class_of_rep[rep[i]] == cls[i], "joined", "element " << i << " is in a class it was never merged with; " << trace);
        MON_CHECK(cls[rep[i]] == cls[i], "representative", "representative outside its class; " << trace);
      }
      for (size_t i = 0; i < n; ++i) MON_CHECK(uf.find(i) == rep[i], "stable", "find is not stable; " << trace);
      mon::stat("obs.partitions_compared");
      mon::state(mon::Hash().add(n).add(classes));
    }
  }
  if (mon::want_sample()) mon::sample(trace.substr(0, 500));
}
