// P16: wrapped and derived standard containers against the standard ones; finalizable, explicitly typed and expected-type values.
#include "mon.h"
#include <list>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include "icl_core/BaseTypes.h"
#include "icl_core/Convert.h"
#include "icl_core/ExpectedType.h"
#include "icl_core/Explicit.h"
#include "icl_core/Finalizable.h"
#include "icl_core/List.h"
#include "icl_core/Map.h"
#include "icl_core/Multimap.h"
#include "icl_core/Queue.h"
#include "icl_core/RemoveMemberPointer.h"
#include "icl_core/Set.h"
#include "icl_core/Vector.h"
#include "icl_core/VectorWrapper.h"

typedef std::vector<std::string> SV;
class Plain
{
public:
  ICL_CORE_WRAP_VECTOR(Plain, SV, protected, m_v);
public:
  int extra() const { return 41; }
};
template <typename T> class Templ
{
public:
  ICL_CORE_WRAP_VECTOR_TYPENAME(Templ, std::vector<T>, protected, m_v);
public:
  int extra() const { return 41; }
};
class Init
{
public:
  ICL_CORE_WRAP_VECTOR_INIT(Init, SV, protected, m_v, m_a(20), m_b(21));
public:
  int extra() const { return m_a + m_b; }
private:
  int m_a, m_b;
};
template <typename T> class TemplInit
{
public:
  ICL_CORE_WRAP_VECTOR_TYPENAME_INIT(TemplInit, std::vector<T>, protected, m_v, m_a(20), m_b(21));
public:
  int extra() const { return m_a + m_b; }
private:
  int m_a, m_b;
};

template <class W> static void compare(const W& w, const std::vector<typename W::value_type>& m, const std::string& trace)
{
  MON_CHECK(w.size() == m.size() && w.empty() == m.empty(), "vector-size", "size is " << w.size() << " instead of " << m.size() << "; " << trace);
  MON_CHECK(w.extra() == 41, "vector-init", "further members are initialised to a sum of " << w.extra() << "; " << trace);
  MON_CHECK(size_t(w.end() - w.begin()) == m.size() && std::equal(w.begin(), w.end(), m.begin()), "vector-content", "iteration differs; " << trace);
  MON_CHECK(size_t(w.rend() - w.rbegin()) == m.size() && std::equal(w.rbegin(), w.rend(), m.rbegin()), "vector-content", "reverse iteration differs; " << trace);
  MON_CHECK(w.capacity() >= m.size() && w.max_size() == m.max_size(), "vector-capacity", "capacity " << w.capacity() << "; " << trace);
  for (size_t i = 0; i < m.size(); ++i)
    MON_CHECK(w[i] == m[i] && w.at(i) == m[i], "vector-access", "element " << i << "; " << trace);
  bool thrown = false;
  try { w.at(m.size()); } catch (const std::out_of_range&) { thrown = true; }
  MON_CHECK(thrown, "vector-range", "at() beyond the end did not throw; " << trace);
  if (!m.empty()) MON_CHECK(w.front() == m.front() && w.back() == m.back(), "vector-access", "front or back; " << trace);
}

static std::string make(mon::Rng& r, std::string *) { return r.str("abcdefgh", 0, 30); }
static double make(mon::Rng& r, double *) { return double(r.range(-1000, 1000)) / 8; }

template <class W> static void vectors(mon::Rng& r, int kind)
{
  typedef typename W::value_type E;
  typedef std::vector<E> M;
  M m, m2, src;
  for (size_t i = r.below(6); i; --i) src.push_back(make(r, (E *)0));
  std::unique_ptr<W> pw, pw2(new W());
  std::string trace;
  switch (r.below(6))
  {
    case 0: pw.reset(new W()); break;
    case 1: pw.reset(new W(src)); m = src; break;
    case 2: { size_t n = r.below(6); E e = make(r, (E *)0); pw.reset(new W(typename W::size_type(n), e)); m.assign(n, e); break; }
    case 3: { size_t n = r.below(6); pw.reset(new W(typename W::size_type(n))); m.assign(n, E()); break; }
    case 4: pw.reset(new W(src.begin(), src.end())); m = src; break;
    default: { std::list<E> l(src.begin(), src.end()); pw.reset(new W(l.begin(), l.end(), std::allocator<E>())); m = src; break; }
  }
  W& w = *pw; W& w2 = *pw2;
  const W& c = w;
  compare(w, m, "constructed");
  for (int o = 0; o < 20; ++o)
  {
    unsigned k = unsigned(r.below(20));
    E e = make(r, (E *)0);
    size_t n = r.below(5), p = r.below(m.size() + 1);
    trace += " " + std::to_string(k) + "@" + std::to_string(p);
    switch (k)
    {
      case 0: w.assign(typename W::size_type(n), e); m.assign(n, e); break;
      case 1: w.assign(src.begin(), src.end()); m.assign(src.begin(), src.end()); break;
      case 2: if (!m.empty()) { p = r.below(m.size()); w.at(p) = e; m[p] = e; } break;
      case 3: if (!m.empty()) { p = r.below(m.size()); w[p] = e; m[p] = e; } break;
      case 4: if (!m.empty()) { w.front() = e; m.front() = e; } break;
      case 5: if (!m.empty()) { w.back() = e; m.back() = e; } break;
      case 6: w.clear(); m.clear(); break;
      case 7: { typename W::iterator i = w.insert(w.begin() + p, e); m.insert(m.begin() + p, e);
                MON_CHECK(size_t(i - w.begin()) == p, "vector-iterator", "insert() returned an iterator to another position; " << trace); break; }
      case 8: w.insert(w.begin() + p, typename W::size_type(n), e); m.insert(m.begin() + p, n, e); break;
      case 9: w.insert(w.begin() + p, src.begin(), src.end()); m.insert(m.begin() + p, src.begin(), src.end()); break;
      case 10: if (p < m.size()) { typename W::iterator i = w.erase(w.begin() + p); m.erase(m.begin() + p);
                 MON_CHECK(size_t(i - w.begin()) == p, "vector-iterator", "erase() returned an iterator to another position; " << trace); } break;
      case 11: { size_t q2 = p + r.below(m.size() - p + 1); typename W::iterator i = w.erase(w.begin() + p, w.begin() + q2); m.erase(m.begin() + p, m.begin() + q2);
                 MON_CHECK(size_t(i - w.begin()) == p, "vector-iterator", "erase() returned an iterator to another position; " << trace); break; }
      case 12: case 13: w.push_back(e); m.push_back(e); break;
      case 14: if (!m.empty()) { w.pop_back(); m.pop_back(); } break;
      case 15: w.resize(n * 3); m.resize(n * 3); break;
      case 16: w.resize(n * 3, e); m.resize(n * 3, e); break;
      case 17: w.swap(w2); m.swap(m2); break;
      case 18: w.reserve(n * 20); MON_CHECK(w.capacity() >= n * 20, "vector-capacity", "reserve(" << n * 20 << ") gave " << w.capacity()); break;
      default:
        for (typename W::iterator i = w.begin(); i != w.end(); ++i) *i = e;
        if (!m.empty()) { *w.rbegin() = make(r, (E *)0); m.assign(m.size(), e); m.back() = c.back(); }
        break;
    }
    compare(w, m, trace);
    compare(w2, m2, trace);
    mon::stat("obs.vector_ops");
    mon::state(mon::Hash().add(kind).add(k).add(m.size()).add(p));
  }
  W copy(w);
  w.push_back(make(r, (E *)0));
  compare(copy, m, "copy");
  copy = w2;
  compare(copy, m2, "assigned");
  MON_CHECK(c.get_allocator() == std::allocator<E>(), "vector-allocator", "other allocator");
}

static void derived(mon::Rng& r)
{
  std::vector<int> v;
  for (size_t i = r.below(8); i; --i) v.push_back(int(r.below(6)));
  const int x = int(r.below(100));
  const size_t n = r.below(5);
  {
    icl_core::Vector<int> a, b(v), c(v.begin(), v.end()), d(b), e(icl_core::Vector<int>::size_type(n), x);
    icl_core::Vector<int> f(n);   // "explicit", the elements are default constructed
    MON_CHECK(a.empty() && b == v && c == v && d == v, "derived-vector", "constructed " << b.size() << " elements");
    MON_CHECK(e == std::vector<int>(n, x) && f == std::vector<int>(n, 0), "derived-vector", "filled construction");
    d = e;
    MON_CHECK(d == e, "derived-vector", "assignment");
  }
  {
    std::list<int> l(v.begin(), v.end());
    icl_core::List<int> a, b(l), c(v.begin(), v.end()), d(b), e(icl_core::List<int>::size_type(n), x), f(n);
    MON_CHECK(a.empty() && b == l && c == l && d == l && e == std::list<int>(n, x) && f == std::list<int>(n, 0), "derived-list", "construction");
  }
  std::map<int, int> m;
  std::multimap<int, int> mm;
  for (size_t i = 0; i < v.size(); ++i) { m[v[i]] = int(i); mm.insert(std::make_pair(v[i], int(i))); }
  {
    icl_core::Map<int, int> a, b(m), c(m.begin(), m.end()), d(b);
    MON_CHECK(a.empty() && b == m && c == m && d == m, "derived-map", "construction");
    icl_core::Multimap<int, int> ma, mb(mm), mc(mm.begin(), mm.end()), md(mb);
    MON_CHECK(ma.empty() && mb == mm && mc == mm && md == mm, "derived-multimap", "construction");
    ma = mb;
    MON_CHECK(ma == mm, "derived-multimap", "assignment");
  }
  {
    std::set<int> s(v.begin(), v.end());
    icl_core::Set<int> a, b(s), c(b);
    MON_CHECK(a.empty() && b == s && c == s, "derived-set", "construction");
    std::queue<int> q;
    for (size_t i = 0; i < v.size(); ++i) q.push(v[i]);
    icl_core::Queue<int> qa, qb(q), qc(qb);
    MON_CHECK(qa.empty() && qb == q && qc == q, "derived-queue", "construction");
    for (size_t i = 0; i < v.size(); ++i) { MON_CHECK(qc.front() == v[i], "derived-queue", "order"); qc.pop(); }
    MON_CHECK(qc.empty() && qb.size() == v.size(), "derived-queue", "the copy is not independent");
  }
  mon::stat("obs.derived");
  mon::state(mon::Hash().add(50).add(v.size()).add(n));
}

template <class T> static void finalizable(mon::Rng& r, T (*gen)(mon::Rng&), int kind)
{
  typedef icl_core::Finalizable<T> F;
  T cur = gen(r), other = gen(r);
  F f(cur), g(other);
  bool ffin = false, gfin = false;
  for (int o = 0; o < 15; ++o)
  {
    T n = gen(r);
    unsigned k = unsigned(r.below(6));
    bool thrown = false, expect = false;
    try
    {
      switch (k)
      {
        case 0: case 1: expect = ffin; if (!ffin) cur = n; f = n; break;
        case 2: expect = ffin; if (!ffin) cur = other; f = g; break;
        case 3: if (r.chance(20)) { f.finalize(); ffin = true; } break;
        case 4: if (r.chance(20)) { g.finalize(); gfin = true; } break;
        default: { F c(f); MON_CHECK(T(c) == cur && c.isFinal() == ffin, "finalizable-copy", "a copy differs in value or finality");
                   T n2 = gen(r); bool t2 = false; try { c = n2; } catch (const std::logic_error&) { t2 = true; }
                   MON_CHECK(t2 == ffin && T(c) == (ffin ? cur : n2), "finalizable-copy", "assignment to a copy of a " << (ffin ? "" : "non-") << "final value"); }
      }
    }
    catch (const std::logic_error&) { thrown = true; }
    MON_CHECK(thrown == expect, "finalizable-throw", "assignment " << (thrown ? "was refused" : "was accepted") << ", final is " << ffin << ", operation " << k);
    MON_CHECK(T(f) == cur && f.isFinal() == ffin, "finalizable-value", "value or finality changed, operation " << k);
    MON_CHECK(T(g) == other && g.isFinal() == gfin, "finalizable-value", "the assigned-from object changed");
    std::ostringstream a, b;
    f << a; b << cur;
    MON_CHECK(a.str() == b.str(), "finalizable-print", "prints " << a.str());
    mon::stat("obs.finalizable");
    mon::state(mon::Hash().add(60).add(kind).add(k).add(ffin).add(gfin));
  }
}
static int gi(mon::Rng& r) { return int(r.next()); }
static std::string gs(mon::Rng& r) { return r.str("xyz", 0, 40); }

struct Base { virtual ~Base() { } };
struct Derived : Base { };
template <class A, class B> static void typepair(bool same)
{
  icl_core::ExpectedTypeIs<A> a;
  icl_core::ExpectedTypeIs<B> b;
  const icl_core::ExpectedType& ea = a; const icl_core::ExpectedType& eb = b;
  MON_CHECK(ea.is<A>() && eb.is<B>() && ea.is<B>() == same && eb.is<A>() == same, "expected-is", "is<>() answers wrong");
  MON_CHECK((ea == eb) == same && (eb == ea) == same && (ea != eb) == !same, "expected-compare", "comparison answers wrong");
  icl_core::ExpectedType::Ptr p(new icl_core::ExpectedTypeIs<A>());
  MON_CHECK(p->is<A>() && *p == ea && (*p == eb) == same && !(*p != *p), "expected-compare", "comparison of another object answers wrong");
  mon::stat("obs.types");
}

struct Metres { };
struct Feet { };
struct From { int v; };
struct To { int v; };
static void convertTo(const From&, To&) { }
namespace icl_core {
template <> void convert(const From& f, To& t) { t.v = f.v + 1; }
}
struct Holder { int m; std::string s; };
template <class A, class B> struct Same { enum { v = 0 }; };
template <class A> struct Same<A, A> { enum { v = 1 }; };

static void small(mon::Rng& r)
{
  int v = int(r.next());
  typedef icl_core::Explicit<int, Metres> M;
  typedef icl_core::Explicit<int, Feet> F;
  M m(v), m2(m);
  F f(int(r.next()));
  const int fv = f;
  MON_CHECK(int(m) == v && m.value == v && int(m2) == v && f.value == fv, "explicit-value", "the value changed");
  m = M(v + 0u == 7u ? 8 : 7);
  MON_CHECK(int(m) == (v == 7 ? 8 : 7) && int(m2) == v, "explicit-value", "assignment");
  MON_CHECK((boost::is_same<M, F>::value) == false, "explicit-type", "types of different meaning are the same");
  double d = double(r.range(-100000, 100000)) / 16;
  int out = 0;
  icl_core::convert(d, out);
  MON_CHECK(out == int(d) && icl_core::convert<int>(d) == int(d) && icl_core::convert<double>(v) == double(v) && icl_core::convert<unsigned char>(v) == (unsigned char)(v),
            "convert", "convert(" << d << ")=" << out);
  From fr = { int(r.below(1000)) };
  MON_CHECK(icl_core::convert<To>(fr).v == fr.v + 1, "convert-special", "a specialised conversion was not used");
  MON_CHECK((Same<icl_core::RemoveMemberPointer<int Holder::*>::Type, int>::v && Same<icl_core::RemoveMemberPointer<std::string Holder::*>::Type, std::string>::v
             && Same<icl_core::RemoveMemberPointer<int *>::Type, int *>::v), "member-pointer", "type of a member pointer");
  MON_CHECK((Same<icl_core::ConvertToRef<int>::ToConstRef, const int&>::v && Same<icl_core::ConvertToRef<int&>::ToRef, int&>::v
             && icl_core::DefaultConstruct<int>::C() == 0 && icl_core::DefaultConstruct<std::string>::C().empty()), "template-helper", "helper types");
  mon::stat("obs.small");
  (void)convertTo;
}

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  for (int i = 0; i < 3; ++i)
  {
    vectors<Plain>(r, 0);
    vectors<Templ<std::string> >(r, 1);
    vectors<Templ<double> >(r, 2);
    vectors<Init>(r, 3);
    vectors<TemplInit<std::string> >(r, 4);
    derived(r);
    finalizable<int>(r, gi, 0);
    finalizable<std::string>(r, gs, 1);
    small(r);
  }
  typepair<int, int>(true);
  typepair<int, unsigned>(false);
  typepair<int, const int>(false);
  typepair<Base, Derived>(false);
  typepair<Derived, Derived>(true);
  typepair<std::string, std::vector<int> >(false);
  if (want_sample()) sample("wrapped vectors, derived containers, finalizable, typed values");
}
