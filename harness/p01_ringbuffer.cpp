// P01: RingBuffer against a bounded FIFO model, any history, across wrap-around and resize.
#include "mon.h"
#include <deque>
#include <stdexcept>
#include "icl_core/RingBuffer.h"

namespace {

struct Pod { uint64_t a; uint32_t b; };
inline bool operator == (const Pod& x, const Pod& y) { return x.a == y.a && x.b == y.b; }

template <class T> T make(uint64_t v);
template <> int make<int>(uint64_t v) { return int(v); }
template <> unsigned char make<unsigned char>(uint64_t v) { return (unsigned char)v; }
template <> Pod make<Pod>(uint64_t v) { Pod p; p.a = v * 7919; p.b = uint32_t(v); return p; }

template <class T>
struct Sys
{
  icl_core::RingBuffer<T> rb;
  std::deque<T> model;
  size_t cap;
  std::string trace;

  explicit Sys(size_t c) : rb(c), cap(c) { }

  void fail(const std::string& key, const std::string& what)
  {
    std::ostringstream os;
    os << what << "; capacity " << cap << ", model size " << model.size() << ", history: "
       << (trace.size() > 1500 ? trace.substr(trace.size() - 1500) : trace);
    mon::viol(key, os.str());
  }
#define RB_CHECK(cond, key, what) do { if (!(cond)) fail(key, what); } while (0)

  template <class B> void observe(B& b, const char *how)
  {
    std::string h = std::string(how) + ": ";
    RB_CHECK(b.size() == model.size(), "size", h + "size() differs from the number of stored elements");
    RB_CHECK(b.capacity() == cap, "capacity", h + "capacity() is wrong");
    RB_CHECK(b.reserve() == cap - model.size(), "reserve", h + "reserve() is wrong");
    RB_CHECK(b.empty() == model.empty(), "empty", h + "empty() is wrong");
    RB_CHECK(b.full() == (model.size() == cap), "full", h + "full() is wrong");
    for (size_t i = 0; i < model.size(); ++i)
      RB_CHECK(b.at(i) == model[i], "at", h + "at(i) is not the i-th oldest element");
    bool threw = false;
    try { (void)b.at(model.size()); } catch (const std::out_of_range&) { threw = true; }
    RB_CHECK(threw, "at-range", h + "at(size()) did not throw out_of_range");
    threw = false;
    try { (void)b.at(size_t(-1)); } catch (const std::out_of_range&) { threw = true; }
    RB_CHECK(threw, "at-range", h + "at(SIZE_MAX) did not throw out_of_range");
    if (!model.empty()) RB_CHECK(b.front() == model.front(), "front", h + "front() is not the oldest element");
    else
    {
      threw = false;
      try { (void)b.front(); } catch (const std::out_of_range&) { threw = true; }
      RB_CHECK(threw, "front-range", h + "front() of an empty buffer did not throw");
    }
    // filled blocks
    {
      std::deque<T> got;
      auto one = b.arrayOne(); auto two = b.arrayTwo();
      RB_CHECK(one.second + two.second == model.size(), "array-size", h + "arrayOne+arrayTwo lengths differ from size()");
      for (size_t i = 0; i < one.second; ++i) got.push_back(one.first[i]);
      for (size_t i = 0; i < two.second; ++i) got.push_back(two.first[i]);
      RB_CHECK(got == model, "array", h + "arrayOne+arrayTwo are not the content in order");
      auto e1 = b.emptyArrayOne(); auto e2 = b.emptyArrayTwo();
      RB_CHECK(e1.second + e2.second == cap - model.size(), "empty-array-size", h + "empty block lengths differ from reserve()");
    }
    // iteration
    {
      auto it = b.begin(); auto en = b.end();
      size_t n = 0;
      for (; it != en && n <= model.size(); ++it, ++n)
      {
        RB_CHECK(n < model.size(), "iterate", h + "iteration runs past the content");
        RB_CHECK(*it == model[n], "iterate", h + "iteration order is wrong");
      }
      RB_CHECK(n == model.size(), "iterate", h + "iteration stops early or late");
      RB_CHECK(b.end() - b.begin() == ptrdiff_t(model.size()), "distance", h + "end()-begin() is not size()");
      for (size_t i = model.size(); i-- > 0; )
      {
        --en;
        RB_CHECK(*en == model[i], "iterate-back", h + "backward iteration order is wrong");
      }
      RB_CHECK(en == b.begin(), "iterate-back", h + "backward iteration does not arrive at begin()");
    }
  }

  void jumps(mon::Rng& r)
  {
    const icl_core::RingBuffer<T>& c = rb;
    size_t n = model.size();
    for (int k = 0; k < 6; ++k)
    {
      size_t i = r.below(n + 1), j = r.below(n + 1);
      typename icl_core::RingBuffer<T>::const_iterator a = c.begin() + ptrdiff_t(i);
      typename icl_core::RingBuffer<T>::const_iterator b = c.begin();
      b += ptrdiff_t(j);
      if (i < n) RB_CHECK(*a == model[i], "iter-plus", "begin()+i does not denote element i");
      // an iterator of another buffer becomes one of this by assignment
      static icl_core::RingBuffer<T> stranger(3);
      typename icl_core::RingBuffer<T>::const_iterator as = stranger.begin();
      as = a; as += ptrdiff_t(j) - ptrdiff_t(i);
      RB_CHECK(as == b && b - as == 0 && as - c.begin() == ptrdiff_t(j), "iter-assign", "an assigned iterator does not move as the original");
      typename icl_core::RingBuffer<T>::iterator ms = stranger.begin();
      ms = rb.begin(); ms += ptrdiff_t(i);
      RB_CHECK(ms == a && ms - rb.begin() == ptrdiff_t(i), "iter-assign", "an assigned iterator does not move as the original");
      if (j < n) RB_CHECK(*b == model[j], "iter-plus", "+= j does not denote element j");
      RB_CHECK((a == b) == (i == j), "iter-eq", "iterator equality is wrong");
      RB_CHECK((a != b) == (i != j), "iter-eq", "iterator inequality is wrong");
      RB_CHECK(b - a == ptrdiff_t(j) - ptrdiff_t(i), "iter-distance", "iterator distance is wrong");
      a += ptrdiff_t(j) - ptrdiff_t(i);
      RB_CHECK(a == b, "iter-advance", "advancing by a distance misses");
      b -= ptrdiff_t(j) - ptrdiff_t(i);
      RB_CHECK(b == c.begin() + ptrdiff_t(i), "iter-advance", "retreating by a distance misses");
      RB_CHECK(c.end() - ptrdiff_t(n - i) == c.begin() + ptrdiff_t(i), "iter-minus", "end()-k misses");
      typename icl_core::RingBuffer<T>::const_iterator p = c.begin() + ptrdiff_t(i);
      if (i < n) { typename icl_core::RingBuffer<T>::const_iterator o = p++; RB_CHECK(o == c.begin() + ptrdiff_t(i) && p == c.begin() + ptrdiff_t(i + 1), "iter-post", "post-increment"); }
      else if (i > 0) { typename icl_core::RingBuffer<T>::const_iterator o = p--; RB_CHECK(o == c.end() && p == c.begin() + ptrdiff_t(i - 1), "iter-post", "post-decrement"); }
    }
  }
};

template <class T> void history(mon::Rng& r)
{
  size_t cap = r.chance(5) ? 0 : (r.chance(70) ? size_t(r.range(1, 6)) : size_t(r.range(7, 40)));
  Sys<T> s(cap);
  uint64_t next = 1;
  size_t ops = 20 + r.below(60);
  bool bulk = r.chance(30);
  unsigned wr = unsigned(r.range(20, 60));
  for (size_t o = 0; o < ops; ++o)
  {
    std::ostringstream t;
    unsigned k = unsigned(r.below(100));
    mon::stat("ops");
    bool threw = false;
    if (k < wr)
    {
      bool over = r.chance(40) && s.cap > 0;
      T v = make<T>(next++);
      t << "write" << (over ? "!" : "");
      s.trace += t.str() + " ";
      try { if (over) s.rb.write(v, true); else if (r.chance(50)) s.rb.write(v, false); else s.rb.write(v); } catch (const std::out_of_range&) { threw = true; }
      if (s.model.size() == s.cap && !over) { if (!threw) s.fail("write-full", "write to a full buffer did not throw"); mon::stat("obs.write_full_refused"); }
      else
      {
        if (threw) s.fail("write-throw", "write with room (or overwrite) threw");
        if (s.model.size() == s.cap) { s.model.pop_front(); mon::stat("obs.overwrites"); }
        s.model.push_back(v);
      }
    }
    else if (k < wr + 20)
    {
      s.trace += "read ";
      T v = T();
      try { v = s.rb.read(); } catch (const std::out_of_range&) { threw = true; }
      if (s.model.empty()) { if (!threw) s.fail("read-empty", "read of an empty buffer did not throw"); mon::stat("obs.read_empty_refused"); }
      else
      {
        if (threw) s.fail("read-throw", "read of a non-empty buffer threw");
        if (!(v == s.model.front())) s.fail("read-order", "read did not return the oldest element");
        s.model.pop_front();
      }
    }
    else if (k < wr + 25)
    {
      s.trace += "skip ";
      try { s.rb.skip(); } catch (const std::out_of_range&) { threw = true; }
      if (s.model.empty()) { if (!threw) s.fail("skip-empty", "skip of an empty buffer did not throw"); }
      else { if (threw) s.fail("skip-throw", "skip threw"); s.model.pop_front(); }
    }
    else if (k < wr + 29)
    {
      size_t n = r.below(s.model.size() + 3);
      t << "skip(" << n << ") "; s.trace += t.str();
      s.rb.skip(n);
      while (n-- && !s.model.empty()) s.model.pop_front();
    }
    else if (k < wr + 31 + (bulk ? 6 : 0))
    {
      // what a C reader would do: fill the empty blocks, then announce the elements
      typename icl_core::RingBuffer<T>::array_range e1 = s.rb.emptyArrayOne(), e2 = s.rb.emptyArrayTwo();
      size_t room = e1.second + e2.second;
      if (room != s.cap - s.model.size()) s.fail("empty-array-size", "empty block lengths differ from reserve()");
      size_t n = r.below(room + 1), i = 0;
      t << "fill(" << n << ") "; s.trace += t.str();
      for (; i < n; ++i)
      {
        T v = make<T>(next++);
        if (i < e1.second) e1.first[i] = v; else e2.first[i - e1.second] = v;
        s.model.push_back(v);
      }
      // announcing more elements than fit announces those that fit
      size_t extra = 0;
      if (n == room && r.chance(40)) { extra = size_t(r.chance(70) ? r.range(1, 5) : r.range(1, 1000)); mon::stat("obs.announced_too_many"); }
      s.rb.fakeWrite(n + extra);
      mon::stat("obs.bulk_fills");
    }
    else if (k < wr + 33 + (bulk ? 6 : 0))
    {
      size_t c = r.chance(10) ? 0 : (r.chance(50) ? size_t(r.range(1, 8)) : s.model.size() + r.below(4));
      t << "setCapacity(" << c << ") "; s.trace += t.str();
      s.rb.setCapacity(c);
      s.cap = c;
      while (s.model.size() > c) s.model.pop_front();
      mon::stat("obs.resizes");
    }
    else if (k < wr + 34 + (bulk ? 6 : 0))
    {
      s.trace += "clear ";
      s.rb.clear(); s.model.clear();
    }
    else if (k < wr + 36 + (bulk ? 6 : 0) && !s.model.empty())
    {
      s.trace += "modify ";
      size_t i = r.below(s.model.size());
      T v = make<T>(next++);
      switch (r.below(3))
      {
      case 0: s.rb.at(i) = v; break;
      case 1: { typename icl_core::RingBuffer<T>::iterator it = s.rb.begin(); it += ptrdiff_t(i); *it = v; break; }
      default:
      {
        typename icl_core::RingBuffer<T>::array_range a = s.rb.arrayOne(), b = s.rb.arrayTwo();
        if (i < a.second) a.first[i] = v; else b.first[i - a.second] = v;
      }
      }
      s.model[i] = v;
    }
    else if (k < wr + 38 + (bulk ? 6 : 0))
    {
      // copies are independent of the original
      s.trace += "copy ";
      icl_core::RingBuffer<T> c(s.rb);
      icl_core::RingBuffer<T> d(r.below(5));
      d = s.rb;
      if (!s.model.empty()) { s.rb.skip(); s.rb.write(s.model.front()); s.rb.clear(); }
      s.observe(c, "copy");
      s.observe(d, "assigned");
      if (r.chance(50)) s.rb = c; else s.rb = d;
    }
    const icl_core::RingBuffer<T>& cref = s.rb;
    s.observe(cref, "const");
    if (o % 4 == 0) { s.observe(s.rb, "mutable"); s.jumps(r); }
    typename icl_core::RingBuffer<T>::const_array_range two = cref.arrayTwo();
    if (two.second > 0) mon::stat("obs.wrapped_states");
    mon::state(mon::Hash().add(sizeof(T)).add(s.cap).add(s.model.size()).add(cref.arrayOne().second).add(k));
  }
  if (mon::want_sample()) mon::sample("capacity " + std::to_string(cap) + ": " + s.trace);
}

} // namespace

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t index, Rng& r)
{
  switch (index % 3)
  {
  case 0: history<int>(r); break;
  case 1: history<Pod>(r); break;
  default: history<unsigned char>(r);
  }
}
