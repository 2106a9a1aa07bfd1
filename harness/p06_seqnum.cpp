// P06: SequenceNumber: cyclic counting and wrap-around ordering.
#include "mon.h"
#include "icl_core/SequenceNumber.h"

namespace {

template <class T> uint64_t u(T v) { return uint64_t(v); }

template <class T, T M, T m, T init> void judge(mon::Rng& r, const char *name)
{
  typedef icl_core::SequenceNumber<T, M, m, init> S;
  MON_CHECK(S::maxValue() == M && S::minValue() == m, "bounds", name);
  S def;
  MON_CHECK(u(T(def)) == u(init), "initial", name << ": default value " << u(T(def)));
  // counting: v, v+1, ..., max-1, min, ...
  T v = T(m + r.below(uint64_t(M - m)));
  if (r.chance(40)) v = T(M - 1 - r.below(std::min<uint64_t>(uint64_t(M - m), 5)));
  S s(v);
  size_t steps = 1 + r.below(40);
  T expect = v;
  for (size_t i = 0; i < steps; ++i)
  {
    T next = (expect == T(M - 1)) ? m : T(expect + 1);
    if (next == m) mon::stat("obs.wraps");
    if (r.chance(50))
    {
      S old = s++;
      MON_CHECK(u(T(old)) == u(expect), "post", name << ": s++ returned " << u(T(old)) << " expected " << u(expect));
    }
    else
    {
      S& ref = ++s;
      MON_CHECK(&ref == &s, "pre", name << ": ++s is not s");
    }
    expect = next;
    MON_CHECK(u(T(s)) == u(expect), "count", name << ": after increment " << u(T(s)) << " expected " << u(expect));
  }
  S c(s), d; d = s;
  MON_CHECK(c == s && d == s && !(c != s), "copy", name);
  T w = T(m + r.below(uint64_t(M - m)));
  d = w;
  MON_CHECK(u(T(d)) == u(w), "assign", name);
  mon::stat("obs.counted");
}

// ordering is judged for types that start at zero: the cycle length is M
template <class T, T M> void order(mon::Rng& r, const char *name)
{
  typedef icl_core::SequenceNumber<T, M> S;
  uint64_t half = uint64_t(M) / 2;
  T v = r.chance(40) ? T(uint64_t(M) - 1 - r.below(std::min<uint64_t>(uint64_t(M), 5))) : T(r.below(uint64_t(M)));
  uint64_t d;
  switch (r.below(5))
  {
  case 0: d = 0; break;
  case 1: d = half >= 2 ? half - 1 : 0; break;
  case 2: d = half >= 2 ? 1 + r.below(std::min<uint64_t>(half - 1, 4)) : 0; break;
  default: d = half >= 2 ? r.below(half) : 0;
  }
  // b is a, advanced by d < half steps
  T w = (uint64_t(M) - d > uint64_t(v)) ? T(uint64_t(v) + d) : T(uint64_t(v) - (uint64_t(M) - d));
  S a(v), b(w);
  if (w < v) mon::stat("obs.compared_across_wrap");
  bool lt = d > 0;
  std::ostringstream os; os << name << ": a=" << u(v) << " b=a+" << d << "=" << u(w);
  MON_CHECK((a == b) == (d == 0) && (b == a) == (d == 0), "eq", os.str());
  MON_CHECK((a != b) == (d != 0) && (b != a) == (d != 0), "ne", os.str());
  MON_CHECK((a < b) == lt, "lt", os.str() << ": a<b is " << (a < b));
  MON_CHECK((b < a) == false, "lt-rev", os.str() << ": b<a");
  MON_CHECK((a <= b) == true, "le", os.str());
  MON_CHECK((b <= a) == !lt, "le-rev", os.str());
  MON_CHECK((b > a) == lt, "gt", os.str());
  MON_CHECK((a > b) == false, "gt-rev", os.str());
  MON_CHECK((b >= a) == true, "ge", os.str());
  MON_CHECK((a >= b) == !lt, "ge-rev", os.str());
  mon::stat("obs.compared");
  mon::state(mon::Hash().add(name).add(d == 0 ? 0 : d == 1 ? 1 : d + 1 == half ? 2 : d < half / 2 ? 3 : 4).add(w < v).add(u(v) % 997));
  if (mon::want_sample()) mon::sample(os.str());
}
} // namespace

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t i, Rng& r)
{
  for (int k = 0; k < 50; ++k)
  switch ((i + uint64_t(k)) % 12)
  {
  case 0: judge<uint8_t, 255, 0, 0>(r, "u8/255"); order<uint8_t, 255>(r, "u8/255"); break;
  case 1: judge<uint8_t, 10, 3, 5>(r, "u8/3..10"); order<uint8_t, 16>(r, "u8/16"); break;
  case 2: judge<uint16_t, 65535, 0, 0>(r, "u16/65535"); order<uint16_t, 65535>(r, "u16/65535"); break;
  case 3: judge<uint16_t, 1000, 1, 1>(r, "u16/1..1000"); order<uint16_t, 1000>(r, "u16/1000"); break;
  case 4: judge<uint32_t, 0xffffffffu, 0, 0>(r, "u32/max"); order<uint32_t, 0xffffffffu>(r, "u32/max"); break;
  case 5: judge<uint32_t, 100, 0, 99>(r, "u32/100"); order<uint32_t, 100>(r, "u32/100"); break;
  case 6: judge<uint64_t, 0xffffffffffffffffull, 0, 0>(r, "u64/max"); order<uint64_t, 0xffffffffffffffffull>(r, "u64/max"); break;
  case 7: judge<uint64_t, 7, 2, 2>(r, "u64/2..7"); order<uint64_t, 7>(r, "u64/7"); break;
  case 8: judge<uint32_t, 2, 0, 0>(r, "u32/2"); order<uint32_t, 4>(r, "u32/4"); break;
  case 9: judge<uint32_t, 0x80000000u, 10, 10>(r, "u32/2^31"); order<uint32_t, 0x80000000u>(r, "u32/2^31"); break;
  case 10: judge<int32_t, 1000, 0, 0>(r, "i32/1000"); order<int32_t, 1000>(r, "i32/1000"); break;
  default: judge<uint16_t, 256, 0, 0>(r, "u16/256"); order<uint16_t, 256>(r, "u16/256");
  }
}
