// P02: exact nanosecond arithmetic of TimeSpan and TimeStamp against 128-bit integers.
#include "mon.h"
#include <time.h>
#include "icl_core/TimeSpan.h"
#include "icl_core/TimeStamp.h"

using icl_core::TimeSpan;
using icl_core::TimeStamp;
typedef __int128 i128;

namespace {
const int64_t G1 = 1000000000;
std::string s128(i128 v)
{
  if (v == 0) return "0";
  bool n = v < 0; std::string r;
  if (n) v = -v;
  while (v) { r.insert(r.begin(), char('0' + int(v % 10))); v /= 10; }
  return n ? "-" + r : r;
}
i128 val(const TimeSpan& t) { return i128(t.tsSec()) * G1 + t.tsNSec(); }
i128 val(const TimeStamp& t) { return i128(int64_t(t.tsSec())) * G1 + int32_t(t.tsNSec()); }

void span_is(const TimeSpan& t, i128 ns, const std::string& how)
{
  int64_t s = t.tsSec(); int64_t n = t.tsNSec();
  MON_CHECK(n > -G1 && n < G1 && !(s > 0 && n < 0) && !(s < 0 && n > 0), "normal",
            how << ": not normalised: " << s << "s " << n << "ns");
  MON_CHECK(val(t) == ns, "value", how << ": is " << s128(val(t)) << " ns, expected " << s128(ns));
  MON_CHECK(t.tsUSec() == int32_t(n / 1000), "usec-part", how << ": tsUSec " << t.tsUSec());
  MON_CHECK(t.toMSec() == int64_t(ns / 1000000), "to-msec", how << ": toMSec " << t.toMSec() << " of " << s128(ns));
  MON_CHECK(t.toUSec() == int64_t(ns / 1000), "to-usec", how << ": toUSec " << t.toUSec() << " of " << s128(ns));
  if (ns > -i128(9200000000ll) * G1 && ns < i128(9200000000ll) * G1)
    MON_CHECK(t.toNSec() == int64_t(ns), "to-nsec", how << ": toNSec " << t.toNSec() << " of " << s128(ns));
  MON_CHECK(((t.days() * 24 + t.hours()) * 60 + t.minutes()) * 60 + t.seconds() == int64_t(ns / G1), "parts",
            how << ": days/hours/minutes/seconds do not add up: " << t.days() << "/" << t.hours() << "/" << t.minutes() << "/" << t.seconds()
            << " of " << s128(ns));
  MON_CHECK(std::abs(t.hours()) < 24 && std::abs(t.minutes()) < 60 && std::abs(t.seconds()) < 60, "parts-range", how);
  MON_CHECK(t.milliSeconds() == n / 1000000 && t.microSeconds() == n / 1000 && t.nanoSeconds() == n % 1000, "subsec", how);
  struct timespec ts = t.timespec();
  MON_CHECK(i128(ts.tv_sec) * G1 + ts.tv_nsec == ns, "timespec", how);
}
void stamp_is(const TimeStamp& t, i128 ns, const std::string& how)
{
  MON_CHECK(t.tsNSec() < uint32_t(G1), "stamp-normal", how << ": tsNSec " << t.tsNSec());
  MON_CHECK(val(t) == ns, "stamp-value", how << ": is " << s128(val(t)) << " ns, expected " << s128(ns));
  MON_CHECK(t.tsUSec() == t.tsNSec() / 1000, "stamp-usec", how);
  struct timespec ts = t.timespec();
  MON_CHECK(i128(ts.tv_sec) * G1 + ts.tv_nsec == ns, "stamp-timespec", how);
  MON_CHECK(((t.days() * 24 + t.hours()) * 60 + t.minutes()) * 60 + t.seconds() == int64_t(ns / G1), "stamp-parts", how);
}

int64_t gen_sec(mon::Rng& r)
{
  switch (r.below(8))
  {
  case 0: return 0;
  case 1: return r.range(-2, 2);
  case 2: return r.range(-100, 100);
  case 3: return r.range(-90000, 90000);
  case 4: return r.range(-4000, 4000) * 3600 + r.range(-1, 1);
  case 5: return r.range(-5000000000ll, 5000000000ll);
  case 6: return r.range(-1, 1) * 2147483648ll + r.range(-2, 2);
  default: return r.range(-1000000000000ll, 1000000000000ll);
  }
}
int32_t gen_nsec(mon::Rng& r, bool wide)
{
  static const int32_t edge[] = { 0, 1, -1, 999999999, -999999999, 500000000, -500000000, 999999, 1000000, 1000, 999, 1000001, -1000, -1000000 };
  switch (r.below(wide ? 5 : 3))
  {
  case 0: return edge[r.below(sizeof edge / sizeof *edge)];
  case 1: return int32_t(r.range(-999999999, 999999999));
  case 2: return int32_t(r.range(-999, 999) * 1000000);
  case 3: return int32_t(r.range(-2147483647, 2147483647));
  default: return r.chance(50) ? 1000000000 : (r.chance(50) ? -1000000000 : 2000000000);
  }
}
TimeSpan gen_span(mon::Rng& r, i128& v, std::string& how)
{
  std::ostringstream os;
  TimeSpan t;
  switch (r.below(8))
  {
  case 0: { int64_t x = gen_sec(r); t.fromSec(x); v = i128(x) * G1; os << "fromSec(" << x << ")"; break; }
  case 1: { int64_t x = gen_sec(r) * 1000 + r.range(-999, 999); t.fromMSec(x); v = i128(x) * 1000000; os << "fromMSec(" << x << ")"; break; }
  case 2: { int64_t x = gen_sec(r) * 1000 + r.range(-999999, 999999); t.fromUSec(x); v = i128(x) * 1000; os << "fromUSec(" << x << ")"; break; }
  case 3: { int64_t x = gen_sec(r); t = TimeSpan::createFromSec(x); v = i128(x) * G1; os << "createFromSec(" << x << ")"; break; }
  case 4: { int64_t x = gen_sec(r) + r.range(-1500, 1500); t = TimeSpan::createFromMSec(x); v = i128(x) * 1000000; os << "createFromMSec(" << x << ")"; break; }
  case 5: { int64_t x = gen_sec(r) + r.range(-1500000, 1500000); t = TimeSpan::createFromUSec(x); v = i128(x) * 1000; os << "createFromUSec(" << x << ")"; break; }
  case 6:
  {
    struct timespec ts; ts.tv_sec = gen_sec(r); ts.tv_nsec = gen_nsec(r, false);
    t = TimeSpan(ts); v = i128(ts.tv_sec) * G1 + ts.tv_nsec; os << "TimeSpan(timespec{" << ts.tv_sec << "," << ts.tv_nsec << "})"; break;
  }
  default:
  {
    int64_t s = gen_sec(r); int32_t n = gen_nsec(r, true);
    t = TimeSpan(s, n); v = i128(s) * G1 + n; os << "TimeSpan(" << s << "," << n << ")";
  }
  }
  how = os.str();
  span_is(t, v, how);
  return t;
}
TimeStamp gen_stamp(mon::Rng& r, i128& v, std::string& how)
{
  uint64_t s = uint64_t(std::abs(gen_sec(r))); uint32_t n = uint32_t(std::abs(int64_t(gen_nsec(r, true))));
  std::ostringstream os;
  TimeStamp t;
  switch (r.below(3))
  {
  case 0: { t = TimeStamp(time_t(s)); n = 0; os << "TimeStamp(time_t " << s << ")"; break; }
  case 1: { if (r.chance(50)) n %= uint32_t(G1); struct timespec ts; ts.tv_sec = time_t(s); ts.tv_nsec = n; t = TimeStamp(ts); os << "TimeStamp(timespec{" << s << "," << n << "})"; break; }
  default: t = TimeStamp(s, n); os << "TimeStamp(" << s << "," << n << ")";
  }
  v = i128(s) * G1 + n;
  how = os.str();
  stamp_is(t, v, how);
  return t;
}
template <class X> void compare(const X& a, const X& b, i128 va, i128 vb, const std::string& how)
{
  MON_CHECK((a == b) == (va == vb) && (b == a) == (va == vb), "cmp-eq", how);
  MON_CHECK((a != b) == (va != vb), "cmp-ne", how);
  MON_CHECK((a < b) == (va < vb) && (b < a) == (vb < va), "cmp-lt", how);
  MON_CHECK((a > b) == (va > vb) && (b > a) == (vb > va), "cmp-gt", how);
  MON_CHECK((a <= b) == (va <= vb) && (b <= a) == (vb <= va), "cmp-le", how);
  MON_CHECK((a >= b) == (va >= vb) && (b >= a) == (vb >= va), "cmp-ge", how);
}
int sgn(i128 v) { return v < 0 ? -1 : v > 0; }
} // namespace

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  for (int k = 0; k < 20; ++k)
  {
    i128 va, vb, vt, vu; std::string ha, hb, ht, hu;
    TimeSpan a = gen_span(r, va, ha), b = gen_span(r, vb, hb);
    if (r.chance(20)) { b = a; vb = va; hb = ha; if (r.chance(50)) { b += TimeSpan(0, 1); vb += 1; hb += "+1ns"; } }
    std::string how = ha + " , " + hb;
    span_is(a + b, va + vb, how + " +");
    span_is(a - b, va - vb, how + " -");
    TimeSpan c = a; TimeSpan& rc = (c += b); span_is(c, va + vb, how + " +="); MON_CHECK(&rc == &c, "ref", how);
    c = a; c -= b; span_is(c, va - vb, how + " -=");
    span_is(abs(a), va < 0 ? -va : va, how + " abs");
    compare(a, b, va, vb, how);
    span_is(TimeSpan::cZERO, 0, "cZERO");
    if (((va % G1) + (vb % G1)) / G1 != 0) mon::stat("obs.carries");
    if (sgn(va) * sgn(vb) < 0) mon::stat("obs.mixed_signs");

    TimeStamp t = gen_stamp(r, vt, ht), u = gen_stamp(r, vu, hu);
    if (r.chance(20)) { u = t; vu = vt; hu = ht; if (r.chance(50)) { u += TimeSpan(0, 1); vu += 1; hu += "+1ns"; } }
    std::string hs = ht + " , " + hu + " , " + ha;
    compare(t, u, vt, vu, hs);
    span_is(t - u, vt - vu, hs + " stamp-stamp");
    if (vt + va >= 0)
    {
      stamp_is(t + a, vt + va, hs + " stamp+span");
      stamp_is(a + t, vt + va, hs + " span+stamp");
      TimeStamp x = t; TimeStamp& rx = (x += a); stamp_is(x, vt + va, hs + " stamp+=span"); MON_CHECK(&rx == &x, "ref", hs);
    }
    if (vt - va >= 0)
    {
      stamp_is(t - a, vt - va, hs + " stamp-span");
      TimeStamp x = t; x -= a; stamp_is(x, vt - va, hs + " stamp-=span");
      MON_CHECK(x + a == t && t - x == a, "inverse", hs);
    }
    mon::state(mon::Hash().add(uint64_t(sgn(va) + 1)).add(uint64_t(sgn(vb) + 1)).add(uint64_t(int64_t((va % G1 + vb % G1) / G1)))
               .add(uint64_t(int64_t((va % G1 - vb % G1) / G1))).add(uint64_t(sgn(vt - vu) + 1)).add(uint64_t(int64_t((vt % G1 + va % G1) / G1)))
               .add(ha.substr(0, 9)).add(hb.substr(0, 9)).add(ht.substr(0, 12)));
    if (mon::want_sample()) mon::sample(hs + " -> " + s128(vt + va));
  }
  // a chain of operations on one object
  {
    i128 v, w; std::string h, g; TimeSpan t = gen_span(r, v, h);
    std::string tr = h;
    for (int k = 0; k < 12; ++k)
    {
      TimeSpan x = gen_span(r, w, g);
      if (r.chance(50)) { t += x; v += w; tr += " += " + g; } else { t -= x; v -= w; tr += " -= " + g; }
      span_is(t, v, tr);
    }
    mon::stat("obs.chains");
  }
  // milliseconds and microseconds of the whole range
  for (int k = 0; k < 6; ++k)
  {
    int64_t x = int64_t(r.next()) >> r.below(24);
    if (x == std::numeric_limits<int64_t>::min()) ++x;
    std::ostringstream os; os << x;
    TimeSpan t; t.fromUSec(x);
    span_is(t, i128(x) * 1000, "fromUSec(" + os.str() + ")");
    span_is(TimeSpan::createFromUSec(x), i128(x) * 1000, "createFromUSec(" + os.str() + ")");
    t.fromMSec(x / 1000);
    span_is(t, i128(x / 1000) * 1000000, "fromMSec(" + os.str() + " / 1000)");
    span_is(TimeSpan::createFromMSec(x / 1000), i128(x / 1000) * 1000000, "createFromMSec(" + os.str() + " / 1000)");
    t.fromMSec(x / 1000 * 1000 / 1000);
    mon::stat("obs.wide_values");
  }
  // the clock
  {
    struct timespec c0, c1;
    clock_gettime(CLOCK_REALTIME, &c0);
    TimeStamp n; if (r.chance(50)) n = TimeStamp::now(); else n.fromNow();
    clock_gettime(CLOCK_REALTIME, &c1);
    i128 b0 = i128(c0.tv_sec) * G1 + c0.tv_nsec - 1000, b1 = i128(c1.tv_sec) * G1 + c1.tv_nsec;
    MON_CHECK(val(n) >= b0 && val(n) <= b1, "now", "now() = " << s128(val(n)) << " not in [" << s128(b0) << "," << s128(b1) << "]");
    uint64_t ms = r.chance(30) ? r.below(3000) : r.below(r.chance(50) ? 1000000000000ull : 1000000000000000000ull);
    clock_gettime(CLOCK_REALTIME, &c0);
    TimeStamp f = TimeStamp::futureMSec(ms);
    clock_gettime(CLOCK_REALTIME, &c1);
    b0 = i128(c0.tv_sec) * G1 + c0.tv_nsec - 1000 + i128(ms) * 1000000; b1 = i128(c1.tv_sec) * G1 + c1.tv_nsec + i128(ms) * 1000000;
    stamp_is(f, val(f), "futureMSec");
    MON_CHECK(val(f) >= b0 && val(f) <= b1, "future", "futureMSec(" << ms << ") = " << s128(val(f)) << " not in [" << s128(b0) << "," << s128(b1) << "]");
    MON_CHECK(TimeStamp::maxTime() > f && TimeStamp::cZERO < n && val(TimeStamp::cZERO) == 0 && val(TimeStamp()) == 0, "bounds", "maxTime/cZERO");
    mon::stat("obs.clock_reads");
  }
}
