// P04: scaling and printing of TimeSpan.
#include "mon.h"
#include <math.h>
#include "icl_core/TimeSpan.h"

using icl_core::TimeSpan;
typedef __int128 i128;

namespace {
const int64_t G1 = 1000000000;

// total of the terms of a printed span in ns; a minus sign holds for everything that follows it
bool total(const std::string& s, i128& sum)
{
  sum = 0;
  int sign = 1;
  size_t i = 0, terms = 0;
  while (i < s.size())
  {
    if (s[i] == '-') { sign = -1; ++i; }
    if (i >= s.size() || !isdigit((unsigned char)s[i])) return false;
    i128 v = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0');
    std::string unit;
    while (i < s.size() && isalpha((unsigned char)s[i])) unit += s[i++];
    i128 f;
    if (unit == "h") f = i128(3600) * G1;
    else if (unit == "m") f = i128(60) * G1;
    else if (unit == "s") f = G1;
    else if (unit == "ms") f = 1000000;
    else if (unit == "us") f = 1000;
    else if (unit == "ns") f = 1;
    else return false;
    sum += sign * v * f;
    ++terms;
  }
  return terms > 0;
}
std::string s128(i128 v) { char b[64]; snprintf(b, sizeof b, "%lld.%09lld", (long long)(v / G1), (long long)(v < 0 ? -(v % G1) : v % G1)); return b; }

int64_t gen_ns(mon::Rng& r, int64_t maxsec)
{
  int64_t sec;
  switch (r.below(6))
  {
  case 0: sec = 0; break;
  case 1: sec = r.range(0, 5); break;
  case 2: { static const int64_t e[] = { 59, 60, 61, 3599, 3600, 3601, 3660, 7200, 86400, 90061 }; sec = e[r.below(10)]; break; }
  case 3: sec = r.range(0, 100000); break;
  default: sec = r.range(0, maxsec);
  }
  int64_t ns;
  switch (r.below(5))
  {
  case 0: ns = 0; break;
  case 1: ns = r.range(0, 999) * 1000000; break;
  case 2: ns = r.range(0, 999999) * 1000; break;
  case 3: ns = r.range(0, 3) == 0 ? 1 : 999999999; break;
  default: ns = r.range(0, 999999999);
  }
  int64_t v = sec * G1 + ns;
  return r.chance(35) ? -v : v;
}
} // namespace

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  for (int k = 0; k < 40; ++k)
  {
    {
      int64_t v = gen_ns(r, 9000000000ll);
      TimeSpan t(v / G1, int32_t(v % G1));
      std::ostringstream os; os << t;
      i128 sum;
      MON_CHECK(total(os.str(), sum), "print-syntax", "span of " << s128(v) << " s printed as " << mon::q(os.str()));
      MON_CHECK(sum == v, "print-value", "span of " << s128(v) << " s printed as " << mon::q(os.str()) << " which is " << s128(sum) << " s");
      mon::stat("obs.printed");
      int64_t a = v < 0 ? -v : v;
      mon::state(mon::Hash().add(v < 0).add(a >= 3600 * G1).add(a % (3600 * G1) >= 60 * G1).add(a % (60 * G1) >= G1).add(a % G1 == 0 ? 0 : a % 1000000 == 0 ? 1 : a % 1000 == 0 ? 2 : 3).add(a / G1 < 10000 ? a / G1 : 10001));
      if (mon::want_sample()) mon::sample(s128(v) + " s printed as " + os.str());
    }
    {
      int64_t v = gen_ns(r, r.chance(50) ? 100 : 20000000);
      TimeSpan t(v / G1, int32_t(v % G1));
      double f;
      switch (r.below(6))
      {
      case 0: { static const double e[] = { 1, 2, 0.5, 3, 10, 0.1, 1000, 0.001, 1.5, 0.25, 60, 3600 }; f = e[r.below(12)]; break; }
      case 1: f = double(r.range(1, 50)); break;
      case 2: f = 1.0 / double(r.range(1, 1000)); break;
      case 3: f = exp(r.unit() * 10 - 5); break;
      default: f = 0.001 + r.unit() * 4;
      }
      if (r.chance(25)) f = -f;
      for (int op = 0; op < 2; ++op)
      {
        long double want = op == 0 ? (long double)v * f : (long double)v / f;
        if (fabsl(want) > 8.0e18L) { mon::trivial(); continue; }
        TimeSpan x = op == 0 ? t * f : t / f;
        i128 got = i128(x.tsSec()) * G1 + x.tsNSec();
        long double err = fabsl((long double)got - want);
        long double tol = 2.0L + fabsl(want) * 2e-15L;
        std::ostringstream os; os.precision(17); os << s128(v) << " s " << (op == 0 ? "* " : "/ ") << f;
        MON_CHECK(err <= tol, op == 0 ? "multiply" : "divide", os.str() << " = " << s128(got) << " s, off by " << double(err) << " ns");
        mon::stat("obs.scaled");
        mon::state(mon::Hash().add(uint64_t(1000 + op)).add(v < 0).add(f < 0).add(uint64_t(int64_t(log2(fabs(f))) + 100)).add(uint64_t(v ? int64_t(log2(fabs(double(v)))) : 99)));
      }
    }
  }
}
