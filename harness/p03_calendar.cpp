// P03: calendar text <-> time stamp, ptime conversion, hostile text, concurrent formatting.
// modes: exact (single thread), hostile (arbitrary text and instants), threads
#include "mon.h"
#include <time.h>
#include <thread>
#include <boost/lexical_cast.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include "icl_core/TimeStamp.h"

using icl_core::TimeStamp;

namespace {
struct Civil { int64_t y; int m, d, H, M, S; };
// independent calendar arithmetic (days from the civil date, 400-year eras)
int64_t days_from_civil(int64_t y, int m, int d)
{
  y -= m <= 2;
  int64_t era = (y >= 0 ? y : y - 399) / 400;
  unsigned yoe = unsigned(y - era * 400);
  unsigned doy = (153u * unsigned(m + (m > 2 ? -3 : 9)) + 2) / 5 + unsigned(d) - 1;
  unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + int64_t(doe) - 719468;
}
Civil civil(int64_t secs)
{
  int64_t z = secs / 86400, rem = secs % 86400;
  Civil c; c.H = int(rem / 3600); c.M = int(rem % 3600 / 60); c.S = int(rem % 60);
  z += 719468;
  int64_t era = z / 146097;
  unsigned doe = unsigned(z - era * 146097);
  unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  unsigned mp = (5 * doy + 2) / 153;
  c.d = int(doy - (153 * mp + 2) / 5 + 1);
  c.m = int(mp < 10 ? mp + 3 : mp - 9);
  c.y = int64_t(yoe) + era * 400 + (c.m <= 2);
  return c;
}
std::string fmt(const char *f, const Civil& c)
{
  char b[64];
  snprintf(b, sizeof b, f, int(c.y), c.m, c.d, c.H, c.M, c.S);
  return b;
}
const int64_t LAST = 253402300799ll;    // 9999-12-31T23:59:59

int64_t gen_instant(mon::Rng& r)
{
  switch (r.below(6))
  {
  case 0:   // around the end of a month or a leap day
  {
    int64_t y = r.range(1970, 9999);
    static const int64_t special[] = { 1972, 1999, 2000, 2038, 2100, 2200, 2300, 2400, 2800, 3000, 4000, 9996, 9999, 2096, 2104 };
    if (r.chance(50)) y = special[r.below(15)];
    int m = int(r.range(1, 12));
    if (r.chance(40)) m = r.chance(50) ? 3 : 1;
    int64_t s = days_from_civil(y, m, 1) * 86400 + r.range(-2, 1) + (r.chance(30) ? r.range(-1, 1) * 86400 : 0);
    return std::min(LAST, std::max<int64_t>(0, s));
  }
  case 1: return r.range(0, 3) * 2147483647ll / 1 % (LAST + 1);
  case 2: return r.range(0, 4000000000ll);
  default: return r.range(0, LAST);
  }
}
uint32_t gen_frac(mon::Rng& r)
{
  static const uint32_t e[] = { 0, 1, 9, 10, 999999999, 100000000, 123456789, 500000000, 1000, 999, 1000000, 100 };
  return r.chance(50) ? e[r.below(12)] : uint32_t(r.below(1000000000));
}
const char *zones[] = { "UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NPT-5:45", "XXX12", "YYY-14" };
const char *formats[] = { "%Y-%m-%d %H:%M:%S", "%d.%m.%y", "%j %U %w", "%s", "%H%M%S%%", "", "plain text", "%A %B %p %I", "%e|%k|%l|%C|%g|%G|%V|%u|%Z|%z", ".%Y-%m-%d" };

void exact_one(mon::Rng& r)
{
  int64_t s = gen_instant(r); uint32_t n = gen_frac(r);
  TimeStamp t(uint64_t(s), n);
  Civil c = civil(s);
  std::string day = fmt("%04d-%02d-%02d %02d:%02d:%02d", c), basic = fmt("%04d%02d%02dT%02d%02d%02d", c);
  char frac[16]; snprintf(frac, sizeof frac, ",%09u", n);
  std::ostringstream os; os << "instant " << s << "." << n << " = " << day;
  MON_CHECK(t.formatIso8601UTC() == day, "iso-utc", os.str() << ": formatIso8601UTC() = " << mon::q(t.formatIso8601UTC()));
  MON_CHECK(t.formatIso8601BasicUTC() == basic + frac, "basic-utc", os.str() << ": formatIso8601BasicUTC() = " << mon::q(t.formatIso8601BasicUTC()));
  // back
  std::string text = basic + frac;
  TimeStamp b = TimeStamp::fromIso8601BasicUTC(text);
  MON_CHECK(b == t, "parse", os.str() << ": " << text << " read as " << b.tsSec() << "." << b.tsNSec());
  // shorter fractions
  size_t digits = size_t(r.range(1, 9));
  uint32_t p = 1; for (size_t i = digits; i < 9; ++i) p *= 10;
  b = TimeStamp::fromIso8601BasicUTC(text.substr(0, 16 + digits));
  MON_CHECK(int64_t(b.tsSec()) == s && b.tsNSec() == n / p * p, "parse-frac", os.str() << ": " << text.substr(0, 16 + digits) << " read as " << b.tsSec() << "." << b.tsNSec());
  b = TimeStamp::fromIso8601BasicUTC(basic);
  MON_CHECK(int64_t(b.tsSec()) == s && b.tsNSec() == 0, "parse-nofrac", os.str() << ": " << basic << " read as " << b.tsSec() << "." << b.tsNSec());
  // reduced precision names the beginning of the year, month, day, hour or minute
  {
    static const size_t len[] = { 4, 6, 8, 11, 13 };
    const size_t l = len[r.below(5)];
    Civil e = c;
    e.S = 0; if (l < 13) e.M = 0; if (l < 11) e.H = 0; if (l < 8) e.d = 1; if (l < 6) e.m = 1;
    MON_CHECK(fmt("%04d%02d%02dT%02d%02d%02d", civil(TimeStamp::fromIso8601BasicUTC(basic.substr(0, l)).tsSec())) == fmt("%04d%02d%02dT%02d%02d%02d", e)
              && TimeStamp::fromIso8601BasicUTC(basic.substr(0, l)).tsNSec() == 0, "parse-reduced",
              os.str() << ": " << basic.substr(0, l) << " read as " << TimeStamp::fromIso8601BasicUTC(basic.substr(0, l)).tsSec());
    mon::stat("obs.reduced");
  }
  // ptime
  {
    using namespace boost::posix_time;
    uint32_t us = n / 1000;
    ptime pt(boost::gregorian::date((unsigned short)c.y, (unsigned short)c.m, (unsigned short)c.d), hours(c.H) + minutes(c.M) + seconds(c.S) + microseconds(us));
    TimeStamp x(pt), y; y = pt;
    MON_CHECK(int64_t(x.tsSec()) == s && x.tsNSec() == us * 1000, "ptime", os.str() << ": from ptime " << x.tsSec() << "." << x.tsNSec());
    MON_CHECK(x == y, "ptime-assign", os.str() << ": assigned from ptime " << y.tsSec() << "." << y.tsNSec());
  }
  // any format, UTC and local
  const char *f = formats[r.below(sizeof formats / sizeof *formats)];
  time_t tt = time_t(s); struct tm tmv; char want[256], got[256];
  memset(got, 'x', sizeof got);
  gmtime_r(&tt, &tmv);
  size_t len = strftime(want, sizeof want, f, &tmv); want[len] = 0;
  if (len > 0 || *f == 0)
  {
    t.strfTime(got, len + 1, f);
    MON_CHECK(std::string(got, strnlen(got, sizeof got)) == want, "strf-utc", os.str() << ": strfTime(" << f << ") = " << mon::q(std::string(got, strnlen(got, sizeof got))) << " expected " << mon::q(want));
    MON_CHECK(got[len + 1] == 'x', "strf-bounds", os.str() << ": wrote beyond the given length");
  }
  localtime_r(&tt, &tmv);
  len = strftime(want, sizeof want, f, &tmv); want[len] = 0;
  if (len > 0 || *f == 0)
  {
    memset(got, 'x', sizeof got);
    t.strfLocaltime(got, len + 1, f);
    MON_CHECK(std::string(got, strnlen(got, sizeof got)) == want, "strf-local", os.str() << ": strfLocaltime(" << f << ") = " << mon::q(std::string(got, strnlen(got, sizeof got))) << " expected " << mon::q(want));
  }
  if (s < LAST - 86400 * 2)
  {
    strftime(want, sizeof want, "%Y-%m-%d %H:%M:%S", &tmv);
    MON_CHECK(t.formatIso8601() == want, "iso-local", os.str() << ": formatIso8601() = " << mon::q(t.formatIso8601()) << " expected " << want);
    strftime(want, sizeof want, "%Y%m%dT%H%M%S", &tmv);
    MON_CHECK(t.formatIso8601Basic() == std::string(want) + frac, "basic-local", os.str() << ": formatIso8601Basic() = " << mon::q(t.formatIso8601Basic()));
  }
  mon::state(mon::Hash().add(uint64_t(c.y % 400)).add(uint64_t(c.m)).add(uint64_t(c.d > 27 ? c.d : 0)).add(uint64_t(s >= 4294967296ll)).add(digits));
  mon::stat("obs.instants");
  if (c.m == 2 && c.d == 29) mon::stat("obs.leap_days");
  if (mon::want_sample()) mon::sample(os.str());
}

void exact(uint64_t, mon::Rng& r)
{
  setenv("TZ", zones[r.below(sizeof zones / sizeof *zones)], 1);
  tzset();
  mon::phase("calendar");
  for (int k = 0; k < 30; ++k) exact_one(r);
}

void hostile(mon::Rng& r)
{
  mon::phase("hostile-text");
  for (int k = 0; k < 30; ++k)
  {
    std::string text;
    switch (r.below(4))
    {
    case 0: text = r.str("0123456789T,-+ .:Zx", 0, 30); break;
    case 1: text = r.str("0123456789", 0, 20); break;
    default:
    {
      Civil c = civil(gen_instant(r));
      text = fmt("%04d%02d%02dT%02d%02d%02d", c) + "," + r.str("0123456789", 0, 12);
      size_t edits = 1 + r.below(3);
      for (size_t e = 0; e < edits && !text.empty(); ++e)
      {
        size_t p = r.below(text.size());
        switch (r.below(4))
        {
        case 0: text[p] = "0123456789-+ T,\xff"[r.below(16)]; break;
        case 1: text.erase(p, 1 + r.below(3)); break;
        case 2: text.insert(p, r.str("0123456789-", 1, 3)); break;
        default: text = text.substr(0, p);
        }
      }
    }
    }
    mon::phase("fromIso8601BasicUTC " + text);
    bool threw = false;
    TimeStamp t;
    try { t = TimeStamp::fromIso8601BasicUTC(text); }
    catch (const std::exception&) { threw = true; }
    mon::stat(threw ? "obs.text_refused" : "obs.text_read");
    mon::state(mon::Hash().add(threw).add(text.size()).add(uint64_t(t.tsSec() % 12)));
    // whatever time stamp came out can be formatted
    mon::phase("format of an arbitrary instant");
    if (r.chance(30)) t = TimeStamp(r.chance(50) ? r.next() >> 1 : uint64_t(LAST) + r.below(100000), uint32_t(r.below(1000000000)));
    std::string a = t.formatIso8601UTC() + t.formatIso8601() + t.formatIso8601Basic() + t.formatIso8601BasicUTC();
    for (size_t i = 0; i < a.size(); ++i)
      MON_CHECK((unsigned char)a[i] >= 32 && (unsigned char)a[i] < 127, "garbage-text", "text of instant " << t.tsSec() << " has foreign bytes: " << mon::q(a));
  }
}

void threads(mon::Rng& r)
{
  mon::phase("concurrent-format");
  size_t n = 2 + r.below(3);
  std::atomic<int> go(0);
  std::vector<std::thread> th;
  std::vector<uint64_t> seeds;
  for (size_t i = 0; i < n; ++i) seeds.push_back(r.next());
  for (size_t i = 0; i < n; ++i)
    th.push_back(std::thread([&, i]() {
      mon::Rng q(seeds[i]);
      ++go;
      while (go.load() < int(n)) { }
      for (int k = 0; k < 40; ++k)
      {
        int64_t s = gen_instant(q); uint32_t f = gen_frac(q);
        TimeStamp t(uint64_t(s), f);
        Civil c = civil(s);
        char frac[16]; snprintf(frac, sizeof frac, ",%09u", f);
        std::string want = fmt("%04d-%02d-%02d %02d:%02d:%02d", c);
        std::string wantb = fmt("%04d%02d%02dT%02d%02d%02d", c) + frac;
        std::string got, expected = want;
        switch (q.below(5))
        {
        case 0: got = t.formatIso8601UTC(); break;
        case 1: got = t.formatIso8601(); break;            // the zone is UTC in this mode
        case 2: { char b[32]; t.strfLocaltime(b, sizeof b, "%Y-%m-%d %H:%M:%S"); got = b; break; }
        case 3: got = t.formatIso8601BasicUTC(); expected = wantb; break;
        default: got = t.formatIso8601Basic(); expected = wantb;
        }
        MON_NOTE(got == expected, "concurrent", "thread " << i << " formatted instant " << s << " as " << mon::q(got) << " expected " << expected);
        TimeStamp b = TimeStamp::fromIso8601BasicUTC(wantb);
        MON_NOTE(b == t, "concurrent-parse", wantb);
        mon::state(mon::Hash().add(n).add(uint64_t(s % 1009)));
      }
    }));
  for (size_t i = 0; i < n; ++i) th[i].join();
  mon::stat("obs.concurrent_rounds");
}
} // namespace

void mon::setup() { setenv("TZ", "UTC", 1); tzset(); }
void mon::teardown() { }
void mon::run_case(uint64_t index, Rng& r)
{
  if (cfg().mode == "threads") threads(r);
  else if (cfg().mode == "hostile") hostile(r);
  else exact(index, r);
}
