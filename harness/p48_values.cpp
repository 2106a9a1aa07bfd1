// P48: values streamed into a message appear with their value.
#include "mon_log.h"
#include <limits>
#include <math.h>
#include <Eigen/Core>
#include "icl_core_config/Config.h"
using logmon::Sink;
typedef __int128 i128;
static const int64_t G1 = 1000000000;

// a type of the application which can be written to C++ streams
struct Own { int a; std::string b; };
static std::ostream& operator << (std::ostream& o, const Own& x) { return o << "<" << x.a << ":" << x.b << ">"; }
DECLARE_LOG_STREAM_OPERATOR(Own)
REGISTER_LOG_STREAM_OPERATOR(Own)

static Sink *sink;
static il::LogStream *stream;
static const size_t SAFE = 1900;      // shorter messages fit whatever the exact limit is

// total of the terms of a printed span in ns; a minus sign holds for everything that follows it
static bool total(const std::string& s, i128& sum)
{
  sum = 0;
  int sign = 1;
  size_t i = 0, terms = 0;
  while (i < s.size())
  {
    if (s[i] == '-') { sign = -1; ++i; }
    if (i >= s.size() || !isdigit((unsigned char)s[i])) return false;
    i128 v = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0');
    std::string unit;
    while (i < s.size() && isalpha((unsigned char)s[i])) unit += s[i++];
    i128 f;
    if (unit == "h") f = i128(3600) * G1;
    else if (unit == "m") f = i128(60) * G1;
    else if (unit == "s") f = G1;
    else if (unit == "ms") f = 1000000;
    else if (unit == "us") f = 1000;
    else if (unit == "ns") f = 1;
    else return false;
    sum += sign * v * f;
    ++terms;
  }
  return terms > 0;
}

static std::string dec(i128 v)
{
  if (v == 0) return "0";
  const bool neg = v < 0;
  std::string s;
  while (v) { int d = int(v % 10); s = char('0' + (d < 0 ? -d : d)) + s; v /= 10; }
  return neg ? "-" + s : s;
}
static std::string f_text(double v)
{
  int n = snprintf(NULL, 0, "%f", v);
  std::string s(size_t(n) + 1, 0);
  snprintf(&s[0], s.size(), "%f", v);
  s.resize(size_t(n));
  return s;
}
template <class T> T integer(mon::Rng& r)
{
  switch (r.below(6))
  {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::min();
    case 2: return T(r.range(0, 12));
    case 3: return T(-r.range(0, 12));
    case 4: { uint64_t p = 1; for (int i = int(r.range(0, 19)); i > 0; --i) p *= 10; return T(p - r.below(2)); }
    default: return T(r.next() >> r.below(64));
  }
}
static double real(mon::Rng& r)
{
  switch (r.below(8))
  {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return double(r.range(-1000000, 1000000)) / 1000;
    case 3: { static const double e[] = { 1.7976931348623157e308, -1.7976931348623157e308, 4.9e-324, 1e100, -1e99, 1e92, 1e93, 1e91, 0.0000005, 9.9999995, -0.9999999, 1e15 }; return e[r.below(12)]; }
    case 4: { static const double e[] = { INFINITY, -INFINITY, NAN }; return e[r.below(3)]; }
    case 5: return ldexp(r.unit() * 2 - 1, int(r.range(-1074, 1023)));
    case 6: return double(int64_t(r.next()));
    default: return r.unit();
  }
}

// One message of which the pieces and the text they should give are collected side by side.
struct Probe
{
  il::ThreadStream& t;
  std::string want;
  std::string kinds;
  explicit Probe(il::LogLevel l) : t(stream->threadStream(l)) { }
  template <class T> void number(const char *kind, T v, const std::string& s) { t << v; want += s; kinds += kind; kinds += ' '; mon::stat(std::string("obs.") + kind); }
};

static std::string take(const char *what)
{
  MON_CHECK(sink->got.size() == 1, std::string("delivery:") + what, sink->got.size() << " messages were delivered for one");
  const std::string s = sink->got[0].text;
  sink->got.clear();
  return s;
}
static void verdict(const std::string& got, const Probe& p)
{
  const std::string full = p.want + "\n";
  if (full.size() <= SAFE)
  {
    if (got == full) return;
    // the first value that is wrong names the violation
    size_t i = 0;
    while (i < got.size() && i < full.size() && got[i] == full[i]) ++i;
    std::istringstream k(p.kinds);
    std::string kind = "text";
    k >> kind;
    mon::viol("value:" + (p.kinds.find(' ') == p.kinds.size() - 1 ? kind : std::string("sequence")), "the values (" + p.kinds + ") give " + mon::q(got.substr(i, 100)) + " instead of " + mon::q(full.substr(i, 100)) + " after " + mon::q(full.substr(i > 60 ? i - 60 : 0, i > 60 ? 60 : i)));
  }
  else
  {
    MON_CHECK(got.size() >= SAFE && got.size() <= 2048, "length", "a message of " << full.size() << " characters is delivered with " << got.size());
    const std::string body = got.substr(0, got.size() - 1);
    MON_CHECK(got[got.size() - 1] == '\n', "no-newline", "the end of line of a message of " << full.size() << " characters is missing");
    size_t at = 0;
    while (at < body.size() && body[at] == full[at]) ++at;
    MON_CHECK(at == body.size(), "not-a-prefix", "a message of " << full.size() << " characters is not delivered as its beginning but differs from character " << at << " of " << body.size() << " on: "
              << mon::q(body.substr(at, 40)) << " instead of " << mon::q(full.substr(at, 40)) << " after " << mon::q(full.substr(at > 60 ? at - 60 : 0, at > 60 ? 60 : at)));
    mon::stat("obs.truncated");
  }
}

static void one(Probe& p, mon::Rng& r, int only)
{
  switch (only < 0 ? int(r.below(19)) : only)
  {
    case 0: { uint8_t v = integer<uint8_t>(r); p.number("uint8", v, dec(v)); break; }
    case 1: { uint16_t v = integer<uint16_t>(r); p.number("uint16", v, dec(v)); break; }
    case 2: { uint32_t v = integer<uint32_t>(r); p.number("uint32", v, dec(v)); break; }
    case 3: { uint64_t v = integer<uint64_t>(r); p.number("uint64", v, dec(i128(v))); break; }
    case 4: { int8_t v = integer<int8_t>(r); p.number("int8", v, dec(v)); break; }
    case 5: { int16_t v = integer<int16_t>(r); p.number("int16", v, dec(v)); break; }
    case 6: { int32_t v = integer<int32_t>(r); p.number("int32", v, dec(v)); break; }
    case 7: { int64_t v = integer<int64_t>(r); p.number("int64", v, dec(v)); break; }
    case 8: { double v = real(r); p.number("double", v, f_text(v)); break; }
    case 9: { float v = float(real(r)); p.number("float", v, f_text(double(v))); break; }
    case 10: { bool v = r.chance(50); p.number("bool", v, v ? "True" : "False"); break; }
    case 11: { void *v = (void *)uintptr_t(r.chance(20) ? 0 : r.next() >> r.below(64)); char b[40]; snprintf(b, sizeof b, "%p", v); p.number("pointer", v, b); break; }
    case 12: case 13:
    {
      std::string s = r.str("abc %s%n\\\"'\xc3\xa4\n", 0, r.chance(10) ? 2500 : 30);
      if (r.chance(50)) p.number("string", s, s);
      else
      {
        char *c = (char *)malloc(s.size() + 1);        // exactly as long as it is
        memcpy(c, s.c_str(), s.size() + 1);
        p.number("cstring", (const char *)c, s);
        memset(c, '?', s.size());
        free(c);
      }
      break;
    }
    case 14:
    {
      const int64_t sec = r.chance(20) ? r.range(-60000000000ll, 0) : r.range(0, 250000000000ll), ns = sec < 0 ? 0 : r.range(0, 999999999);   // fractions of seconds before 1970 may be cut either way
      time_t t = time_t(sec); struct tm tm; localtime_r(&t, &tm);
      if (tm.tm_year + 1900 < 1000 || tm.tm_year + 1900 > 9999) break;
      char b[60]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm);
      p.number("stamp", icl_core::TimeStamp(sec, uint32_t(ns)), b);
      break;
    }
    case 15:
    {
      Eigen::MatrixXd m(r.range(0, 4), r.range(0, 4));
      std::string w = "[";
      for (int c = 0; c < m.cols(); ++c)
      {
        for (int k = 0; k < m.rows(); ++k) { m(k, c) = real(r); w += " " + f_text(m(k, c)); }
        if (c + 1 < m.cols()) w += " ;";
      }
      p.t << m; p.want += w + " ]"; p.kinds += "matrix "; mon::stat("obs.matrix");
      break;
    }
    case 16:
    {
      Eigen::Matrix<int, 3, 1> m(integer<int32_t>(r), integer<int32_t>(r), integer<int32_t>(r));
      p.t << m; p.want += "[ " + dec(m(0)) + " " + dec(m(1)) + " " + dec(m(2)) + " ]"; p.kinds += "vector "; mon::stat("obs.matrix");
      break;
    }
    case 17:
    {
      // identities are written like threadInfo() does: as the number the system knows them by
      const pthread_t v = r.chance(40) ? pthread_self() : pthread_t(integer<uint64_t>(r));
      p.number("thread", icl_core::ThreadId(v), dec(i128(uint64_t(v))));
      break;
    }
    case 18:
    {
      Own x = { int(integer<int32_t>(r)), r.str("abc %s", 0, r.chance(10) ? 2500 : 30) };
      std::ostringstream o; o << x;
      p.number("own", x, o.str());
      break;
    }
  }
}

void mon::run_case(uint64_t, Rng& r)
{
  static const char *zones[] = { "UTC", "Europe/Berlin", "America/St_Johns" };
  setenv("TZ", zones[r.below(3)], 1); tzset();
  const il::LogLevel level = il::LogLevel(r.below(5));
  sink->got.clear();
  // every type on its own
  for (int k = 0; k < 19; ++k)
  {
    Probe p(level);
    one(p, r, k);
    p.t << il::endl;
    const std::string g = take("single");
    verdict(g, p);
    mon::state(mon::Hash().add(uint64_t(k)).add(p.want.size()).add(p.want));
    if (mon::want_sample()) mon::sample(p.kinds + ": " + mon::q(g, 200));
  }
  // several in a row
  for (int n = int(r.range(1, 4)); n > 0; --n)
  {
    Probe p(level);
    const int k = int(r.range(0, r.chance(20) ? 200 : 12));
    for (int i = 0; i < k; ++i) { one(p, r, -1); if (r.chance(60)) { p.t << " "; p.want += " "; } }
    p.t << il::endl;
    verdict(take("sequence"), p);
    mon::stat("obs.sequences");
    mon::state(mon::Hash().add(p.kinds).add(p.want.size() > SAFE));
  }
  // up to the limit with every value at the edge
  {
    Probe p(level);
    const size_t fill = size_t(r.range(2000, 2060));
    std::string s(fill, 'x');
    p.number("string", s, s);
    for (int i = 0; i < 3; ++i) one(p, r, -1);
    p.t << il::endl;
    verdict(take("edge"), p);
    mon::stat("obs.edges");
  }
  // spans
  for (int i = 0; i < 4; ++i)
  {
    static const int64_t secs[] = { 0, 1, 59, 60, 61, 3599, 3600, 3601, 7200, 86400, 90061 };
    int64_t sec = r.chance(50) ? secs[r.below(11)] : r.range(0, r.chance(50) ? 100000 : 4000000000000ll);
    int64_t ns = r.chance(30) ? 0 : r.chance(30) ? r.range(0, 999) * 1000000 : r.chance(40) ? r.range(0, 999999) * 1000 : r.range(0, 999999999);
    if (r.chance(35)) { sec = -sec; ns = -ns; }
    Probe p(level);
    p.t << "<" << icl_core::TimeSpan(sec, ns) << ">" << il::endl;
    const std::string g = take("span");
    i128 sum = 0;
    std::ostringstream o; o << sec << " s " << ns << " ns";
    MON_CHECK(g.size() > 3 && g[0] == '<' && g.compare(g.size() - 2, 2, ">\n") == 0 && total(g.substr(1, g.size() - 3), sum) && sum == i128(sec) * G1 + ns, "value:span",
              "a span of " << o.str() << " is printed as " << mon::q(g));
    mon::stat("obs.spans");
    mon::state(mon::Hash().add(123).add(g));
  }
  // printf
  for (int i = 0; i < 2; ++i)
  {
    Probe p(level);
    const std::string s = r.str("abc %s", 0, r.chance(20) ? 2600 : 60);
    const int64_t a = integer<int64_t>(r);
    const double d = real(r);
    std::string before;
    if (r.chance(30)) { before = r.str("xyz", 0, r.chance(30) ? 2100 : 20); p.t << before; }
    p.t.printf("%s|%lld|%.3e|%5d", s.c_str(), (long long)a, d, 42);
    const std::string g = take("printf");
    char tail[80]; snprintf(tail, sizeof tail, "|%lld|%.3e|%5d", (long long)a, d, 42);
    const std::string full = before + s + tail;
    MON_CHECK(full.size() <= SAFE ? g == full : g.size() >= SAFE && g.size() <= 2048 && full.compare(0, g.size(), g) == 0, "value:printf", "printf gives " << mon::q(g, 500) << " instead of " << mon::q(full, 500));
    mon::stat("obs.printf");
  }
}
void mon::setup()
{
  icl_core::config::setValue("/IclCore/Logging/OutputStream1/OutputStreamName", "None");
  il::LoggingManager::instance().initialize();
  sink = new Sink("sink", false);
  stream = new il::LogStream("Values", il::eLL_TRACE);
  stream->addOutputStream(sink);
}
void mon::teardown() { stream->removeOutputStream(sink); delete stream; delete sink; il::LoggingManager::instance().shutdown(); }
