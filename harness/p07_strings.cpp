// P07: string helpers against independent definitions.
#include "mon.h"
#include <math.h>
#include "icl_core/StringHelper.h"
using icl_core::String;
typedef std::vector<String> Parts;

static bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }

static String text(mon::Rng& r, size_t maxlen)
{
  static const char *alpha[] = { "ab,", "a", ",;", "aA zZ\t\n", "0123456789.-", "\x80\xff\xe4 a\x7f", ",," };
  if (r.chance(8)) return "";
  String al = alpha[r.below(7)];
  if (r.chance(10)) al += '\0';
  return r.str(al, 0, maxlen);
}

static void splitting(mon::Rng& r)
{
  static const char *delims[] = { ",", ";", ",,", "ab", "aa", " ", "aba", "\t\n", "\xff" };
  const String d = r.chance(85) ? String(delims[r.below(9)]) : text(r, 3);
  String s = text(r, r.chance(10) ? 300 : 14);
  if (r.chance(50))   // make sure that delimiters occur, at the ends and next to each other as well
  {
    size_t n = r.below(5);
    for (size_t i = 0; i < n; ++i) s.insert(r.chance(30) ? (r.chance(50) ? 0 : s.size()) : r.below(s.size() + 1), d);
  }
  mon::phase("split");
  const Parts p = icl_core::split(s, d);
  const String back = icl_core::join(p, d);
  const std::string ctx = "split(" + mon::q(s) + ", " + mon::q(d) + ") gave " + std::to_string(p.size()) + " parts, joined " + mon::q(back);
  MON_CHECK(!p.empty(), "split-nothing", ctx);
  if (d.empty())
  {
    MON_CHECK(back == s, "split-empty-delimiter", ctx);
    mon::stat("obs.empty_delimiter");
    mon::trivial();
    return;
  }
  // the fields, found by hand from the left
  Parts want;
  size_t at = 0;
  for (;;)
  {
    size_t e = at;
    while (e + d.size() <= s.size() && s.compare(e, d.size(), d) != 0) ++e;
    if (e + d.size() > s.size()) { want.push_back(s.substr(at)); break; }
    want.push_back(s.substr(at, e - at));
    at = e + d.size();
  }
  const bool trailing = want.back().empty() && want.size() > 1;
  if (trailing) want.pop_back();
  MON_CHECK(p == want, "split-fields", ctx << ", expected " << want.size() << " fields");
  MON_CHECK(back == (trailing ? s.substr(0, s.size() - d.size()) : s), "split-join", ctx);
  for (size_t i = 0; i < p.size(); ++i) MON_CHECK(p[i].find(d) == String::npos, "split-part", ctx << ", part " << i << " contains the delimiter");
  mon::stat("obs.splits");
  if (p.size() > 1) mon::stat("obs.multi_splits");
  mon::state(mon::Hash().add(1).add(std::min<size_t>(p.size(), 12)).add(d.size()).add(trailing).add(s.empty()).add(p[0].empty()));
  if (mon::want_sample()) mon::sample(ctx);

  // the other direction: join parts which do not contain (or form) the delimiter
  Parts q;
  size_t n = r.below(9);
  const char pad = 'z';
  for (size_t i = 0; i < n; ++i)
  {
    String f = text(r, 8), g;
    for (size_t j = 0; j < f.size(); ++j) if (d.find(f[j]) == String::npos) g += f[j];
    q.push_back(g + (r.chance(60) && d.find(pad) == String::npos ? String(1, pad) : String()));
  }
  String j = icl_core::join(q, d), jw;
  for (size_t i = 0; i < q.size(); ++i) { if (i) jw += d; jw += q[i]; }
  MON_CHECK(j == jw, "join", "join of " << n << " parts with " << mon::q(d) << " gave " << mon::q(j) << " expected " << mon::q(jw));
  if (n)
  {
    Parts again = icl_core::split(j, d), w = q;
    if (w.size() > 1 && w.back().empty()) w.pop_back();
    MON_CHECK(again == w, "join-split", "split(join(parts)) differs from the parts for " << mon::q(j));
    mon::state(mon::Hash().add(2).add(n).add(d.size()).add(q.back().empty()));
    mon::stat("obs.joins");
  }
}

static void trimming(mon::Rng& r)
{
  static const String ws = " \t\n\r\v\f";
  String a = r.chance(70) ? r.str(ws, 0, 6) : "", b = r.chance(70) ? r.str(ws, 0, 6) : "";
  String m = r.chance(30) ? String() : text(r, 12);
  const String s = a + m + b;
  // a heap copy of exactly the right size, so that any access outside of it is seen
  String *exact = new String(s + String(r.chance(50) ? 40 : 0, ' '));
  exact->resize(s.size());
  mon::phase("trim");
  const String t = icl_core::trim(*exact);
  delete exact;
  size_t lo = 0, hi = s.size();
  while (lo < hi && blank(s[lo])) ++lo;
  while (hi > lo && blank(s[hi - 1])) --hi;
  MON_CHECK(t == s.substr(lo, hi - lo), "trim", "trim(" << mon::q(s) << ") gave " << mon::q(t));
  mon::stat("obs.trims");
  if (lo == hi) mon::stat("obs.trims_to_empty");
  mon::state(mon::Hash().add(3).add(lo).add(s.size() - hi).add(hi - lo));
}

static void padding(mon::Rng& r)
{
  const String s = text(r, 20);
  size_t w = r.chance(30) ? s.size() + size_t(r.range(-1, 1)) : r.below(40);
  if (w > 1000) return;
  if (r.chance(2)) w = r.chance(50) ? 200 + r.below(400) : 65530 + r.below(70000);
  const char c = r.chance(50) ? ' ' : char(r.below(256));
  String l = icl_core::padLeft<String>(s, w, c), e = icl_core::padRight<String>(s, w, c);
  const String fill(w > s.size() ? w - s.size() : 0, c);
  MON_CHECK(l == fill + s, "padLeft", "padLeft(" << mon::q(s) << ", " << w << ") gave " << mon::q(l));
  MON_CHECK(e == s + fill, "padRight", "padRight(" << mon::q(s) << ", " << w << ") gave " << mon::q(e));
  int64_t v = r.chance(50) ? r.range(-1000, 1000) : int64_t(r.next());
  std::string dec = std::to_string(v);
  String nl = icl_core::padLeft<int64_t>(v, w, '0'), nr = icl_core::padRight<int64_t>(v, w);
  MON_CHECK(nl == String(w > dec.size() ? w - dec.size() : 0, '0') + dec, "padLeft-number", "padLeft(" << v << ", " << w << ") gave " << mon::q(nl));
  MON_CHECK(nr == dec + String(w > dec.size() ? w - dec.size() : 0, ' '), "padRight-number", "padRight(" << v << ", " << w << ") gave " << mon::q(nr));
  mon::stat("obs.paddings");
  mon::state(mon::Hash().add(4).add(s.size()).add(w).add(c == ' '));

  String cs = s;
  // every byte, and the neighbours of the letters
  static const String around = "@AZ[`az{\x80\x9a\xc0\xc1\xda\xdf\xe0\xe1\xfa\xff";
  for (size_t i = r.chance(80) ? 1 + r.below(30) : 0; i > 0; --i) cs += r.chance(40) ? around[r.below(around.size())] : char(r.below(256));
  const String lo = icl_core::toLower(cs), up = icl_core::toUpper(cs);
  MON_CHECK(lo.size() == cs.size() && up.size() == cs.size(), "case-length", "case conversion of " << mon::q(cs) << " changed the length");
  for (size_t i = 0; i < cs.size(); ++i)
  {
    char wl = cs[i] >= 'A' && cs[i] <= 'Z' ? char(cs[i] + 32) : cs[i], wu = cs[i] >= 'a' && cs[i] <= 'z' ? char(cs[i] - 32) : cs[i];
    MON_CHECK(lo[i] == wl && up[i] == wu, "case", "case conversion of " << mon::q(cs) << " gave " << mon::q(lo) << " and " << mon::q(up));
  }
}

template <class T> static void integer(mon::Rng& r)
{
  T v = T(r.next());
  unsigned k = unsigned(r.below(6));
  if (k == 0) v = std::numeric_limits<T>::max();
  if (k == 1) v = std::numeric_limits<T>::min();
  if (k == 2) v = T(r.below(3)) - T(1);
  if (k == 3) v = T(v >> r.below(sizeof(T) * 8));
  String t = icl_core::stringify<T>(v);
  std::string want = std::numeric_limits<T>::is_signed ? std::to_string((long long)v) : std::to_string((unsigned long long)v);
  MON_CHECK(t == want, "stringify-integer", "stringify(" << v << ") gave " << mon::q(t) << " expected " << want);
  mon::state(mon::Hash().add(5).add(sizeof(T)).add(std::numeric_limits<T>::is_signed).add(t.size()).add(k));
}

template <class T> static void floating(mon::Rng& r, int kind)
{
  // a decimal number with as many digits as the type guarantees survives the trip through text
  const int digits = std::numeric_limits<T>::digits10;
  std::string m = r.chance(50) ? "-" : "";
  int n = int(r.range(1, digits));
  m += char('1' + r.below(9));
  for (int i = 1; i < n; ++i) { if (i == 1) m += '.'; m += char('0' + r.below(10)); }
  int span = kind == 0 ? 30 : 200;
  m += "e" + std::to_string(int(r.chance(50) ? r.range(-4, digits) : r.range(-span, span)));
  T v = T(strtold(m.c_str(), NULL));
  if (kind == 0) v = T(strtof(m.c_str(), NULL)); else if (kind == 1) v = T(strtod(m.c_str(), NULL));
  String t = icl_core::stringify<T>(v);
  char *end = NULL;
  T back = kind == 0 ? T(strtof(t.c_str(), &end)) : kind == 1 ? T(strtod(t.c_str(), &end)) : T(strtold(t.c_str(), &end));
  MON_CHECK(end && *end == 0 && back == v, "stringify-float", "stringify(" << m << ") gave " << mon::q(t));
  // any other value is at most one unit in the last guaranteed digit away
  T a = T((r.unit() - 0.5) * pow(10.0, double(r.range(-30, 30))));
  String ta = icl_core::stringify<T>(a);
  long double got = strtold(ta.c_str(), &end), err = fabsl(got - (long double)a);
  MON_CHECK(*end == 0 && err <= fabsl((long double)a) * powl(10.0L, 1 - digits), "stringify-float-precision", "stringify gave " << mon::q(ta));
  mon::stat("obs.floats");
  mon::state(mon::Hash().add(6).add(kind).add(n).add(t.size()));
}

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  for (int i = 0; i < 12; ++i) { splitting(r); trimming(r); padding(r); }
  for (int i = 0; i < 4; ++i)
  {
    integer<int16_t>(r); integer<uint16_t>(r); integer<int32_t>(r); integer<uint32_t>(r); integer<int64_t>(r); integer<uint64_t>(r);
    floating<float>(r, 0); floating<double>(r, 1); floating<long double>(r, 2);
  }
  MON_CHECK(icl_core::stringify<bool>(true) == "true" && icl_core::stringify<bool>(false) == "false", "stringify-bool", "bool");
}
