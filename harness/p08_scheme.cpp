// P08: SchemeParser against a hand-written recogniser of the same grammar.
#include "mon.h"
#include <sstream>
#include "icl_core/SchemeParser.h"
using icl_core::Scheme;
using icl_core::SchemeParser;

static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static bool alnum(char c) { return alpha(c) || digit(c); }
static bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

struct Want
{
  bool ok;
  icl_core::SchemeType type;
  std::string name, spec, anchor;
  std::vector<std::pair<std::string, std::string> > q;
};

static Want recognise(const std::string& s)
{
  Want w;
  w.ok = false;
  w.type = icl_core::OtherScheme;
  size_t at = 0, n = s.size(), e = 0;
  while (e < n && alpha(s[e])) ++e;
  while (e > 0 && e + 1 < n && s[e] == '+' && alpha(s[e + 1])) { ++e; while (e < n && alpha(s[e])) ++e; }
  if (e > 0 && s.compare(e, 3, "://") == 0)
  {
    at = e + 3;
    for (size_t i = 0; i < at; ++i) w.name += s[i] >= 'A' && s[i] <= 'Z' ? char(s[i] + 32) : s[i];
    if (w.name == "file://") w.type = icl_core::FileScheme;
    if (w.name == "http://") w.type = icl_core::HttpScheme;
    if (w.name == "camera://") w.type = icl_core::CameraScheme;
    if (w.name == "gps://") w.type = icl_core::GpsScheme;
  }
  while (at < n && s[at] != '?' && s[at] != '#') w.spec += s[at++];
  if (w.spec.empty()) return w;
  if (at < n && s[at] == '#')
  {
    ++at;
    while (at < n && alnum(s[at])) w.anchor += s[at++];
    if (w.anchor.empty()) return w;
    if (at + 1 < n && s[at] == '-' && alnum(s[at + 1]))
    {
      w.anchor += s[at++];
      while (at < n && alnum(s[at])) w.anchor += s[at++];
    }
  }
  if (at < n && s[at] == '?')
  {
    do
    {
      ++at;
      std::string k, v;
      while (at < n && alnum(s[at])) k += s[at++];
      if (k.empty()) return w;
      while (at + 1 < n && s[at] == '_' && alnum(s[at + 1])) { k += s[at++]; while (at < n && alnum(s[at])) k += s[at++]; }
      if (at >= n || s[at] != '=') return w;
      ++at;
      while (at < n && s[at] != '?' && s[at] != '&' && !blank(s[at])) v += s[at++];
      if (v.empty()) return w;
      w.q.push_back(std::make_pair(k, v));
    } while (at < n && s[at] == '&');
  }
  w.ok = at == n;
  return w;
}

static std::string text(mon::Rng& r)
{
  static const char *names[] = { "file", "http", "camera", "gps", "FILE", "Http", "ftp", "svn+ssh", "a+b+c", "gps+x", "CAMERA", "fil", "files", "", "OPENSTREETMAP", "aVeryLongSchemeName+WithASecondPART", "camerA" };
  static const std::string any = std::string("abz019 /._-:@%\\\t") + "\xe4\x80";
  std::string s;
  if (r.chance(15))
  {
    static const std::string junk = ":/#?&=+_-aZ0. \xff";
    return r.str(junk, 0, 16);
  }
  if (r.chance(85)) s += names[r.below(17)] + std::string("://");
  s += r.chance(70) ? r.str(any, 1, r.chance(5) ? 600 : 14) : r.str("/abc.", 0, 5);
  if (r.chance(10)) s += "&=" + r.str(any, 0, 3);
  if (r.chance(40)) s += "#" + r.str("abZ9", r.chance(90), 4) + (r.chance(30) ? "-" + r.str("xY0", r.chance(90), 3) : "");
  size_t nq = r.chance(50) ? 0 : r.below(r.chance(5) ? 40 : 5);
  for (size_t i = 0; i < nq; ++i)
  {
    s += i ? "&" : "?";
    s += r.str("keyK1", r.chance(95), 4) + (r.chance(30) ? "_" + r.str("ab1", r.chance(90), 2) : "");
    s += r.chance(97) ? "=" : "";
    s += r.chance(95) ? r.str("val=#/ab_.;+\xfc", 1, r.chance(3) ? 300 : 5) : "";
    if (r.chance(4)) s += " \t\n\r\v\f"[r.below(6)];
  }
  if (r.chance(12) && !s.empty()) s[r.below(s.size())] = ":/#?&=+_- "[r.below(10)];
  if (r.chance(4)) s += "#late";
  return s;
}

static std::string show(const Scheme& s)
{
  std::ostringstream o;
  o << "type " << int(s.scheme_type) << " name " << mon::q(s.scheme_name) << " specifier " << mon::q(s.specifier) << " anchor " << mon::q(s.anchor);
  for (size_t i = 0; i < s.queries.size(); ++i) o << " " << mon::q(s.queries[i].name) << "=" << mon::q(s.queries[i].value);
  return o.str();
}
static bool same(const Scheme& a, const Scheme& b) { return show(a) == show(b); }

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  SchemeParser reused;
  std::string earlier;
  for (int i = 0; i < 12; ++i)
  {
    const std::string t = text(r);
    const Want w = recognise(t);
    SchemeParser fresh;
    phase("parseScheme");
    bool ok_fresh = fresh.parseScheme(t), ok = reused.parseScheme(t);
    const Scheme& s = reused.getSchemeResult();
    const std::string ctx = mon::q(t) + " (after " + mon::q(earlier) + ") gave " + (ok ? "success, " : "failure, ") + show(s);
    MON_CHECK(ok_fresh == w.ok, "accepts", ctx << "; expected " << (w.ok ? "success" : "failure"));
    MON_CHECK(ok == ok_fresh, "history-outcome", ctx);
    MON_CHECK(same(s, fresh.getSchemeResult()), "history-dependent", ctx << "; a new parser gives " << show(fresh.getSchemeResult()));
    MON_CHECK(reused.getParseInfo().length == fresh.getParseInfo().length && reused.getParseInfo().full == ok && fresh.getParseInfo().full == ok, "info", ctx);
    // the static form, filling a structure that was used before
    Scheme mine;
    mine.scheme_type = icl_core::GpsScheme; mine.scheme_name = "old://"; mine.specifier = "old"; mine.anchor = "old";
    mine.queries.resize(2);
    BOOST_SPIRIT_NAMESPACE::parse_info<> info;
    MON_CHECK(SchemeParser::parseScheme(t, mine, info) == ok && same(mine, s), "static-history-dependent", ctx << "; the static form gives " << show(mine));
    if (ok)
    {
      MON_CHECK(s.scheme_type == w.type && s.scheme_name == w.name, "scheme", ctx);
      MON_CHECK(s.specifier == w.spec, "specifier", ctx << "; expected " << mon::q(w.spec));
      MON_CHECK(s.anchor == w.anchor, "anchor", ctx << "; expected " << mon::q(w.anchor));
      MON_CHECK(s.queries.size() == w.q.size(), "queries", ctx << "; expected " << w.q.size() << " queries");
      std::string printed = w.name + w.spec;
      for (size_t k = 0; k < w.q.size(); ++k)
      {
        MON_CHECK(s.queries[k].name == w.q[k].first && s.queries[k].value == w.q[k].second, "query", ctx << "; query " << k);
        printed += (k ? "&" : "?") + w.q[k].first + "=" + w.q[k].second;
      }
      if (!w.anchor.empty()) printed += "#" + w.anchor;
      std::ostringstream o;
      o << s;
      MON_CHECK(o.str() == printed, "print", ctx << "; printed " << mon::q(o.str()));
      mon::stat("obs.accepted");
      if (want_sample()) sample(ctx);
    }
    else mon::stat("obs.refused");
    mon::state(mon::Hash().add(w.ok).add(uint64_t(w.type)).add(w.name).add(std::min<size_t>(w.spec.size(), 4)).add(w.anchor.size()).add(w.q.size()).add(ok ? 0 : t.size()));
    earlier = t;
  }
}
