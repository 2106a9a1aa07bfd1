// P26: typed access to configuration and command line values against an independent reading of the text.
#include "mon.h"
#include <iostream>
#include <limits>
#include "icl_core_config/Config.h"
using namespace icl_core::config;

namespace {
enum Verdict { VALUE, FAIL, OPEN };
enum Color { RED, GREEN, BLUE, BLACK };
const char *color_names[] = { "red", "Green", "light blue", "0", NULL };

size_t lead(const std::string& s) { size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; return i; }
std::string core(const std::string& s) { size_t a = lead(s), b = s.size(); while (b > a && isspace((unsigned char)s[b - 1])) --b; return s.substr(a, b - a); }

// Decimal, hexadecimal or octal number of the whole text.
template <class T> Verdict whole(const std::string& s, T& v)
{
  std::string c = core(s);
  if (c.empty()) return FAIL;
  size_t i = 0; bool neg = false;
  if (c[i] == '-' || c[i] == '+') { neg = c[i] == '-'; ++i; }
  if (i >= c.size() || !isdigit((unsigned char)c[i])) return FAIL;
  unsigned base = 10;
  if (c[i] == '0' && i + 1 < c.size() && (c[i + 1] == 'x' || c[i + 1] == 'X')) { base = 16; i += 2; if (i >= c.size()) return OPEN; }
  else if (c[i] == '0') base = 8;
  unsigned __int128 u = 0;
  for (; i < c.size(); ++i)
  {
    int d = isdigit((unsigned char)c[i]) ? c[i] - '0' : isalpha((unsigned char)c[i]) ? tolower(c[i]) - 'a' + 10 : 99;
    if (unsigned(d) >= base) return OPEN;          // more text behind the number
    u = u * base + unsigned(d);
    if (u >> 80) u = (unsigned __int128)1 << 80;
  }
  if (neg && !std::numeric_limits<T>::is_signed) return OPEN;
  __int128 x = neg ? -__int128(u) : __int128(u);
  if (x > __int128(std::numeric_limits<T>::max()) || x < __int128(std::numeric_limits<T>::min())) return FAIL;
  v = T(x);
  return VALUE;
}
template <class T> T parse_float(const char *s);
template <> float parse_float<float>(const char *s) { return strtof(s, NULL); }
template <> double parse_float<double>(const char *s) { return strtod(s, NULL); }
template <class T> Verdict real(const std::string& s, T& v)
{
  std::string c = core(s);
  if (c.empty()) return FAIL;
  size_t i = 0, digits = 0;
  if (c[i] == '-' || c[i] == '+') ++i;
  if (i >= c.size() || (!isdigit((unsigned char)c[i]) && c[i] != '.')) return FAIL;
  while (i < c.size() && isdigit((unsigned char)c[i])) { ++i; ++digits; }
  if (i < c.size() && c[i] == '.') { ++i; while (i < c.size() && isdigit((unsigned char)c[i])) { ++i; ++digits; } }
  if (!digits) return i >= c.size() ? FAIL : OPEN;
  if (i < c.size() && (c[i] == 'e' || c[i] == 'E'))
  {
    ++i;
    if (i < c.size() && (c[i] == '-' || c[i] == '+')) ++i;
    size_t n = 0;
    while (i < c.size() && isdigit((unsigned char)c[i])) { ++i; ++n; }
    if (!n) return OPEN;
  }
  if (i < c.size()) return OPEN;
  v = parse_float<T>(c.c_str());
  if (v - v != 0) return FAIL;                     // out of range
  if (v != 0 && (v < 0 ? -v : v) < std::numeric_limits<T>::min()) return OPEN;
  return VALUE;
}
Verdict judge(const std::string& s, int16_t& v) { return whole(s, v); }
Verdict judge(const std::string& s, uint16_t& v) { return whole(s, v); }
Verdict judge(const std::string& s, int32_t& v) { return whole(s, v); }
Verdict judge(const std::string& s, uint32_t& v) { return whole(s, v); }
Verdict judge(const std::string& s, int64_t& v) { return whole(s, v); }
Verdict judge(const std::string& s, uint64_t& v) { return whole(s, v); }
Verdict judge(const std::string& s, float& v) { return real(s, v); }
Verdict judge(const std::string& s, double& v) { return real(s, v); }
Verdict judge(const std::string& s, std::string& v) { v = s; return VALUE; }
Verdict judge(const std::string& s, bool& v)
{
  std::string c = s;
  for (size_t i = 0; i < c.size(); ++i) { if (isspace((unsigned char)c[i])) return core(s).empty() ? FAIL : OPEN; c[i] = char(tolower(c[i])); }
  if (c == "1" || c == "yes" || c == "true") { v = true; return VALUE; }
  if (c == "0" || c == "no" || c == "false") { v = false; return VALUE; }
  return FAIL;
}
Verdict judge(const std::string& s, Color& v) { for (int i = 0; color_names[i]; ++i) if (s == color_names[i]) { v = Color(i); return VALUE; } return FAIL; }

std::string gen_text(mon::Rng& r)
{
  static const std::vector<std::string> fixed = { "", " ", "\t\n", "yes", "No", "TRUE", "false", "1", "0", "2", "-1", "+5", "0x", "0xg", "0x1F", "-0x10", "017", "08", "1e5", "1.5", ".5", "5.", ".", "-", "+", "-.5e-3", "1e400", "-1e400",
    "1e40", "nan", "inf", "12abc", "abc12", "1 2", " 7", "7 ", "red", "Green", "green", "light blue", "light", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
    "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "00000000000000000000000000000012",
    "two words", " leading", "trailing ", "a\tb", "x\ny", "3.4028235e38", "1.7976931348623157e308", "0.1", "123456789.123456789", "1e-30", "off", "on", "y", "n", "t", "f", "Off", "ON", "y es", "none", "null", "disabled", "enable", "00", "01", "1.0", "0.0", "--5", "+-5", "0X1f", "0b1", "1,000", "\xc3\xa4" };
  switch (r.below(7))
  {
  case 0: case 1: return r.pick(fixed);
  case 6:
  {
    // nearly one of the accepted words
    static const std::vector<std::string> words = { "yes", "no", "true", "false", "1", "0", "red", "green", "light blue", "TRUE", "False" };
    std::string w = r.pick(words);
    size_t at = r.below(w.size() + 1);
    switch (r.below(5))
    {
    case 0: w += r.str("aesy01 .", 1, 3); break;
    case 1: w = r.str("aenty01 .-", 1, 2) + w; break;
    case 2: w.erase(at < w.size() ? at : 0, 1); break;
    case 3: w.insert(at, 1, r.pick(words)[0]); break;
    default: { char& c = w[at < w.size() ? at : 0]; c = isalpha((unsigned char)c) && r.chance(50) ? char(c ^ 0x20) : char(c ^ 0x01); }
    }
    return w;
  }
  case 2: { char b[64]; snprintf(b, sizeof b, r.chance(50) ? "%lld" : r.chance(50) ? "0x%llx" : "%llo", (long long)(int64_t(r.next()) >> r.below(64))); return b; }
  case 3: { char b[64]; double d = (r.unit() - 0.5) * (r.chance(50) ? 1e3 : 1e18); if (r.chance(30)) d *= 1e-20; snprintf(b, sizeof b, r.chance(50) ? "%.17g" : r.chance(50) ? "%f" : "%.3e", d); return b; }
  case 4: return r.str("0123456789xXaAfFeE+-. ", 0, 12);
  default: return r.str("abc yes 01.\"'<>{}", 0, 15);
  }
}
bool fetch(const impl::ConfigValueIface& v) { return v.get(); }
template <class T> std::string str(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

template <class T> bool same(const T& a, const T& b) { return a == b; }
// One access: what it returned and left in the target.
template <class T> void check(const char *how, const std::string& text, Verdict w, const T& want, bool got, const T& now, const T& before, const char *type)
{
  std::string ctx = std::string(how) + "<" + type + ">() of " + mon::q(text);
  if (w == VALUE) { MON_CHECK(got, std::string("refused:") + how, ctx << " failed"); MON_CHECK(same(now, want), std::string("value:") + how, ctx << " gave " << str(now) << " instead of " << str(want)); mon::stat("obs.values"); }
  else if (w == FAIL) { MON_CHECK(!got, std::string("accepted:") + how, ctx << " succeeded with " << str(now)); mon::stat("obs.failures"); }
  if (!got) MON_CHECK(same(now, before), std::string("touched:") + how, ctx << " failed but changed the target from " << str(before) << " to " << str(now));
}
template <class T> void ask(const std::string& key, const std::string& text, bool present, const T& a, const T& b, const char *type, mon::Rng& r)
{
  T want = a;
  Verdict w = present ? judge(text, want) : FAIL;
  mon::phase("typed access to " + mon::q(text) + " as " + type);
  T t = a;
  bool got = r.chance(50) ? icl_core::config::get<T>(key, t) : icl_core::config::get<T>(key.c_str(), t);
  check("get", text, w, want, got, t, a, type);
  t = b;
  { ConfigValue<T> cv(key, t); got = fetch(cv); check("ConfigValue", text, w, want, got, t, b, type); if (present) MON_CHECK(cv.key() == key && cv.stringValue() == text, "string_value", "stringValue() is " << mon::q(cv.stringValue()) << " for " << mon::q(text)); }
  t = r.chance(50) ? icl_core::config::getDefault<T>(key, a) : icl_core::config::getDefault<T>(key.c_str(), a);
  if (w != OPEN) MON_CHECK(same(t, w == VALUE ? want : a), "default", "getDefault<" << type << ">(" << str(a) << ") of " << (present ? mon::q(text) : "a missing key") << " gave " << str(t));
  t = b;
  { ConfigValueDefault<T> cv(key, t, a); MON_CHECK(fetch(cv), "default", "ConfigValueDefault<" << type << ">::get() failed"); if (w != OPEN) MON_CHECK(same(t, w == VALUE ? want : a), "default", "ConfigValueDefault<" << type << "> (" << str(a) << ") of " << (present ? mon::q(text) : "a missing key") << " gave " << str(t)); }
  mon::state(mon::Hash().add(type).add(text).add(present).add(w));
  if (mon::want_sample() && w == VALUE) mon::sample(std::string(type) + " " + mon::q(text) + " -> " + str(want));
}
template <class T> void ask_opt(const std::string& name, size_t index, const std::string& text, bool present, bool pos, const T& a, const char *type)
{
  T want = a;
  Verdict w = present ? judge(text, want) : FAIL, wp = pos ? judge(text, want) : FAIL;
  mon::phase("typed command line access to " + mon::q(text) + " as " + type);
  T t = a;
  bool got = icl_core::config::paramOpt<T>(name, t);
  check("paramOpt", text, w, want, got, t, a, type);
  t = a; got = icl_core::config::paramOpt<T>(name.c_str(), t);
  check("paramOpt", text, w, want, got, t, a, type);
  t = a; got = icl_core::config::paramNonOpt<T>(index, t);
  check("paramNonOpt", text, wp, want, got, t, a, type);
  if (w != OPEN) { T d = icl_core::config::paramOptDefault<T>(name, a); MON_CHECK(same(d, w == VALUE ? want : a), "default", "paramOptDefault<" << type << ">(" << str(a) << ") of " << mon::q(text) << " gave " << str(d)); }
  mon::stat("obs.command_line");
  mon::state(mon::Hash().add(type).add(text).add(present).add(w).add("opt"));
}
void ask_enum(const std::string& key, const std::string& text, bool present, Color a)
{
  mon::phase("enumeration access to " + mon::q(text));
  Color want = a, t = a;
  Verdict w = present ? judge(text, want) : FAIL;
  bool got = icl_core::config::get<Color>(key, t, color_names);
  check("get", text, w, want, got, t, a, "enum");
  t = a; got = icl_core::config::get<Color>(key.c_str(), t, color_names, "0");
  check("get", text, w == VALUE && want == BLACK ? FAIL : w, want, got, t, a, "enum with marker");
  t = a; { ConfigEnum<Color> ce(key, t, color_names); got = fetch(ce); check("ConfigEnum", text, w, want, got, t, a, "enum"); }
  t = RED; { ConfigEnumDefault<Color> ce(key, t, a, color_names); MON_CHECK(fetch(ce) && t == (w == VALUE ? want : a), "default", "ConfigEnumDefault of " << mon::q(text) << " gave " << t); }
}
template <class T> void round_trip(const std::string& key, const T& v, const char *type)
{
  mon::phase(std::string("round trip of ") + type);
  icl_core::config::setValue<T>(key, v);
  T t = T();
  MON_CHECK(icl_core::config::get<T>(key, t) && same(t, v), "round_trip", "setValue<" << type << ">(" << str(v) << ") and get() gave " << str(t));
  mon::stat("obs.round_trips");
}
void all(const std::string& key, const std::string& t, bool present, mon::Rng& r)
{
  ask<int16_t>(key, t, present, int16_t(r.next()), int16_t(r.next()), "int16", r);
  ask<uint16_t>(key, t, present, uint16_t(r.next()), uint16_t(r.next()), "uint16", r);
  ask<int32_t>(key, t, present, int32_t(r.next()), int32_t(r.next()), "int32", r);
  ask<uint32_t>(key, t, present, uint32_t(r.next()), uint32_t(r.next()), "uint32", r);
  ask<int64_t>(key, t, present, int64_t(r.next()), int64_t(r.next()), "int64", r);
  ask<uint64_t>(key, t, present, r.next(), r.next(), "uint64", r);
  ask<float>(key, t, present, float(r.unit()), float(r.unit()), "float", r);
  ask<double>(key, t, present, r.unit(), r.unit(), "double", r);
  ask<std::string>(key, t, present, "old", "older text", "string", r);
  ask<bool>(key, t, present, r.chance(50), r.chance(50), "bool", r);
  ask_enum(key, t, present, Color(r.below(4)));
}
} // namespace

namespace mon {
void setup() { }
void teardown() { }
void run_case(uint64_t, Rng& r)
{
  for (int k = 0; k < 12; ++k)
  {
    std::string key = "/values/k" + std::to_string(r.below(20)), t = gen_text(r);
    icl_core::config::setValue(key, t);
    std::string v; MON_CHECK(ConfigManager::instance().get(key, v) && v == t, "set", "setValue(" << q(t) << ") stored " << q(v));
    all(key, t, true, r);
    all(key + "/missing", t, false, r);
    round_trip<int16_t>(key, int16_t(r.next()), "int16");
    round_trip<uint32_t>(key, uint32_t(r.next()), "uint32");
    round_trip<int64_t>(key, int64_t(r.next()) >> r.below(64), "int64");
    round_trip<uint64_t>(key, r.next() >> r.below(64), "uint64");
    double d; do { uint64_t b = r.next(); memcpy(&d, &b, 8); } while (!(d - d == 0) || (d != 0 && (d < 0 ? -d : d) < std::numeric_limits<double>::min()));
    round_trip<double>(key, d, "double");
    float f; do { uint32_t b = uint32_t(r.next()); memcpy(&f, &b, 4); } while (!(f - f == 0) || (f != 0 && (f < 0 ? -f : f) < std::numeric_limits<float>::min()));
    round_trip<float>(key, f, "float");
    round_trip<bool>(key, r.chance(50), "bool");
    round_trip<std::string>(key, gen_text(r), "string");
  }
  if (r.chance(50))
  {
    Rng cr(r.next());
    in_child([&]() {
      Rng& r2 = cr;
      // An own process for the command line.
      std::vector<std::string> a(1, "prog"), t;
      std::vector<bool> flag;
      std::vector<std::string> non;
      for (size_t i = 0; i < 4; ++i)
      {
        flag.push_back(r2.chance(20));
        icl_core::config::addParameter(GetoptParameter("opt" + std::to_string(i) + (flag[i] ? "" : ":"), "", "help"));
        t.push_back(flag[i] ? "yes" : gen_text(r2));
        a.push_back("--opt" + std::to_string(i) + (flag[i] ? "" : "=" + t[i]));
        std::string p = gen_text(r2); if (!p.empty() && p[0] == '-') p = "x" + p;
        non.push_back(p); a.push_back(p);
      }
      std::vector<char *> av; for (size_t i = 0; i < a.size(); ++i) av.push_back(strdup(a[i].c_str())); av.push_back(NULL);
      int ac = int(a.size());
      MON_CHECK(icl_core::config::initialize(ac, &av[0]), "command_line", "the command line was refused");
      for (size_t i = 0; i < 5; ++i)
      {
        for (int w = 0; w < 2; ++w)          // as option, as positional argument
        {
          std::string name = w ? "none" : "opt" + std::to_string(i);
          size_t index = w ? i : 100 + i;
          std::string text = i >= 4 ? "" : w ? non[i] : t[i];
          bool o = !w && i < 4, p = w && i < 4;
          ask_opt<int32_t>(name, index, text, o, p, int32_t(r2.next()), "int32");
          ask_opt<uint64_t>(name, index, text, o, p, r2.next(), "uint64");
          ask_opt<double>(name, index, text, o, p, r2.unit(), "double");
          ask_opt<float>(name, index, text, o, p, float(r2.unit()), "float");
          ask_opt<std::string>(name, index, text, o, p, "old", "string");
          ask_opt<bool>(name, index, text, o, p, r2.chance(50), "bool");
          Color c = BLUE, want = BLUE; Verdict v = i < 4 ? judge(text, want) : FAIL;
          bool got = w ? icl_core::config::paramNonOpt<Color>(index, c, color_names) : icl_core::config::paramOpt<Color>(name, c, color_names);
          check(w ? "paramNonOpt" : "paramOpt", text, v, want, got, c, BLUE, "enum");
        }
      }
    });
  }
}
}
