// P28: batch reads of values, enumerations and lists against a key-value model.
#include "mon.h"
#include <iostream>
#include <iterator>
#include "icl_core_config/Config.h"
using namespace icl_core::config;

namespace {
enum Color { RED, GREEN, BLUE };
const char *names[] = { "red", "green", "blue", NULL };
// tables with an end marker: another word, or one that begins with or is the beginning of a description
const char *marked[][6] = { { "red", "green", "blue", "end", "more", NULL }, { "red", "green", "blue", "reddish", "more", NULL }, { "red", "green", "blue", "gree", "more", NULL }, { "red", "green", "blue", "", "more", NULL } };
struct Entry
{
  int32_t number; std::string text; Color color; bool flag;
  struct Sub { double real; Color color; struct Deep { uint64_t big; Color color; } deep; } sub;
  Entry() : number(-1), text("unset"), color(BLUE), flag(false) { sub.real = -1; sub.color = BLUE; sub.deep.big = 7; sub.deep.color = BLUE; }
  bool operator==(const Entry& o) const { return number == o.number && text == o.text && color == o.color && flag == o.flag && sub.real == o.sub.real && sub.color == o.sub.color && sub.deep.big == o.sub.deep.big && sub.deep.color == o.sub.deep.color; }
  std::string show() const { std::ostringstream s; s << "{" << number << " " << text << " " << color << " " << flag << " " << sub.real << " " << sub.color << " " << sub.deep.big << " " << sub.deep.color << "}"; return s.str(); }
};
std::map<std::string, std::string> conf;
void put(const std::string& k, const std::string& v) { conf[k] = v; icl_core::config::setValue(k, v); }
int destroyed;

std::string text_for(mon::Rng& r, int type, bool ok)
{
  static const std::vector<std::string> ints = { "0", "1", "-5", "42", "0x10", "2147483647" }, bads = { "", "abc", "x1", "-", "99999999999999999999999999" }, strs = { "", "text", "two words", " x ", "1" };
  if (type == 0) return ok ? r.pick(ints) : r.pick(bads);
  if (type == 1) return ok ? (r.chance(50) ? "1.5" : "-2e3") : r.pick(std::vector<std::string>{ "", "abc", "e5", "1e999" });
  if (type == 2) return r.pick(strs);
  if (type == 3) return ok ? r.pick(std::vector<std::string>{ "1", "yes", "TRUE", "0", "No", "false" }) : r.pick(std::vector<std::string>{ "", "2", "maybe", "on" });
  if (type == 5) return ok ? (r.chance(50) ? "18446744073709551615" : "12") : r.pick(bads);
  return ok ? names[r.below(3)] : r.pick(std::vector<std::string>{ "", "Red", "yellow", "end", "0", "reddish", "gree", "more" });
}
int64_t int_of(const std::string& s) { return strtoll(s.c_str(), NULL, 0); }
bool bool_of(const std::string& s) { return tolower(s[0]) == 'y' || tolower(s[0]) == 't' || s[0] == '1'; }
Color color_of(const std::string& s) { return s == "red" ? RED : s == "green" ? GREEN : BLUE; }

// One requested value with its target and what it has to become.
struct Slot
{
  int type; bool with_default, present, ok;
  std::string key, text;
  int32_t i; double d; std::string s; bool b; Color c;
  int32_t di; double dd; std::string ds; bool db; Color dc;
  void reset(mon::Rng& r) { i = int32_t(r.next()); d = r.unit(); s = "before"; b = r.chance(50); c = Color(r.below(3)); }
};
struct Destroyed : public impl::ConfigValueIface      // to see the cleanup
{
  ~Destroyed() { ++destroyed; }
  bool get(std::string const&, icl_core::logging::LogStream&) const { return true; }
  icl_core::String key() const { return "d"; }
  icl_core::String stringValue() const { return "d"; }
};
impl::ConfigValueIface *make(Slot& s, mon::Rng& r)
{
  const char **desc = r.chance(50) ? names : marked[r.below(4)];
  const char *mark = desc != names ? desc[3] : NULL;
  switch (s.type)
  {
  // (the macros as users write them, with temporaries as defaults)
  case 0: if (s.with_default) return CONFIG_VALUE_DEFAULT(s.key, s.i, s.di + 0); return CONFIG_VALUE(s.key, s.i);
  case 1: if (s.with_default) return CONFIG_VALUE_DEFAULT(s.key, s.d, s.dd + 0.0); return CONFIG_VALUE(s.key, s.d);
  case 2: if (s.with_default) return CONFIG_VALUE_DEFAULT(s.key, s.s, s.ds.c_str()); return CONFIG_VALUE(s.key, s.s);
  case 3: if (s.with_default) return CONFIG_VALUE_DEFAULT(s.key, s.b, s.db ? true : false); return CONFIG_VALUE(s.key, s.b);
  default:
    if (mark) { if (s.with_default) return new ConfigEnumDefault<Color>(s.key, s.c, Color(int(s.dc)), desc, mark); return new ConfigEnum<Color>(s.key, s.c, desc, mark); }
    if (s.with_default) return CONFIG_ENUM_DEFAULT(s.key, s.c, Color(int(s.dc)), desc);
    return CONFIG_ENUM(s.key, s.c, desc);
  }
}
void judge(const Slot& n, const Slot& before, const std::string& ctx)
{
  std::string w = n.key + (n.present ? " = " + mon::q(n.text) : " (missing)") + (n.with_default ? " with default" : "") + " in " + ctx;
  bool keep = !n.with_default && !(n.present && n.ok), def = n.with_default && !(n.present && n.ok);
  switch (n.type)
  {
  case 0: { int32_t e = keep ? before.i : def ? n.di : int32_t(int_of(n.text)); MON_CHECK(n.i == e, "value", "number " << w << " is " << n.i << " instead of " << e); break; }
  case 1: { double e = keep ? before.d : def ? n.dd : strtod(n.text.c_str(), NULL); MON_CHECK(n.d == e, "value", "number " << w << " is " << n.d << " instead of " << e); break; }
  case 2: { std::string e = keep ? before.s : def ? n.ds : n.text; MON_CHECK(n.s == e, "value", "text " << w << " is " << mon::q(n.s) << " instead of " << mon::q(e)); break; }
  case 3: { bool e = keep ? before.b : def ? n.db : bool_of(n.text); MON_CHECK(n.b == e, "value", "flag " << w << " is " << n.b << " instead of " << e); break; }
  default: { Color e = keep ? before.c : def ? n.dc : color_of(n.text); MON_CHECK(n.c == e, "value", "enumeration " << w << " is " << n.c << " instead of " << e); }
  }
}
typedef std::list<impl::MemberValueIface<Entry> *> Members;
struct Mem { std::string suffix; int type; };
const Mem mems[] = { { "number", 0 }, { "text", 2 }, { "color", 4 }, { "flag", 3 }, { "sub/real", 1 }, { "sub/color", 4 }, { "sub/deep/big", 5 }, { "", 0 }, { "sub/deep/color", 4 } };
Members members(unsigned mask, mon::Rng& r)
{
  Members m;
  const unsigned t = unsigned(r.below(6));
  if (mask & 1) m.push_back(MEMBER_VALUE_1("number", Entry, number));
  if (mask & 2) m.push_back(MEMBER_VALUE_1("text", Entry, text));
  if (mask & 4 && t < 4) m.push_back(new MemberEnum<Color, Entry>("color", boost::lambda::bind(&Entry::color, boost::lambda::_1), marked[t], marked[t][3]));
  else if (mask & 4) m.push_back(MEMBER_ENUM_1("color", Entry, color, names));
  if (mask & 8) m.push_back(MEMBER_VALUE_1("flag", Entry, flag));
  if (mask & 16) m.push_back(MEMBER_VALUE_2("sub/real", Entry, sub, real));
  if (mask & 32) m.push_back(MEMBER_ENUM_2("sub/color", Entry, sub, color, (std::vector<std::string>(names, names + 3))));
  if (mask & 64) m.push_back(MEMBER_VALUE_3("sub/deep/big", Entry, sub, deep, big));
  if (mask & 128) m.push_back(MEMBER_VALUE_1("", Entry, number));
  if (mask & 256) m.push_back(MEMBER_ENUM_3("sub/deep/color", Entry, sub, deep, color, names));
  return m;
}
void assign(Entry& e, unsigned m, const std::string& t)
{
  if (m == 0 || m == 7) e.number = int32_t(int_of(t));
  if (m == 1) e.text = t;
  if (m == 2) e.color = color_of(t);
  if (m == 3) e.flag = bool_of(t);
  if (m == 4) e.sub.real = strtod(t.c_str(), NULL);
  if (m == 5) e.sub.color = color_of(t);
  if (m == 8) e.sub.deep.color = color_of(t);
  if (m == 6) e.sub.deep.big = strtoull(t.c_str(), NULL, 0);
}
bool valid(int type, const std::string& t)
{
  if (type == 2) return true;
  if (type == 0) return !t.empty() && t.size() < 15 && (isdigit((unsigned char)t[0]) || (t[0] == '-' && t.size() > 1));
  if (type == 5) return !t.empty() && t.size() < 21 && isdigit((unsigned char)t[0]);
  if (type == 1) return t == "1.5" || t == "-2e3";
  if (type == 3) { std::string l = t; for (size_t i = 0; i < l.size(); ++i) l[i] = char(tolower(l[i])); return l == "1" || l == "yes" || l == "true" || l == "0" || l == "no" || l == "false"; }
  return t == "red" || t == "green" || t == "blue";
}
// What a list below the prefix has to give.
bool list_model(const std::string& prefix, unsigned mask, std::vector<Entry>& out, bool& open)
{
  std::map<std::string, Entry> el; bool any = false, bad = false; open = false;
  for (std::map<std::string, std::string>::iterator k = conf.begin(); k != conf.end(); ++k)
  {
    if (k->first.compare(0, prefix.size() + 1, prefix + "/") != 0) continue;
    std::string rest = k->first.substr(prefix.size() + 1);
    size_t s = rest.find('/');
    std::string e = rest.substr(0, s), suf = s == std::string::npos ? "" : rest.substr(s + 1);
    for (unsigned m = 0; m < 9; ++m)
      if ((mask >> m & 1) && mems[m].suffix == suf)
      {
        if (valid(mems[m].type, k->second)) { assign(el[e], m, k->second); any = true; } else bad = true;
      }
  }
  for (std::map<std::string, Entry>::iterator i = el.begin(); i != el.end(); ++i) out.push_back(i->second);
  return any && !bad;
}
void one(mon::Rng& r, uint64_t index)
{
  static const std::vector<std::string> prefixes = { "", "/Group", "/Group/", "/a.b", "/x+y/z", "/p(q", "/[1]", "/deep/er/est", "x", "yz" };
  conf.clear();
  std::string prefix = r.pick(prefixes), pre = prefix;
  if (!pre.empty() && pre[pre.size() - 1] != '/') pre += "/";
  bool array = r.chance(30);
  if (array) { prefix = ""; pre = ""; }
  // decoys
  put("/Groupx/k0", "17"); put("/axb/k0", "18"); put("/a.bc", "19"); put("/xxy/z/List/e/number", "3");
  std::vector<Slot> slots(r.below(6));
  bool all = true;
  std::string ctx = "batch " + mon::q(prefix);
  for (size_t i = 0; i < slots.size(); ++i)
  {
    Slot& s = slots[i];
    s.type = int(r.below(5)); s.with_default = r.chance(40); s.present = r.chance(75); s.ok = r.chance(80);
    s.key = (pre.empty() ? "/top/" : "") + std::string("k") + std::to_string(i);
    s.text = text_for(r, s.type, s.ok); if (s.type == 2) s.ok = true;
    s.reset(r); s.di = int32_t(r.next()); s.dd = r.unit(); s.ds = r.chance(50) ? "the default" : "d2"; s.db = r.chance(50); s.dc = Color(r.below(3));
    if (s.present) put(pre + s.key, s.text);
    all = all && (s.with_default || (s.present && s.ok));
  }
  std::vector<Slot> before = slots;
  // a list among them
  bool list = r.chance(60), open = false, list_ok = true;
  unsigned mask = 0;
  std::string lp = (pre.empty() ? "/" : "") + std::string(r.chance(80) ? "List" : r.chance(50) ? "L.st" : "Li+st(");
  std::vector<Entry> want, got; std::list<Entry> got_list;
  if (list)
  {
    mask = unsigned(1 + r.below(511));
    size_t n = r.below(5);
    bool clean = r.chance(70);
    for (size_t i = 0; i < n; ++i)
    {
      std::string e = r.chance(70) ? "e" + std::to_string(r.below(12)) : r.pick(std::vector<std::string>{ "Name", "1", "10", "2", "x.y", "a b", "number" });
      for (unsigned m = 0; m < 9; ++m) if (r.chance(40)) put(pre + lp + "/" + e + (mems[m].suffix.empty() ? "" : "/" + mems[m].suffix), text_for(r, mems[m].type, clean || r.chance(85)));
      if (r.chance(20)) put(pre + lp + "/" + e + "/unknown", "x");
      if (r.chance(20)) put(pre + lp + "/" + e + "/number/more", "x");
    }
    if (r.chance(30)) put(pre + lp, "text of the list itself");
    if (r.chance(30)) put(pre + lp + "x/e1/number", "5");
    list_ok = list_model(pre + lp, mask, want, open);
    if (!list_ok) want.clear();
    all = all && list_ok;
  }
  int runs = r.chance(40) ? 2 : 1;
  bool cleanup = r.chance(50);
  bool report = r.chance(50);
  size_t total = slots.size() + (list ? 1 : 0) + 1;
  ConfigValueList values; std::vector<impl::ConfigValueIface *> arr;
  size_t at = list ? r.below(slots.size() + 1) : 99;
  bool use_list = r.chance(50);
  for (size_t i = 0; i <= slots.size(); ++i)
  {
    if (list && i == at) arr.push_back(use_list ? (impl::ConfigValueIface *)new ConfigList<Entry, std::back_insert_iterator<std::list<Entry> > >(lp, members(mask, r), std::back_inserter(got_list))
                                                : (impl::ConfigValueIface *)CONFIG_LIST(Entry, lp, members(mask, r), std::back_inserter(got)));
    if (i < slots.size()) arr.push_back(make(slots[i], r));
  }
  arr.push_back(new Destroyed);
  values.assign(arr.begin(), arr.end());
  arr.push_back(NULL);
  size_t expected = 0;
  for (int run = 0; run < runs; ++run)
  {
    bool last = run + 1 == runs;
    if (run) for (size_t i = 0; i < slots.size(); ++i) if (r.chance(50))       // other values now
    { Slot& s = slots[i]; s.text = text_for(r, s.type, true); s.ok = s.present = true; put(pre + s.key, s.text); }
    if (run && !array && !pre.empty() && r.chance(50))                          // the same requests below another prefix
    {
      prefix = "/second"; pre = "/second/";
      for (size_t i = 0; i < slots.size(); ++i)
      {
        Slot& s = slots[i]; s.present = r.chance(70); s.ok = true;
        if (s.present) { s.text = text_for(r, s.type, true); put(pre + s.key, s.text); }
      }
      if (list) for (unsigned m = 0; m < 9; ++m) if (r.chance(40)) put(pre + lp + "/e" + std::to_string(r.below(4)) + (mems[m].suffix.empty() ? "" : "/" + mems[m].suffix), text_for(r, mems[m].type, true));
      mon::stat("obs.other_prefix");
    }
    if (run)
    {
      all = true; for (size_t i = 0; i < slots.size(); ++i) all = all && (slots[i].with_default || (slots[i].present && slots[i].ok));
      if (list) { want.clear(); list_ok = list_model(pre + lp, mask, want, open); if (!list_ok) want.clear(); all = all && list_ok; }
    }
    before = slots;
    destroyed = 0;
    mon::phase(ctx);
    bool clean_now = last && cleanup;
    bool res = array ? icl_core::config::get(&arr[0], icl_core::logging::Nirwana::instance(), clean_now, report)
             : prefix.empty() && r.chance(50) ? icl_core::config::get(values, icl_core::logging::Nirwana::instance(), clean_now, report)
             : icl_core::config::get(prefix, values, icl_core::logging::Nirwana::instance(), clean_now, report);
    std::string c2 = ctx + (array ? " (array)" : "") + (run ? ", second run" : "");
    for (size_t i = 0; i < slots.size(); ++i) judge(slots[i], before[i], c2);
    if (list)
    {
      std::vector<Entry> g = use_list ? std::vector<Entry>(got_list.begin(), got_list.end()) : got;
      MON_CHECK(g.size() == expected + want.size(), "list_size", "list " << lp << " gave " << g.size() - expected << " elements instead of " << want.size() << " in " << c2);
      for (size_t i = 0; i < want.size(); ++i) MON_CHECK(g[expected + i] == want[i], "list", "element " << i << " of list " << lp << " is " << g[expected + i].show() << " instead of " << want[i].show() << " in " << c2);
      expected = g.size();
      mon::stat("obs.list_elements", want.size());
    }
    MON_CHECK(res == all, res ? "accepted" : "refused", c2 << " returned " << res);
    MON_CHECK(destroyed == (clean_now ? 1 : 0), "cleanup", c2 << " destroyed " << destroyed << " of the values, cleanup " << clean_now);
    mon::stat(res ? "obs.complete" : "obs.incomplete");
    mon::stat("obs.slots", slots.size());
    mon::Hash h; h.add(total).add(mask).add(want.size()).add(array).add(cleanup).add(run).add(prefix);
    for (size_t i = 0; i < slots.size(); ++i) h.add(slots[i].type).add(slots[i].present).add(slots[i].ok).add(slots[i].with_default);
    mon::state(h);
    if (mon::want_sample()) mon::sample(c2 + " of " + std::to_string(total) + " values returned " + (res ? "true" : "false"));
  }
  if (!cleanup) for (size_t i = 0; i + 1 < arr.size(); ++i) delete arr[i];
  (void)index;
}
} // namespace

namespace mon {
void setup() { }
void teardown() { }
void run_case(uint64_t index, Rng& r)
{
  for (int k = 0; k < 4; ++k) { Rng cr(r.next()); in_child([&]() { one(cr, index); }); }
}
}
