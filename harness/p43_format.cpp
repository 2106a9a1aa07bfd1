// P43: log formats render exactly what they describe.
#include "mon_log.h"
#include "mon_clock.h"
#include "icl_core_config/Config.h"
using locks::tick;

struct TextSink : public il::LogOutputStream
{
  std::vector<std::string> got;
  std::atomic<long> count;
  TextSink(const std::string& name, bool worker, const std::string& prefix = "/VerifNone", il::LogLevel level = il::eLL_TRACE)
    : il::LogOutputStream(name, prefix, level, worker), count(0) { }
private:
  virtual void pushImpl(const icl_core::String& line) { got.push_back(line); count.fetch_add(1, std::memory_order_release); }
};

struct Msg { int level; std::string stream, file, cls, obj, fun, text; int line; int64_t ns; };
struct Entry { char type; size_t width; std::string prefix; };   // type 0: literal in prefix
typedef std::vector<Entry> Format;

static const char *level_name[] = { "Trace", "Debug", "Info", "Warning", "Error", "Mute" };

// Exact size, so that reading beyond the end of the text is seen.
struct Exact
{
  char *p;
  explicit Exact(const std::string& s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); }
  ~Exact() { memset(p, '?', strlen(p)); free(p); }
};

static std::string spell(const Format& f)
{
  std::ostringstream o;
  for (size_t i = 0; i < f.size(); ++i)
  {
    if (!f[i].type) o << f[i].prefix;
    else { o << "~"; if (f[i].width) o << f[i].width; o << f[i].prefix << f[i].type; }
  }
  return o.str();
}
static std::string pad(const std::string& s, size_t w, bool left)
{
  if (s.size() >= w) return s;
  return left ? s + std::string(w - s.size(), ' ') : std::string(w - s.size(), ' ') + s;
}
static std::string render(const Format& f, const Msg& whole, const std::string& time_format, bool left)
{
  std::string r;
  Msg m = whole;
  m.stream = m.stream.substr(0, il::cMAX_IDENTIFIER_LENGTH); m.cls = m.cls.substr(0, il::cMAX_IDENTIFIER_LENGTH); m.fun = m.fun.substr(0, il::cMAX_IDENTIFIER_LENGTH);
  m.file = m.file.substr(0, il::cMAX_DESCRIPTION_LENGTH); m.obj = m.obj.substr(0, il::cMAX_DESCRIPTION_LENGTH);
  m.text = m.text.substr(0, cDEFAULT_LOG_SIZE);
  for (size_t i = 0; i < f.size(); ++i)
  {
    const Entry& e = f[i];
    std::ostringstream n;
    switch (e.type)
    {
      case 0: r += e.prefix; break;
      case 'C': if (!m.cls.empty()) r += e.prefix + pad(m.cls, e.width, left); break;
      case 'D': if (!m.fun.empty()) r += e.prefix + pad(m.fun, e.width, left); break;
      case 'O': if (!m.obj.empty()) r += e.prefix + pad(m.obj, e.width, left) + (e.prefix == "(" ? ")" : e.prefix == "[" ? "]" : e.prefix == "{" ? "}" : ""); break;
      case 'E': r += m.text; break;
      case 'F': r += pad(m.file, e.width, left); break;
      case 'G': n << m.line; r += pad(n.str(), e.width, left); break;
      case 'L': r += pad(level_name[m.level], e.width, left); break;
      case 'S': r += pad(m.stream, e.width, left); break;
      case 'T':
      {
        time_t t = time_t(m.ns / 1000000000); struct tm tm; localtime_r(&t, &tm);
        char b[4000]; size_t k = strftime(b, sizeof b, time_format.c_str(), &tm);
        r += pad(std::string(b, k), e.width, left);
        break;
      }
      case 'M':
      {
        n << m.ns / 1000000 % 1000;
        r += n.str().size() < e.width ? std::string(e.width - n.str().size(), '0') + n.str() : n.str();
        break;
      }
    }
  }
  return r;
}

static std::string word(mon::Rng& r, size_t max) { return r.str("abcxyz_:%{} 019.CODE~\\\xc3\xa4", 0, max); }
// Texts around the sizes up to which the fields are kept (as declared in Constants.h).
static std::string around(mon::Rng& r, size_t limit)
{
  std::string s = word(r, 20);
  const size_t n = r.chance(70) ? limit - 3 + r.below(7) : limit + r.below(limit);
  while (s.size() < n) s += char('a' + s.size() % 26);
  return s;
}
static Msg message(mon::Rng& r)
{
  Msg m;
  m.level = int(r.below(5));
  m.stream = r.str("StreamXY", 1, 20); m.file = word(r, r.chance(10) ? 500 : 30); m.cls = r.chance(30) ? "" : word(r, 30);
  m.obj = r.chance(30) ? "" : word(r, 30); m.fun = r.chance(20) ? "" : word(r, 40); m.text = word(r, r.chance(10) ? 1500 : 60);
  if (r.chance(70)) m.text += "\n";
  m.line = int(r.chance(80) ? r.range(0, 20000) : r.range(0, 0x7fffffff));
  if (r.chance(8))
  {
    const bool all = r.chance(40);
    const unsigned which = unsigned(r.below(6));
    if (all || which == 0) m.stream = around(r, il::cMAX_IDENTIFIER_LENGTH);
    if (all || which == 1) m.file = around(r, il::cMAX_DESCRIPTION_LENGTH);
    if (all || which == 2) m.cls = around(r, il::cMAX_IDENTIFIER_LENGTH);
    if (all || which == 3) m.obj = around(r, il::cMAX_DESCRIPTION_LENGTH);
    if (all || which == 4) m.fun = around(r, il::cMAX_IDENTIFIER_LENGTH);
    if (all || which == 5) m.text = around(r, cDEFAULT_LOG_SIZE);
    mon::stat("obs.long_fields");
  }
  m.ns = r.range(0, 4000000000ll) * 1000000000 + (r.chance(40) ? r.range(0, 110) * 1000000 : r.range(0, 999999999));
  return m;
}
static Format format(mon::Rng& r)
{
  Format f;
  const int n = int(r.range(1, r.chance(10) ? 40 : 8));
  for (int i = 0; i < n; ++i)
  {
    Entry e;
    e.width = 0;
    if (r.chance(30) && (f.empty() || f.back().type))
    {
      e.type = 0;
      e.prefix = r.str("abc <>[](){}:,.%\\\"'0123CODET\xe9\n", 1, r.chance(15) ? 300 : 10);
      if (r.chance(5)) e.prefix = std::string(size_t(r.range(97, 103)), 'x');
    }
    else
    {
      e.type = "CODEFGLSTM"[r.below(10)];
      if (r.chance(35)) e.width = size_t(r.chance(80) ? r.range(1, 12) : r.range(1, 150));
      if (e.type == 'O' && r.chance(60)) e.prefix = std::string(1, "([{"[r.below(3)]);
      if ((e.type == 'C' || e.type == 'D') && r.chance(50))
      {
        e.prefix = r.str(" :;.,-<>abc#[\xfc", 1, r.chance(10) ? 140 : 6);
        if (r.chance(5)) e.prefix = std::string(size_t(r.range(97, 103)), ':');
      }
    }
    f.push_back(e);
  }
  return f;
}
static void log(TextSink& s, const Msg& m)
{
  clock_set(m.ns);
  s.push(il::LogLevel(m.level), m.stream.c_str(), m.file.c_str(), m.line, m.cls.c_str(), m.obj.c_str(), m.fun.c_str(), m.text.c_str());
}

static std::string odd(const Format& f, const Msg& m)
{
  std::string w;
  for (size_t i = 0; i < f.size(); ++i) { if (f[i].width && f[i].type != 'M' && f[i].type != 'E') { w = "width"; } if (f[i].prefix.size() >= 100) return "long"; }
  (void)m;
  return w.empty() ? "text" : w;
}

static std::string hostile(mon::Rng& r)
{
  switch (r.below(5))
  {
    case 0: return "~" + r.str("0123", 0, 3);
    case 1: return spell(format(r)) + "~" + r.str("0123", 0, 2) + r.str("abc (", 0, 150);
    case 2: return r.str("~~~CODEFGLSTM0([{ab", 0, 60);
    case 3: { std::string s; const size_t n = size_t(r.range(1, 400)); int digits = 0; for (size_t i = 0; i < n; ++i) { char c = r.chance(20) ? '~' : char(r.range(1, 255)); if (c >= '0' && c <= '9') { if (++digits > 2) c = '~'; } else digits = 0; if (c == '~') digits = 0; s += c; } return s; }
    default: { std::string s = "~"; s += char(r.range(128, 255)); s += r.str("\x80\xff\xfe~ab", 0, 300); return s; }
  }
}

static void rendering(mon::Rng& r)
{
  static const char *zones[] = { "UTC", "Europe/Berlin", "America/St_Johns", "Asia/Kathmandu", "XYZ-13:45" };
  setenv("TZ", zones[r.below(5)], 1); tzset();
  const bool worker = r.chance(40);
  std::string prefix = "/VerifNone";
  Format current;
  bool known = false;
  std::string tf = "%Y-%m-%d %H:%M:%S";
  std::string deflt = "<~T.~3M> ~S(~L)~ C~(O~::D: ~E";
  if (r.chance(30))
  {
    current = format(r); known = true;
    prefix = "/VerifFormat";
    icl_core::config::setValue("/VerifFormat/Format", spell(current));
  }
  TextSink *s = new TextSink("text", worker, prefix);
  if (!known)
  {
    // the documented default
    const Entry e[] = { { 0, 0, "<" }, { 'T', 0, "" }, { 0, 0, "." }, { 'M', 3, "" }, { 0, 0, "> " }, { 'S', 0, "" }, { 0, 0, "(" }, { 'L', 0, "" }, { 0, 0, ")" },
                        { 'C', 0, " " }, { 'O', 0, "(" }, { 'D', 0, "::" }, { 0, 0, ": " }, { 'E', 0, "" } };
    current.assign(e, e + 14);
    known = true;
    mon::stat("obs.default_format");
  }
  s->start();
  size_t expected = 0;
  for (int i = 0; i < int(r.range(5, 25)); ++i)
  {
    const int what = int(r.below(10));
    if (what < 3)
    {
      current = format(r);
      const std::string t = spell(current);
      mon::phase("changeLogFormat(" + mon::q(t, 200) + ")");
      Exact x(t);
      s->changeLogFormat(x.p);
      known = true;
    }
    else if (what == 3)
    {
      const std::string t = hostile(r);
      mon::phase("changeLogFormat(" + mon::q(t, 200) + ")");
      Exact x(t);
      s->changeLogFormat(x.p);
      if (!t.empty()) known = false;
      mon::stat("obs.hostile");
    }
    else if (what == 4)
    {
      static const char *f[] = { "%H:%M", "%Y-%m-%d %H:%M:%S", "%s", "%j day of %Y in %Z", "%%", "no time at all", "%A %A %A %A %A %A %A %A %A" };
      tf = f[r.below(7)];
      Exact x(tf);
      s->changeTimeFormat(x.p);
    }
    const Msg m = message(r);
    mon::phase("message in format " + mon::q(spell(current), 300));
    log(*s, m);
    ++expected;
    if (worker) MON_CHECK(mon::wait_for([&]() { return size_t(s->count.load(std::memory_order_acquire)) >= expected; }, 60000), "not-rendered", "a message was not rendered within a minute");
    MON_CHECK(s->got.size() == expected, "not-rendered", s->got.size() << " lines for " << expected << " messages with format " << mon::q(spell(current)));
    if (known)
    {
      const std::string& g = s->got.back();
      const std::string a = render(current, m, tf, true), b = render(current, m, tf, false);
      MON_CHECK(g == a || g == b, odd(current, m), "format " << mon::q(spell(current)) << " renders as " << mon::q(g) << " instead of " << mon::q(a));
      mon::Hash h;
      for (size_t k = 0; k < current.size() && k < 4; ++k) h.add(uint64_t(current[k].type)).add(current[k].width != 0).add(current[k].prefix.size() > 99 ? 2 : !current[k].prefix.empty());
      mon::state(h.add(m.cls.empty()).add(m.obj.empty()).add(m.fun.empty()));
      mon::stat("obs.rendered");
      if (mon::want_sample()) mon::sample(mon::q(spell(current), 200) + " renders as " + mon::q(g, 200));
    }
  }
  clock_set(-1);
  s->shutdown();
  delete s;
}

// Several threads change the format and log at once: every line is rendered by one of the formats.
static void concurrent(mon::Rng& r)
{
  sched_perturb(unsigned(r.below(2)) * 10, r.next());
  const bool worker = r.chance(60);
  TextSink *s = new TextSink("text", worker);
  std::vector<std::string> f;
  f.push_back("A(~S) ~E|~L~12G\n"); f.push_back("B ~E ~E ~C\n"); f.push_back("~L C ~F ~E " + std::string(90, 'c') + "\n"); f.push_back("D~E\n");
  s->changeLogFormat(f[0].c_str());
  s->start();
  const int changers = int(r.range(1, 2)), T = int(r.range(1, 3));
  std::atomic<int> left(T);
  locks::Threads th;
  for (int c = 0; c < changers; ++c)
  {
    mon::Rng q(r.next());
    th.add([&, q]() mutable {
      while (left.load(std::memory_order_relaxed) > 0)
      {
        Exact x(f[q.below(f.size())]);
        s->changeLogFormat(x.p);
        if (q.chance(30)) { static const char *tf[] = { "%H", "%M %S" }; Exact y(tf[q.below(2)]); s->changeTimeFormat(y.p); }
        mon::stat("obs.concurrent_changes");
        mon::sleep_us(q.range(0, 120));
      }
    });
  }
  const int per = int(r.range(10, 60));
  for (int t = 0; t < T; ++t)
  {
    mon::Rng q(r.next());
    th.add([&, t, q]() mutable {
      for (int i = 0; i < per; ++i)
      {
        std::ostringstream o; o << t << "." << i;
        s->push(il::eLL_WARNING, "str", "file", 77, "cls", "", "", o.str().c_str());
        if (q.chance(20)) mon::sleep_us(q.range(0, 100));
      }
      left.fetch_sub(1, std::memory_order_relaxed);
    });
  }
  th.join();
  // from here on only one format can be in force
  const size_t last = size_t(r.below(f.size()));
  if (worker) mon::wait_for([&]() { return s->count.load() >= T * per; }, 60000);
  s->changeLogFormat(f[last].c_str());
  s->push(il::eLL_WARNING, "str", "file", 77, "cls", "", "", "final");
  s->shutdown();
  MON_CHECK(s->got.size() == size_t(T * per) + 1, "concurrent-count", s->got.size() << " lines for " << T * per + 1 << " messages");
  std::set<std::string> seen;
  mon::Hash h;
  for (size_t i = 0; i < s->got.size(); ++i)
  {
    const std::string& g = s->got[i];
    size_t which = f.size();
    std::string id;
    for (int t = -1; t < T && which == f.size(); ++t)
      for (int k = 0; k < (t < 0 ? 1 : per) && which == f.size(); ++k)
      {
        std::ostringstream o; if (t < 0) o << "final"; else o << t << "." << k;
        id = o.str();
        const std::string g12a = std::string(10, ' ') + "77", g12b = "77" + std::string(10, ' ');
        if (g == "A(str) " + id + "|Warning" + g12a + "\n" || g == "A(str) " + id + "|Warning" + g12b + "\n" || g == "A(str) " + id + "|Warning77\n") which = 0;
        else if (g == "B " + id + " " + id + " cls\n") which = 1;
        else if (g == "Warning C file " + id + " " + std::string(90, 'c') + "\n") which = 2;
        else if (g == "D" + id + "\n") which = 3;
      }
    MON_CHECK(which < f.size(), "mixed", "the line " << mon::q(g) << " is rendered by none of the formats set while it was logged");
    MON_CHECK(seen.insert(id).second, "mixed", "message " << id << " was rendered twice");
    MON_CHECK(id != "final" || which == last, "late", "a message logged after the last change of the format is rendered by another format");
    h.add(uint64_t(which));
  }
  mon::stat("obs.concurrent_lines", s->got.size());
  mon::state(h);
  delete s;
  sched_perturb(0, 1);
}

// The manager changes the format of the output of that name and of no other.
static std::map<std::string, TextSink *> managed;
static il::LogOutputStream *make_managed(const icl_core::String& name, const icl_core::String& prefix, il::LogLevel level)
{
  TextSink *s = new TextSink(name, name != "Second", prefix, level);
  managed[name] = s;
  return s;
}
static void by_name(mon::Rng& r)
{
  static const char *names[] = { "First", "Second", "First", "Second", "Fir", "Second ", "OutputStream2", "VerifText", "" };
  static std::map<std::string, Format> current;
  for (int i = int(r.range(3, 12)); i > 0; --i)
  {
    const std::string name = names[r.below(current.size() < 2 ? 2 : 9)];
    const Format f = format(r);
    const std::string t = spell(f);
    mon::phase("changeLogFormat(" + mon::q(name) + ", " + mon::q(t, 200) + ")");
    { Exact x(t); il::LoggingManager::instance().changeLogFormat(name, x.p); }
    if (managed.count(name)) { current[name] = f; mon::stat("obs.by_name"); } else mon::stat("obs.by_unknown_name");
    const Msg m = message(r);
    for (std::map<std::string, Format>::iterator c = current.begin(); c != current.end(); ++c)
    {
      TextSink& s = *managed[c->first];
      const long before = s.count.load(std::memory_order_acquire);
      log(s, m);
      MON_CHECK(mon::wait_for([&]() { return s.count.load(std::memory_order_acquire) > before; }, 60000), "not-rendered", "a message was not rendered within a minute");
      const std::string& g = s.got.back();
      const std::string a = render(c->second, m, "%Y-%m-%d %H:%M:%S", true), b = render(c->second, m, "%Y-%m-%d %H:%M:%S", false);
      MON_CHECK(g == a || g == b, "by-name", "after changeLogFormat(" << mon::q(name) << ", " << mon::q(t) << ") the output " << c->first << " with the format " << mon::q(spell(c->second)) << " writes " << mon::q(g) << " instead of " << mon::q(a));
    }
  }
  for (std::map<std::string, TextSink *>::iterator s = managed.begin(); s != managed.end(); ++s) if (s->second->got.size() > 1000) s->second->got.clear();
  clock_set(-1);
}

void mon::run_case(uint64_t i, Rng& r) { if (mon::cfg().mode == "concurrent") concurrent(r); else { rendering(r); if (i % 4 == 0) by_name(r); } }
void mon::setup()
{
  icl_core::config::setValue("/IclCore/Logging/OutputStream1/OutputStreamName", "None");
  static const char *keys[][2] = { { "2", "First" }, { "3", "Second" } };
  for (int i = 0; i < 2; ++i)
  {
    const std::string p = std::string("/IclCore/Logging/OutputStream") + keys[i][0];
    icl_core::config::setValue(p + "/OutputStreamName", "VerifText");
    icl_core::config::setValue(p + "/Name", keys[i][1]);
    icl_core::config::setValue(p + "/LogStream", "NoSuchStream");
  }
  il::LoggingManager::instance().registerLogOutputStream("VerifText", &make_managed);
  il::LoggingManager::instance().initialize();
}
void mon::teardown() { il::LoggingManager::instance().shutdown(); }
