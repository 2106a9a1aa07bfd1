// P41: a delivered message carries exactly what was logged, cut only at the limits.
#ifdef LOGMON_LOCAL
# define ICL_CORE_LOCAL_LOGGING
#endif
#include "mon_log.h"
#include <functional>
#include <algorithm>
#include "icl_core_config/Config.h"
using namespace logmon;

DECLARE_LOG_STREAM(Macro)
REGISTER_LOG_STREAM(Macro)

static const size_t ID = 256, DESC = 1024, TEXT = 2046;   // what a message holds at least: identifiers, descriptions, text

static std::string any(mon::Rng& r, size_t limit)
{
  size_t n;
  switch (r.below(8))
  {
    case 0: n = 0; break;
    case 1: n = limit - 1; break;
    case 2: n = limit; break;
    case 3: n = limit + 1; break;
    case 4: n = size_t(r.range(int64_t(limit) - 4, int64_t(limit) + 4)); break;
    case 5: n = size_t(r.range(int64_t(limit), 5000)); break;
    default: n = size_t(r.range(1, 40)); break;
  }
  std::string s;
  const int kind = int(r.below(3));
  for (size_t i = 0; i < n; ++i) s += kind == 0 ? char('a' + r.below(26)) : kind == 1 ? char(r.range(1, 255)) : "%sn\\'\"~\n,;{}"[r.below(12)];
  return s;
}
static std::string cut(const std::string& s, size_t limit) { return s.substr(0, limit); }

struct Want { int level; std::string stream, file, cls, obj, fun, text; size_t line; bool newline, exact_text; int64_t t0, t1; const char *how; };

static int64_t real_us() { return locks::real_ns() / 1000; }

static void judge(const Want& w, const Got& g)
{
  std::ostringstream what; what << w.how << ", stream " << w.stream.size() << " file " << w.file.size() << " class " << w.cls.size() << " object " << w.obj.size()
    << " function " << w.fun.size() << " text " << w.text.size() << " characters: ";
#define SAME(f, limit) MON_CHECK(g.f == cut(w.f, limit), "field:" #f, what.str() << #f << " is " << mon::q(g.f, 80) << " (" << g.f.size() << ") instead of " \
    << mon::q(cut(w.f, limit), 80) << " (" << cut(w.f, limit).size() << ")")
  SAME(stream, ID); SAME(file, DESC); SAME(cls, ID); SAME(obj, DESC); SAME(fun, ID);
  MON_CHECK(g.level == w.level, "field:level", what.str() << "level " << g.level << " instead of " << w.level);
  MON_CHECK(g.line == w.line, "field:line", what.str() << "line " << g.line << " instead of " << w.line);
  // the text
  const std::string full = w.text + (w.newline ? "\n" : "");
  if (w.text.size() <= TEXT)
    MON_CHECK(g.text == full, "field:text", what.str() << "text is " << mon::q(g.text, 200) << " (" << g.text.size() << ") instead of " << mon::q(full, 200) << " (" << full.size() << ")");
  else
  {
    std::string body = g.text;
    if (w.newline)
    {
      MON_CHECK(!body.empty() && body[body.size() - 1] == '\n', "field:newline", what.str() << "the cut text has lost its end of line");
      body.erase(body.size() - 1);
    }
    MON_CHECK(body.size() >= TEXT && body.size() <= w.text.size() && w.text.compare(0, body.size(), body) == 0, "field:cut", what.str() << "the text (" << body.size() << ") is not a prefix of what was written: "
              << mon::q(body.substr(body.size() > 60 ? body.size() - 60 : 0)));
    mon::stat("obs.cut_texts");
  }
  MON_CHECK(g.nsec >= 0 && g.nsec < 1000000000, "field:time", "time stamp out of normal form");
  const int64_t us = g.sec * 1000000 + g.nsec / 1000;
  MON_CHECK(us >= w.t0 && us <= w.t1, "field:time", what.str() << "time stamp " << us << " is not between " << w.t0 << " and " << w.t1 << ", when it was logged");
}

// ------------------------------------------------------------ contents of any length
// The statements of this part stand in a function with a name of any length.
static std::string here;
#define __FUNCTION__ here.c_str()
static void contents(mon::Rng& r)
{
  std::string name = any(r, ID);
  if (name.find('\n') != std::string::npos || name.empty()) name = "Stream";
  il::LogStream *ls = new il::LogStream(name, il::eLL_TRACE);
  Sink *a = new Sink("a", r.chance(50)), *b = new Sink("b", r.chance(50));
  ls->addOutputStream(a); ls->addOutputStream(b);
  a->start(); b->start();
  std::vector<Want> want;
  const int n = int(r.range(1, 12));
  bool fresh = r.chance(30);
  for (int i = 0; i < n; ++i)
  {
    Want w;
    w.stream = name; w.level = int(r.below(5)); w.newline = false; w.exact_text = true;
    const il::LogLevel lv = il::LogLevel(w.level);
    w.file = any(r, DESC); w.cls = any(r, ID); w.obj = any(r, DESC); w.fun = r.chance(60) ? std::string("contents") : any(r, ID); w.line = size_t(r.range(0, 100000)); w.text = any(r, TEXT);
    w.t0 = real_us();
    int how = int(r.below(6));
    if (how == 5) how = 6;
    if (fresh) how = 5;
    mon::phase("a message");
    here = w.fun;
    switch (how)
    {
      case 0: case 1:
      {
        // in up to four pieces, in up to three statements
        std::vector<size_t> at(4);
        at[0] = 0;
        for (size_t k = 1; k < 4; ++k) at[k] = r.chance(60) ? size_t(r.below(w.text.size() + 1)) : at[k - 1];
        std::sort(at.begin(), at.end());
        std::string p[4];
        for (size_t k = 0; k < 4; ++k) p[k] = w.text.substr(at[k], (k == 3 ? w.text.size() : at[k + 1]) - at[k]);
        if (r.chance(40))
        {
          const std::string other = any(r, DESC);
          here = any(r, ID);
          SLOGGING_LOG_FLCO((*ls), lv, other.c_str(), 1, "other", other.c_str(), p[0]);
          here = w.fun;
          p[0].clear();
        }
        w.how = "streamed";
        if (how == 0) { w.newline = true; SLOGGING_LOG_FLCO((*ls), lv, w.file.c_str(), w.line, w.cls.c_str(), w.obj.c_str(), p[0] << p[1] << p[2].c_str() << p[3] << il::endl); }
        else SLOGGING_LOG_FLCO((*ls), lv, w.file.c_str(), w.line, w.cls.c_str(), w.obj.c_str(), p[0] << p[1] << p[2].c_str() << p[3] << il::flush);
        break;
      }
      case 2:
      {
        w.how = "printf";
        const size_t at = r.chance(40) ? size_t(r.below(w.text.size() + 1)) : 0;
        std::string head = w.text.substr(0, at);
        if (at) SLOGGING_LOG_FLCO((*ls), lv, "x", 1, "y", "z", head);
        std::string tail = w.text.substr(at);
        // the head is cut as if it stood alone
        SLOGGING_FMT_LOG_FLCO((*ls), lv, w.file.c_str(), w.line, w.cls.c_str(), w.obj.c_str(), "%s%s", tail.substr(0, tail.size() / 2).c_str(), tail.substr(tail.size() / 2).c_str());
        break;
      }
      case 3: case 4:
      {
        w.how = "pushed";
        w.fun = any(r, ID);
        const std::string st = any(r, ID);
        w.stream = st;
        a->push(lv, st.c_str(), w.file.c_str(), int(w.line), w.cls.c_str(), w.obj.c_str(), w.fun.c_str(), w.text.c_str());
        b->push(lv, st.c_str(), w.file.c_str(), int(w.line), w.cls.c_str(), w.obj.c_str(), w.fun.c_str(), w.text.c_str());
        break;
      }
      case 5:
      {
        // the first use of a new stream, without a location
        fresh = false;
        w.how = "without location";
        w.file = w.cls = w.obj = w.fun = ""; w.line = 0; w.newline = true;
        il::ThreadStream& t = ls->threadStream(lv);
        t.setLineLogLevel(lv);
        t << w.text << il::endl;
        mon::stat("obs.without_location");
        break;
      }
      case 6:
      {
        // computing what is logged logs at other levels
        w.how = "streamed around others"; w.newline = true;
        const int deep = int(r.range(1, 4));
        std::vector<Want> in;
        std::function<std::string(int, unsigned)> inner = [&](int depth, unsigned used) -> std::string
        {
          Want v;
          do v.level = int(r.below(5)); while (used & (1u << v.level));
          v.stream = name; v.newline = true; v.exact_text = true; v.how = "streamed inside of others";
          v.file = any(r, DESC); v.cls = any(r, ID); v.obj = any(r, DESC); v.fun = r.chance(60) ? std::string("inner") : any(r, ID); v.line = size_t(r.range(0, 100000)); v.text = any(r, TEXT);
          std::string h = v.text.substr(0, v.text.size() / 3), m = v.text.substr(v.text.size() / 3, v.text.size() / 3), t = v.text.substr(v.text.size() / 3 * 2);
          v.t0 = real_us();
          here = v.fun;
          SLOGGING_LOG_FLCO((*ls), il::LogLevel(v.level), v.file.c_str(), v.line, v.cls.c_str(), v.obj.c_str(),
                            h << (depth > 0 ? inner(depth - 1, used | (1u << v.level)) : std::string()) << m << t << il::endl);
          v.t1 = real_us();
          in.push_back(v);
          return "";
        };
        const std::string h = w.text.substr(0, w.text.size() / 2), t = w.text.substr(w.text.size() / 2);
        SLOGGING_LOG_FLCO((*ls), lv, w.file.c_str(), w.line, w.cls.c_str(), w.obj.c_str(), h << inner(deep - 1, 1u << w.level) << t << il::endl);
        for (size_t k = 0; k < in.size(); ++k) want.push_back(in[k]);
        mon::stat("obs.nested", in.size());
        break;
      }
    }
    w.t1 = real_us();
    want.push_back(w);
  }
  mon::phase("shutdown");
  a->shutdown(); b->shutdown();
  for (int k = 0; k < 2; ++k)
  {
    Sink& s = k ? *b : *a;
    MON_CHECK(s.got.size() == want.size(), "count", s.got.size() << " messages received, " << want.size() << " written");
    for (size_t i = 0; i < want.size(); ++i)
    {
      judge(want[i], s.got[i]);
      const Want& w = want[i];
      mon::state(mon::Hash().add(w.how).add(w.text.size() < TEXT ? 0 : w.text.size() - TEXT + 1).add(w.file.size() > DESC).add(w.cls.size() > ID).add(w.obj.size() > DESC)
                 .add(w.fun.size() > ID).add(w.stream.size() > ID).add(uint64_t(w.level)));
    }
  }
  mon::stat("obs.messages", want.size());
  if (mon::want_sample()) { std::ostringstream o; o << want[0].how << ": text of " << want[0].text.size() << ", file name of " << want[0].file.size() << ", object name of " << want[0].obj.size() << " characters"; mon::sample(o.str()); }
  delete ls; delete a; delete b;
}

#undef __FUNCTION__

// ------------------------------------------------------------ every logging macro
static bool debug_on = true;
static bool Debug() { return debug_on; }
struct Entry { const char *how; bool enabled; int level; const char *cls; bool obj; bool member; size_t line; std::string fun; std::function<void(const std::string&, const std::string&)> f; };
static std::string fun_name;
#ifdef _IC_DEBUG_
static const bool dbg = true;
#else
static const bool dbg = false;
#endif
#ifdef ICL_CORE_LOCAL_LOGGING
static const bool local = true;
#else
static const bool local = false;
#endif
#define ENTRY(NAME, EN, LV, CLS, OBJ, MEMBER, CALL) { Entry e = { NAME, EN, int(il::LV), CLS, OBJ, MEMBER, __LINE__, "operator()", [](const std::string& t, const std::string& o) { (void)t; (void)o; CALL; } }; v.push_back(e); }
#define THREE(FAM, STREAM, EN, MEMBER, LVN, LV) \
  ENTRY(#FAM "_" #LVN, EN, LV, "", false, MEMBER, FAM##_##LVN(STREAM, t << il::endl)) \
  ENTRY(#FAM "_" #LVN "_C", EN, LV, "Some::Class", false, MEMBER, FAM##_##LVN##_C(STREAM, Some::Class, t << il::endl)) \
  ENTRY(#FAM "_" #LVN "_CO", EN, LV, "Some::Class", true, MEMBER, FAM##_##LVN##_CO(STREAM, Some::Class, o.c_str(), t << il::endl)) \
  ENTRY(#FAM "_FMT_" #LVN, EN, LV, "", false, MEMBER, FAM##_FMT_##LVN(STREAM, "%s\n", t.c_str())) \
  ENTRY(#FAM "_FMT_" #LVN "_C", EN, LV, "Some::Class", false, MEMBER, FAM##_FMT_##LVN##_C(STREAM, Some::Class, "%s\n", t.c_str())) \
  ENTRY(#FAM "_FMT_" #LVN "_CO", EN, LV, "Some::Class", true, MEMBER, FAM##_FMT_##LVN##_CO(STREAM, Some::Class, o.c_str(), "%s\n", t.c_str()))
#define FAMILY(FAM, STREAM, EN, MEMBER) \
  THREE(FAM, STREAM, (EN), MEMBER, ERROR, eLL_ERROR) THREE(FAM, STREAM, (EN), MEMBER, WARNING, eLL_WARNING) THREE(FAM, STREAM, (EN), MEMBER, INFO, eLL_INFO) \
  THREE(FAM, STREAM, (EN) && dbg, MEMBER, DEBUG, eLL_DEBUG) THREE(FAM, STREAM, (EN) && dbg, MEMBER, TRACE, eLL_TRACE)

static std::vector<Entry>& entries()
{
  static std::vector<Entry> v;
  if (v.empty())
  {
    FAMILY(SLOGGING, Macro::instance(), true, false)
    FAMILY(LOGGING, Macro, true, false)
    FAMILY(MLOGGING, Macro, true, true)
    FAMILY(LLOGGING, Macro, local, false)
  }
  return v;
}

static void macros(mon::Rng& r)
{
  std::vector<Entry>& v = entries();
  Sink *a = new Sink("macros", r.chance(50));
  Macro::instance().addOutputStream(a);
  a->start();
  std::vector<Want> want;
  for (int i = 0; i < 60; ++i)
  {
    const Entry& e = v[r.below(v.size())];
    debug_on = r.chance(70);
    Want w;
    w.how = e.how; w.stream = "Macro"; w.level = e.level; w.file = __FILE__; w.line = e.line; w.cls = e.cls; w.obj = e.obj ? any(r, DESC) : ""; w.fun = e.fun;
    w.text = r.str("abc %d{}'", 0, 60); w.newline = true;
    w.t0 = real_us();
    mon::phase(e.how);
    e.f(w.text, w.obj);
    w.t1 = real_us();
    if (e.enabled && (debug_on || !e.member)) want.push_back(w);
    else mon::stat("obs.disabled_statements");
  }
  a->shutdown();
  Macro::instance().removeOutputStream(a);
  MON_CHECK(a->got.size() == want.size(), "macro-count", a->got.size() << " messages received, " << want.size() << " enabled statements executed; the first difference: "
            << [&]() { for (size_t i = 0; i < want.size() && i < a->got.size(); ++i) if (a->got[i].line != want[i].line) return std::string(want[i].how); return std::string("at the end"); }());
  for (size_t i = 0; i < want.size(); ++i) { judge(want[i], a->got[i]); mon::state(mon::Hash().add("macro").add(want[i].how)); }
  mon::stat("obs.statements", want.size());
  delete a;
}

void mon::run_case(uint64_t i, Rng& r) { if (i % 5 == 4) macros(r); else contents(r); }
void mon::setup()
{
  // every level passes, and nothing goes to the console
  icl_core::config::setValue("/IclCore/Logging/OutputStream1/OutputStreamName", "None");
  icl_core::config::setValue("/IclCore/Logging/LogStream1/Name", "Macro");
  icl_core::config::setValue("/IclCore/Logging/LogStream1/LogLevel", "Trace");
  il::LoggingManager::instance().initialize();
}
void mon::teardown() { il::LoggingManager::instance().shutdown(); }
