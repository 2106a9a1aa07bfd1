// P53: every old (capitalised or t-prefixed) name does what its replacement does.
// A generated script runs twice, each time in a process of its own: once it uses the old names, once the new ones.
// Everything it can observe (values, exceptions by type, files, standard output) goes into a transcript; the two are equal.
#include "mon_log.h"
#include <iostream>
#include <fstream>
#include <limits>
#include <type_traits>
#include <dirent.h>
#include "icl_core/BaseTypes.h"
#include "icl_core/BitfieldHelper.h"
#include "icl_core/EnumHelper.h"
#include "icl_core/KeyValueDirectory.h"
#include "icl_core/RingBuffer.h"
#include "icl_core/SchemeParser.h"
#include "icl_core/SearchableStack.h"
#include "icl_core/SequenceNumber.h"
#include "icl_core/StringHelper.h"
#include "icl_core/TimeSpan.h"
#include "icl_core/TimeStamp.h"
#include "icl_core/os_fs.h"
#include "icl_core/os_thread.h"
#include "icl_core/tList.h"
#include "icl_core/tMap.h"
#include "icl_core/tQueue.h"
#include "icl_core/tRingBuffer.h"
#include "icl_core/tSearchableStack.h"
#include "icl_core/tSequenceNumber.h"
#include "icl_core/tVector.h"
#include "icl_core_config/AttributeTree.h"
#include "icl_core_config/Config.h"
#include "icl_core_config/ConfigObserver.h"
#include "icl_core_config/tConfigValues.h"
#include "icl_core_logging/ScopedSemaphore.h"
#include "icl_core_logging/Semaphore.h"
#include "icl_core_logging/ThreadStream.h"
#include "icl_core_thread/ActiveObject.h"
#include "icl_core_thread/Common.h"
#include "icl_core_thread/Mutex.h"
#include "icl_core_thread/PeriodicThread.h"
#include "icl_core_thread/RWLock.h"
#include "icl_core_thread/ScopedMutexLock.h"
#include "icl_core_thread/ScopedRWLock.h"
#include "icl_core_thread/Sem.h"
#include "icl_core_thread/Thread.h"
namespace ic = icl_core;
namespace cf = icl_core::config;
namespace it = icl_core::thread;
using mon::Rng;

#ifdef P53_UNUSABLE
// the old names of templates cannot be used at all; reported below
# define SetBits setBits
# define ClearBits clearBits
# define IsBitSet isBitSet
# define SEQ_MAX maxValue
# define SEQ_MIN minValue
#else
# define SEQ_MAX MaxValue
# define SEQ_MIN MinValue
#endif

static std::ostringstream *T;
static bool old_names;
static long said;
static void say(bool v) { *T << (v ? "yes" : "no"); }
static void say(const std::string& s) { *T << mon::q(s, 100000); }
static void say(const char *s) { if (s) *T << mon::q(s, 100000); else *T << "NULL"; }
static void say(char *s) { say(static_cast<const char *>(s)); }
static void say(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); *T << b; }
static void say(long double v) { char b[64]; snprintf(b, sizeof b, "%La", v); *T << b; }
template <class V> static typename std::enable_if<std::is_integral<V>::value || std::is_enum<V>::value>::type say(V v) { *T << (long long)(v); }
static void say(const struct timespec& t) { *T << (long long)t.tv_sec << ':' << t.tv_nsec; }
static void say(const ic::TimeBase& t) { *T << t.tbSec() << ':' << t.tbNSec(); }
static void say(const ic::TimeSpan& t) { *T << t.tsSec() << ':' << t.tsNSec(); }
static void say(const ic::TimeStamp& t) { *T << t.tsSec() << ':' << t.tsNSec(); }
template <class A, class B> static void say(const std::pair<A, B>& p) { say(p.first); *T << '/'; say(p.second); }
static void say(const ic::Scheme& s)
{
  *T << s.scheme_type << ' '; say(s.scheme_name); say(s.specifier); say(s.anchor);
  for (size_t i = 0; i < s.queries.size(); ++i) { say(s.queries[i].name); say(s.queries[i].value); }
}
static void begin(const char *what) { *T << what << " = "; mon::phase(std::string(old_names ? "old name of " : "new name: ") + what); ++said; }

// Reports the value of the old or of the new expression, or what it throws.
#define SAY(o, n) do { begin(#n); try { if (old_names) say(o); else say(n); } catch (const std::exception& e_) { *T << "throws " << typeid(e_).name(); } *T << '\n'; } while (0)
#define DO(o, n) do { begin(#n); try { if (old_names) { o; } else { n; } *T << "done"; } catch (const std::exception& e_) { *T << "throws " << typeid(e_).name(); } *T << '\n'; } while (0)
#define TELL(n) do { begin(#n); say(n); *T << '\n'; } while (0)

static std::string word(Rng& r) { static const std::vector<std::string> w = { "a", "b", "abc", "Name", "x y", "", "A.b", "  t ", "end", "9" }; return r.chance(70) ? r.pick(w) : r.str("abcXYZ 019_-.,;", 0, 20); }
static std::string slurp(const std::string& f) { std::ifstream in(f.c_str(), std::ios::binary); std::ostringstream o; o << in.rdbuf(); return o.str(); }
static void spit(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary); o << s; if (!o) mon::broken("cannot write " + f); }

// ------------------------------------------------------------------ small things of the core
template <class B> static void bits(Rng& r)
{
  B o = B(r.next() & (r.chance(50) ? ~0ull : 0xff));
  for (int i = 0; i < 6; ++i)
  {
    const int m = r.chance(50) ? int(r.next() & 0x7fffffff) : 1 << r.below(31), b = 1 << r.below(31);
    switch (r.below(3))
    {
      case 0: DO(ic::SetBits<B>(m, o), ic::setBits<B>(m, o)); break;
      case 1: DO(ic::ClearBits<B>(m, o), ic::clearBits<B>(m, o)); break;
      case 2: SAY(ic::IsBitSet<B>(b, o), ic::isBitSet<B>(b, o)); break;
    }
    TELL((long long)(o));
  }
}
template <class V> static void texts(Rng& r, V v)
{
  const size_t w = size_t(r.below(30)); const char c = char(r.range(32, 126));
  SAY(ic::Stringify<V>(v), ic::stringify<V>(v));
  SAY(ic::PadLeft<V>(v, w, c), ic::padLeft<V>(v, w, c));
  SAY(ic::PadRight<V>(v, w, c), ic::padRight<V>(v, w, c));
  SAY(ic::PadLeft<V>(v, w), ic::padLeft<V>(v, w));
  SAY(ic::PadRight<V>(v, w), ic::padRight<V>(v, w));
}
template <class S> static void seq(Rng& r)
{
  SAY(S::SEQ_MAX(), S::maxValue()); SAY(S::SEQ_MIN(), S::minValue());
  (void)r;
}
static void core_small(Rng& r)
{
  bits<int>(r); bits<unsigned>(r); bits<uint8_t>(r); bits<uint16_t>(r); bits<uint64_t>(r);
  static const char *d1[] = { "one", "two", "", "end", "three", NULL }, *d2[] = { "two", "two", "x y", "END", "one", "stop", NULL };
  for (int i = 0; i < 8; ++i)
  {
    static const std::vector<std::string> w = { "one", "two", "", "end", "three", "x y", "END", "stop", "One", "no" };
    const std::string s = r.pick(w);
    int32_t v = int32_t(r.range(-2, 9));
    const char **d = r.chance(50) ? d1 : d2;
    const char *e = d == d1 ? "end" : "stop";
    if (r.chance(60)) SAY(ic::String2Enum(s, v, d), ic::string2Enum(s, v, d));
    else SAY(ic::String2Enum(s, v, d, e), ic::string2Enum(s, v, d, e));
    TELL(v);
  }
  texts<int>(r, int(r.range(-100000, 100000))); texts<uint64_t>(r, r.next()); texts<double>(r, r.unit() * 1e6 - 5e5); texts<float>(r, float(r.unit()));
  texts<bool>(r, r.chance(50)); texts<long double>(r, (long double)(r.unit()) * 7); texts<char>(r, char(r.range(32, 126)));
  for (int i = 0; i < 4; ++i)
  {
    const std::string s = (r.chance(50) ? r.str(" \t\n", 0, 3) : "") + r.str("aBcDzZ @[`{\xc3\xa4\t", 0, 12) + (r.chance(50) ? r.str(" \t\n", 0, 3) : "");
    SAY(ic::Tolower(s), ic::toLower(s)); SAY(ic::Toupper(s), ic::toUpper(s)); SAY(ic::Trim(s), ic::trim(s));
    texts<ic::String>(r, s);
  }
  typedef ic::SequenceNumber<uint8_t, 255> A; typedef ic::SequenceNumber<uint16_t, 1000, 7, 9> B; typedef ic::SequenceNumber<uint32_t, 0xffffffffu, 1> C; typedef ic::SequenceNumber<uint64_t, 99, 98> D;
  seq<A>(r); seq<B>(r); seq<C>(r); seq<D>(r);
  SAY(ic::os::ThreadSelf() == it::Thread::selfId(), ic::os::threadSelf() == it::Thread::selfId());
}

// ------------------------------------------------------------------ key/value directory, schemes, files
static void core_kv(Rng& r)
{
  typedef ic::KeyValueDirectory<int> K;
  K k;
  static const std::vector<std::string> keys = { "/a/b", "/a/c", "/a/bb", "/x", "", "/a", "/a/b/c", "b" }, qs = { "/a/.*", "/(.)/(.*)", "", "/a", ".*", "x(", "/(a)/(b+)", "(/[ax])(/b)?" };
  for (int i = 0; i < 12; ++i)
  {
    const std::string s = r.pick(keys); int v = int(r.below(1000));
    switch (r.below(4))
    {
      case 0: case 1: SAY(k.Insert(s, v), k.insert(s, v)); break;
      case 2: SAY(k.Get(s, v), k.get(s, v)); TELL(v); break;
      case 3: SAY(k.HasKey(s), k.hasKey(s)); break;
    }
  }
  const std::string qu = r.pick(qs);
  DO(k.Find(qu), k.find(qu));
  if (qu != "x(")
  {
    ic::KeyValueDirectoryIterator<int> i = old_names ? k.Find(qu) : k.find(qu);
    for (int pass = 0; pass < 2; ++pass)
    {
      for (int n = 0; n < 12; ++n)
      {
        const bool more = old_names ? i.Next() : i.next();
        TELL(more);
        if (!more) break;
        SAY(i.Key(), i.key()); SAY(i.Value(), i.value());
        for (size_t g = 0; g < 4; ++g) SAY(i.MatchGroup(g), i.matchGroup(g));
        if (r.chance(10)) DO(i.Reset(), i.reset());
      }
      DO(i.Reset(), i.reset());
    }
  }
  for (int i = 0; i < 4; ++i)
  {
    static const std::vector<std::string> a = { "file://", "http://", "camera://", "gps://", "own://", "FILE:", "x" }, b = { "/a/b.txt", "host/x", "", "a b", "0" }, c = { "", "#top", "#", "?a=1&b=2", "?a=", "#x?k=v", "?=&" };
    const std::string s = r.pick(a) + r.pick(b) + r.pick(c);
    ic::SchemeParser p;
    SAY(p.ParseScheme(s), p.parseScheme(s));
    SAY(p.GetSchemeResult(), p.getSchemeResult());
    SAY(p.GetParseInfo().full, p.getParseInfo().full); SAY(p.GetParseInfo().hit, p.getParseInfo().hit); SAY(p.GetParseInfo().length, p.getParseInfo().length);
    ic::Scheme sch; BOOST_SPIRIT_NAMESPACE::parse_info<> info;
    SAY(ic::SchemeParser::ParseScheme(s, sch, info), ic::SchemeParser::parseScheme(s, sch, info));
    TELL(sch); TELL(info.full); TELL(info.length);
  }
  // packing a file
  for (int i = 0; i < 2; ++i)
  {
    const std::string f = r.chance(80) ? "data.txt" : "missing.txt";
    if (f == "data.txt") spit(f, r.str("abcdefg\n", 0, 3000));
    if (r.chance(50)) SAY(ic::os::ZipFile(f.c_str()), ic::os::zipFile(f.c_str()));
    else { const std::string e = word(r); SAY(ic::os::ZipFile(f.c_str(), e.c_str()), ic::os::zipFile(f.c_str(), e.c_str())); }
  }
}

// ------------------------------------------------------------------ ring buffers
template <class B> static void ring(Rng& r)
{
  B b(size_t(r.below(7)));
  for (int i = 0; i < 40; ++i)
  {
    const int v = int(r.below(1000)); const size_t at = size_t(r.below(8));
    switch (r.below(10))
    {
      case 0: case 1: case 2: DO(b.Write(v), b.write(v)); break;
      case 3: { const bool over = r.chance(70); DO(b.Write(v, over), b.write(v, over)); } break;
      case 4: SAY(b.Read(), b.read()); break;
      case 5: DO(b.Skip(), b.skip()); break;
      case 6: SAY(b.At(at), b.at(at)); SAY(const_cast<const B&>(b).At(at), const_cast<const B&>(b).at(at)); break;
      case 7: DO(b.At(at) = v, b.at(at) = v); break;
      case 8: if (r.chance(20)) DO(b.Clear(), b.clear()); else { const size_t c = size_t(r.below(7)); DO(b.SetCapacity(c), b.setCapacity(c)); } break;
      case 9: SAY(b.Capacity(), b.capacity()); break;
    }
    SAY(b.Size(), b.size());
  }
}
// the old class against the new one: the same calls on either
template <class B> static void w_write(B& b, int v, bool o) { b.write(v, o); }
static void w_write(ic::tRingBuffer<int>& b, int v, bool o) { b.Write(v, o); }
#define ADAPT(name, newf, oldf) template <class B> static auto name(B& b) -> decltype(b.newf()) { return b.newf(); } static auto name(ic::tRingBuffer<int>& b) -> decltype(b.oldf()) { return b.oldf(); }
ADAPT(w_read, read, Read) ADAPT(w_skip, skip, Skip) ADAPT(w_clear, clear, Clear) ADAPT(w_size, size, Size) ADAPT(w_cap, capacity, Capacity)
static void w_setcap(ic::RingBuffer<int>& b, size_t c) { b.setCapacity(c); }
static void w_setcap(ic::tRingBuffer<int>& b, size_t c) { b.SetCapacity(c); }
static int& w_at(ic::RingBuffer<int>& b, size_t i) { return b.at(i); }
static int& w_at(ic::tRingBuffer<int>& b, size_t i) { return b.At(i); }
static int w_cat(const ic::RingBuffer<int>& b, size_t i) { return b.at(i); }
static int w_cat(const ic::tRingBuffer<int>& b, size_t i) { return b.At(i); }
#define ONE(e) do { begin(#e); try { say(e); } catch (const std::exception& x_) { *T << "throws " << typeid(x_).name(); } *T << '\n'; } while (0)
#define RUN(e) do { begin(#e); try { e; *T << "done"; } catch (const std::exception& x_) { *T << "throws " << typeid(x_).name(); } *T << '\n'; } while (0)
template <class B> static void old_ring(Rng& r)
{
  const bool plain = r.chance(10);
  B first = plain ? B() : B(size_t(r.below(7))), second(size_t(r.below(4)));
  B *b = &first;
  for (int i = 0; i < 60; ++i)
  {
    const int v = int(r.below(1000)); const size_t at = size_t(r.below(8));
    switch (r.below(11))
    {
      case 0: case 1: case 2: { const bool o = r.chance(40); RUN(w_write(*b, v, o)); } break;
      case 3: RUN(w_write(*b, v, true)); break;
      case 4: ONE(w_read(*b)); break;
      case 5: RUN(w_skip(*b)); break;
      case 6: ONE(w_at(*b, at)); break;
      case 7: RUN(w_at(*b, at) = v); break;
      case 8: if (r.chance(15)) RUN(w_clear(*b)); else { const size_t c = size_t(r.below(7)); RUN(w_setcap(*b, c)); } break;
      case 9: if (r.chance(30)) { b = b == &first ? &second : &first; } else if (r.chance(30)) { second = first; } break;
      case 10: { B c(*b); ONE(w_size(c)); for (size_t k = 0; k < w_size(c); ++k) ONE(w_cat(c, k)); } break;
    }
    ONE(w_size(*b)); ONE(w_cap(*b));
    for (size_t k = 0; k < w_size(*b); ++k) ONE(w_cat(*b, k));
  }
}
template <class S, class V> static void old_stack(Rng& r)
{
  S s;
  for (int i = 0; i < 30; ++i)
  {
    const V v = V(r.below(9));
    switch (r.below(6))
    {
      case 0: case 1: RUN(s.push(v)); break;
      case 2: if (!s.empty()) RUN(s.pop()); break;
      case 3: if (!s.empty()) { ONE((long)s.top()); ONE((long)const_cast<const S&>(s).top()); s.top() = v; } break;
      case 4: ONE((long)(s.find(v) - s.begin())); break;
      case 5: if (r.chance(10)) RUN(s.clear()); break;
    }
    ONE(s.empty()); ONE(s.size());
    for (typename S::const_iterator k = s.begin(); k != s.end(); ++k) ONE((long)*k);
    for (typename S::const_reverse_iterator k = s.rbegin(); k != s.rend(); ++k) ONE((long)*k);
  }
}
template <class S, class TB> static void old_seq(Rng& r)
{
  S a;
  ONE(TB(a));
  const TB v = TB(r.range(7, 990));
  S b(v), c(b);
  ONE(TB(b)); ONE(TB(c));
  for (int i = 0; i < 10; ++i) { ONE(++b == c); ONE((b > c)); ONE((b < c)); ONE((b >= c)); ONE((b <= c)); ONE((b != c)); ONE(TB(b)); if (r.chance(30)) { c = b; } }
}
template <class V> static void old_vector(Rng& r)
{
  V e; ONE(e.size());
  const size_t n = size_t(r.below(9));
  V a(n), b(n, 7); ONE(a.size()); ONE(b.size());
  for (size_t i = 0; i < n; ++i) { ONE((long)a[i]); ONE((long)b[i]); }
  int arr[4] = { 3, 1, 4, 1 }; const size_t m = size_t(r.below(5));
  V c(arr, arr + m), d(c);
  ONE(d.size()); for (size_t i = 0; i < m; ++i) ONE((long)d[i]);
}
static void old_classes(Rng& r)
{
  if (old_names) old_ring<ic::tRingBuffer<int> >(r); else old_ring<ic::RingBuffer<int> >(r);
  if (old_names) old_stack<ic::tSearchableStack<int>, int>(r); else old_stack<ic::SearchableStack<int>, int>(r);
  if (old_names) old_stack<ic::tSearchableStack<double>, double>(r); else old_stack<ic::SearchableStack<double>, double>(r);
  if (old_names) old_seq<ic::tSequenceNumber<uint16_t, 1000, 7, 9>, uint16_t>(r); else old_seq<ic::SequenceNumber<uint16_t, 1000, 7, 9>, uint16_t>(r);
  if (old_names) old_seq<ic::tSequenceNumber<uint8_t, 255>, uint8_t>(r); else old_seq<ic::SequenceNumber<uint8_t, 255>, uint8_t>(r);
  if (old_names) old_vector<ic::tVector<int> >(r); else old_vector<std::vector<int> >(r);
  if (old_names) old_vector<ic::tVector<double> >(r); else old_vector<std::vector<double> >(r);
  ring<ic::RingBuffer<int> >(r);
}

// ------------------------------------------------------------------ times
template <class V> static int64_t ns(const V& t) { return int64_t(t.tsSec()) * 1000000000 + int64_t(t.tsNSec()); }
struct Open : public ic::TimeBase { Open(int64_t s, int32_t n) : ic::TimeBase(s, n) { } using ic::TimeBase::NormalizeTime; using ic::TimeBase::normalizeTime; using ic::TimeBase::FromTimespec; using ic::TimeBase::fromTimespec; static ic::TimeBase max_old() { return MaxTime(); } static ic::TimeBase max_new() { return maxTime(); } using ic::TimeBase::secs; using ic::TimeBase::nsecs; };
static void core_time(Rng& r)
{
  for (int i = 0; i < 6; ++i)
  {
    const int64_t s = r.chance(50) ? r.range(-100000, 100000) : r.chance(50) ? r.range(0, 9) : r.range(-4000000000000ll, 4000000000000ll);
    const int64_t n = r.range(-999999999, 999999999);
    const ic::TimeSpan a(s, n);
    const ic::TimeStamp b(uint64_t(s < 0 ? -s : s), uint32_t(n < 0 ? -n : n));
#define BOTH(o, nn) SAY(a.o(), a.nn()); SAY(b.o(), b.nn())
    BOTH(Days, days); BOTH(Hours, hours); BOTH(Minutes, minutes); BOTH(Seconds, seconds);
    BOTH(MilliSeconds, milliSeconds); BOTH(MicroSeconds, microSeconds); BOTH(NanoSeconds, nanoSeconds);
    BOTH(Timespec, timespec); SAY(b.SystemTimespec(), b.systemTimespec());
    BOTH(TsSec, tsSec); BOTH(TsNSec, tsNSec); BOTH(TsUSec, tsUSec);
    SAY(a.ToMSec(), a.toMSec()); SAY(a.ToUSec(), a.toUSec());
    if (s > -9000000000ll && s < 9000000000ll) SAY(a.ToNSec(), a.toNSec());
    SAY(ic::Abs(a), ic::abs(a));
    ic::TimeSpan c(1, 2);
    const int64_t x = r.range(-4000000000000ll, 4000000000000ll);
    SAY(c.FromSec(x), c.fromSec(x)); TELL(c); SAY(c.FromMSec(x), c.fromMSec(x)); TELL(c); SAY(c.FromUSec(x), c.fromUSec(x)); TELL(c);
    SAY(ic::TimeStamp::MaxTime(), ic::TimeStamp::maxTime());
    if (b.tsSec() < 200000000000ull)
    {
      static const std::vector<std::string> f = { "%Y-%m-%d", "%H:%M:%S", "%j %U %w", "", "%Y%m%d%H%M%S%Y%m%d%H%M%S%Y%m%d%H%M%S" };
      const std::string fm = r.pick(f);
      char buf[64]; memset(buf, 0, sizeof buf); const size_t len = r.chance(70) ? sizeof buf : size_t(r.range(1, 20));
      DO(b.Strftime(buf, len, fm.c_str()), b.strfTime(buf, len, fm.c_str()));
      if (len == sizeof buf) TELL(std::string(buf, strnlen(buf, sizeof buf)));
      memset(buf, 0, sizeof buf);
      DO(b.StrfLocaltime(buf, len, fm.c_str()), b.strfLocaltime(buf, len, fm.c_str()));
      if (len == sizeof buf) TELL(std::string(buf, strnlen(buf, sizeof buf)));
      SAY(b.FormatIso8601(), b.formatIso8601());
    }
    Open d(s, int32_t(r.range(-2147483647, 2147483647)));
    SAY(d.TbSec(), d.tbSec()); SAY(d.TbNSec(), d.tbNSec());
    d.secs = s; d.nsecs = int32_t(r.range(-2147483647, 2147483647));
    DO(d.NormalizeTime(), d.normalizeTime()); TELL(d.secs); TELL(d.nsecs);
    struct timespec ts; ts.tv_sec = time_t(s); ts.tv_nsec = long(n < 0 ? -n : n);
    DO(d.FromTimespec(ts), d.fromTimespec(ts)); TELL(d.secs); TELL(d.nsecs);
    SAY(Open::max_old(), Open::max_new());
  }
  // the clock
  const int64_t t0 = locks::real_ns();
  const ic::TimeStamp n1 = old_names ? ic::TimeStamp::Now() : ic::TimeStamp::now();
  const int64_t t1 = locks::real_ns();
  TELL((ns(n1) >= t0 - 2000 && ns(n1) <= t1 + 2000));
  ic::TimeStamp n2; const ic::TimeStamp n3 = old_names ? n2.FromNow() : n2.fromNow();
  const int64_t t2 = locks::real_ns();
  TELL((ns(n2) >= t1 - 2000 && ns(n2) <= t2 + 2000 && ns(n3) == ns(n2)));
  const uint64_t ms = r.below(100000000);
  const ic::TimeStamp n4 = old_names ? ic::TimeStamp::FutureMSec(ms) : ic::TimeStamp::futureMSec(ms);
  const int64_t t3 = locks::real_ns();
  TELL((ns(n4) - int64_t(ms) * 1000000 >= t2 - 2000 && ns(n4) - int64_t(ms) * 1000000 <= t3 + 2000));
  // time left, time to come
  const int64_t span = r.range(-10000, 10000);
  const ic::TimeStamp until = ic::TimeStamp::now() + ic::TimeSpan().fromMSec(span);
  const int64_t t4 = locks::real_ns();
  const ic::TimeSpan left = old_names ? it::impl::GetRelativeTimeout(until) : it::impl::getRelativeTimeout(until);
  const int64_t t5 = locks::real_ns();
  TELL((ns(left) >= ns(until) - t5 - 2000 && ns(left) <= ns(until) - t4 + 2000));
  const ic::TimeSpan rel = ic::TimeSpan().fromMSec(span);
  const ic::TimeStamp then = old_names ? it::impl::GetAbsoluteTimeout(rel) : it::impl::getAbsoluteTimeout(rel);
  const int64_t t6 = locks::real_ns();
  TELL((ns(then) >= t5 + ns(rel) - 2000 && ns(then) <= t6 + ns(rel) + 2000));
}

// ------------------------------------------------------------------ attribute trees
static std::string where(cf::AttributeTree *t)
{
  if (!t) return "NULL";
  std::string s;
  for (; t; t = t->parentTree()) s = std::string(t->getDescription() ? t->getDescription() : "-") + "|" + s;
  return s;
}
static void print(cf::AttributeTree *t)
{
  std::ostringstream o; t->printSubTree(o);
  TELL(o.str());
}
static void trees(Rng& r)
{
  setenv("VERIF_P53", word(r).c_str(), 1);
  for (int i = 0; i < 3; ++i)
  {
    static const std::vector<std::string> w = { "/a/b.txt", "a/../b", "c", "/x/./y/", "", "../z.tar.gz", "./q", "${VERIF_P53}/d.e", "\\a\\b", "//a" };
    const std::string f = r.pick(w), g = r.pick(w);
    SAY(cf::FilePath::IsRelativePath(f), cf::FilePath::isRelativePath(f)); SAY(cf::FilePath::NormalizePath(f), cf::FilePath::normalizePath(f));
    SAY(cf::FilePath::ExchangeSeparators(f), cf::FilePath::exchangeSeparators(f)); SAY(cf::FilePath::ReplaceEnvironment(f), cf::FilePath::replaceEnvironment(f));
    SAY(cf::FilePath::GetEnvironment("VERIF_P53"), cf::FilePath::getEnvironment("VERIF_P53")); SAY(cf::FilePath::GetEnvironment(g), cf::FilePath::getEnvironment(g));
    const cf::FilePath p(f.c_str());
    SAY(p.Path(), p.path()); SAY(p.Name(), p.name()); SAY(p.AbsoluteName(), p.absoluteName()); SAY(p.Extension(), p.extension());
    SAY(p.CurrentDir(), p.currentDir()); SAY(p.IsRelativePath(), p.isRelativePath()); SAY(p.AbsolutePath(g), p.absolutePath(g));
  }
  static const std::vector<std::string> names = { "a", "b", "c.d", "x", "a.b", "n", "" };
  cf::AttributeTree *t = new cf::AttributeTree();
  cf::AttributeTree *cur = t;
#define NODE(o, n) do { begin(#n); cf::AttributeTree *x_ = old_names ? (o) : (n); say(where(x_)); *T << '\n'; if (x_ && r.chance(40)) cur = x_; } while (0)
  for (int i = 0; i < 30; ++i)
  {
    const std::string a = r.pick(names), b = r.pick(names), v = word(r);
    const char *va = r.chance(10) ? NULL : v.c_str();
    cf::AttributeTree *sub = NULL;
    switch (r.below(24))
    {
      case 0: case 1: case 2: NODE(cur->SetAttribute(a.c_str(), va), cur->setAttribute(a.c_str(), va)); break;
      case 3: NODE(cur->SetAttribute(a.c_str(), b.c_str(), va), cur->setAttribute(a.c_str(), b.c_str(), va)); break;
      case 4: SAY(cur->GetAttribute(), cur->getAttribute()); SAY(cur->Attribute(), cur->attribute()); break;
      case 5: { const bool d = r.chance(50); if (d) SAY(cur->GetAttribute(a.c_str()), cur->getAttribute(a.c_str())); else { SAY(cur->GetAttribute(a.c_str(), va, &sub), cur->getAttribute(a.c_str(), va, &sub)); TELL(where(sub)); } } break;
      case 6: { char *x = NULL; const bool null = !va; SAY((x = cur->GetOrSetDefault(a.c_str(), null ? "d" : va)), (x = cur->getOrSetDefault(a.c_str(), null ? "d" : va))); } break;
      case 7: { const bool d = r.chance(50); char *x = old_names ? (d ? cur->NewSubNodeDescription() : cur->NewSubNodeDescription(v.c_str())) : (d ? cur->newSubNodeDescription() : cur->newSubNodeDescription(v.c_str())); TELL(x); free(x); } break;
      case 8: NODE(cur->AddNewSubTree(), cur->addNewSubTree()); break;
      case 9: { const int depth = int(r.below(5)); std::ostringstream o1, o2, o3;
                if (old_names) { t->PrintSubTree(o1); t->PrintSubTree(o2, depth); t->PrintSubTree(o3, depth, v.c_str()); } else { t->printSubTree(o1); t->printSubTree(o2, depth); t->printSubTree(o3, depth, v.c_str()); }
                TELL(o1.str()); TELL(o2.str()); TELL(o3.str()); } break;
      case 10: SAY(cur->Description(), cur->getDescription()); break;
      case 11: if (cur != t) DO(cur->SetDescription(a.c_str()), cur->setDescription(a.c_str())); break;
      case 12: DO(cur->SetAttribute(va), cur->setAttribute(va)); break;
      case 13: if (cur != t) { DO(cur->SetComment(v.c_str()), cur->setComment(v.c_str())); } break;
      case 14: NODE(cur->SubTree(a.c_str()), cur->subTree(a.c_str())); break;
      case 15: NODE(cur->GetSubTree(a.c_str()), cur->getSubTree(a.c_str())); break;
      case 16: { cf::AttributeTree *f = old_names ? cur->FirstSubTree() : cur->firstSubTree(); TELL(where(f)); if (f) NODE(cur->NextSubTree(f), cur->nextSubTree(f)); } break;
      case 17: NODE(cur->ParentTree(), cur->parentTree()); NODE(cur->Parent(), cur->parent()); NODE(cur->Root(), cur->root()); break;
      case 18: { cf::AttributeTree *n = new cf::AttributeTree(a.c_str()); NODE(cur->AddSubTree(n), cur->addSubTree(n)); } break;
      case 19: NODE(cur->Search(a.c_str(), va), cur->search(a.c_str(), va));
               { const bool d = r.chance(50); if (d) SAY(cur->IsAttribute(a.c_str()), cur->isAttribute(a.c_str())); else SAY(cur->IsAttribute(a.c_str(), va), cur->isAttribute(a.c_str(), va)); } break;
      case 20: SAY(cur->Changed(), cur->changed()); SAY(cur->Contains(), cur->contains()); if (r.chance(40)) DO(cur->UnmarkChanges(), cur->unmarkChanges()); SAY(t->Changed(), t->changed()); break;
      case 21: SAY(cur->Comment(), cur->comment()); SAY(cur->HasComment(), cur->hasComment()); SAY(cur->IsComment(), cur->isComment()); SAY(cur->HasMultilineComment(), cur->hasMultilineComment()); SAY(cur->IsMultilineComment(), cur->isMultilineComment());
               TELL(where(old_names ? cur->CommentAttributeTree() : cur->commentAttributeTree())); break;
      case 22: { const bool d = r.chance(50);
                 if (d) { DO(cur->AppendAttribute(v.c_str()), cur->appendAttribute(v.c_str())); } else DO(cur->AppendAttribute(v.c_str(), b.c_str()), cur->appendAttribute(v.c_str(), b.c_str()));
                 if (cur != t) { if (d) DO(cur->AppendDescription(a.c_str()), cur->appendDescription(a.c_str())); else DO(cur->AppendDescription(a.c_str(), "_"), cur->appendDescription(a.c_str(), "_")); } } break;
      case 23: if (r.chance(60)) DO(cur->RevertOrder(), cur->revertOrder());
               else if (r.chance(40)) { DO(cur->UnlinkSub(), cur->unlinkSub()); }
               else if (cur != t) { cf::AttributeTree *x = cur; cur = t; DO(x->Unlink(), x->unlink()); delete x; } break;
    }
    if (i % 5 == 0) print(t);
  }
  // files
  { const bool d = r.chance(50), un = r.chance(50); const int depth = int(r.below(4));
    if (d) SAY(t->Save("t.tree"), t->save("t.tree")); else SAY(t->Save("t.tree", depth, un), t->save("t.tree", depth, un));
    SAY(t->Changed(), t->changed()); }
  spit("in.tree", std::string("# comment\na:1\nb{\n  :v\n  c:2\n  a:") + r.str("xyz", 1, 4) + "\n}\n! second comment\nz{\n  a:1\n  b:2\n}\n" + (r.chance(40) ? "(inc.tree)\n" : ""));
  spit("inc.tree", "i:7\n");
  for (int i = 0; i < 2; ++i)
  {
    const bool un = r.chance(50), inc = r.chance(50), com = r.chance(50), pre = r.chance(50), d = r.chance(30);
    const std::string f = r.chance(80) ? "in.tree" : r.chance(50) ? "t.tree" : "none.tree";
    cf::AttributeTree x, y;
    if (d) SAY(x.Load(f.c_str()), x.load(f.c_str())); else SAY(x.Load(f.c_str(), un, inc, com, pre), x.load(f.c_str(), un, inc, com, pre));
    print(&x); SAY(x.GetFilePath(), x.getFilePath()); SAY(x.FileName(), x.fileName()); SAY(x.Changed(), x.changed());
    std::ifstream in("in.tree"); const cf::FilePath fp("in.tree");
    if (d) { SAY(y.Get(in), y.get(in)); } else SAY(y.Get(in, inc, com, &fp), y.get(in, inc, com, &fp));
    print(&y);
  }
  delete t;
}

// ------------------------------------------------------------------ command line and configuration
static void params(Rng& r)
{
  const std::string opt = r.chance(50) ? "long:" : "only-long"; const cf::GetoptParameter g(opt, r.chance(50) ? "l" : "", "help " + word(r), r.chance(50));
  SAY(g.Option(), g.option()); SAY(g.ShortOption(), g.shortOption()); SAY(g.HasValue(), g.hasValue()); SAY(g.Help(), g.help()); SAY(g.IsPrefixOption(), g.isPrefixOption());
  const std::string key = "/k/" + word(r), dv = word(r);
  const cf::ConfigParameter c1("oo:", "o", key, "help", dv), c2("pp:", "p", key, "help");
  SAY(c1.ConfigKey(), c1.configKey()); SAY(c1.HasDefaultValue(), c1.hasDefaultValue()); SAY(c1.DefaultValue(), c1.defaultValue());
  SAY(c2.ConfigKey(), c2.configKey()); SAY(c2.HasDefaultValue(), c2.hasDefaultValue()); SAY(c2.DefaultValue(), c2.defaultValue());
  SAY(c1.Option(), c1.option()); SAY(c2.ShortOption(), c2.shortOption());
}
struct Args
{
  std::vector<std::string> s; std::vector<char *> p; int argc;
  void add(const std::string& x) { s.push_back(x); }
  char **argv() { p.clear(); for (size_t i = 0; i < s.size(); ++i) p.push_back(&s[i][0]); p.push_back(NULL); argc = int(s.size()); return &p[0]; }
};
static void tell_args(int argc, char **argv) { TELL(argc); for (int i = 0; i < argc; ++i) TELL(argv[i]); }
static Args command_line(Rng& r)
{
  Args a; a.add(r.chance(80) ? "/usr/bin/prog" : "prog");
  const int n = int(r.below(8));
  for (int i = 0; i < n; ++i)
    switch (r.below(10))
    {
      case 0: a.add("-v"); break;
      case 1: a.add("--value=" + std::to_string(r.below(100))); break;
      case 2: a.add("-n"); a.add(std::to_string(r.below(100))); break;
      case 3: a.add("--pre-" + r.str("ab", 1, 2) + "=" + r.str("xy", 0, 2)); break;
      case 4: a.add("free" + std::to_string(i)); break;
      case 5: a.add("--kind=" + std::string(r.chance(50) ? "two" : "bad")); break;
      case 6: if (r.chance(15)) a.add("--unknown=1"); break;
      case 7: a.add("--key=" + r.str("abc", 1, 3)); break;
      case 8: if (r.chance(30)) { a.add("--"); a.add("x1"); a.add("-y"); } break;
      case 9: a.add("--value=" + r.str("09a", 0, 2)); break;
    }
  return a;
}
static void add_options(cf::Getopt& g, Rng& r)
{
  const cf::GetoptParameter v("verbose2", "v", "flag"), n("value:", "n", "number"), k("kind:", "", "enum");
  cf::GetoptParameterList l; l.push_back(n); l.push_back(k);
  DO(g.AddParameter(v), g.addParameter(v)); DO(g.AddParameter(l), g.addParameter(l));
  const cf::GetoptParameter p("pre-:", "", "prefix", true);
  DO(g.AddParameter(p), g.addParameter(p));
  if (r.chance(50)) { if (r.chance(50)) DO(g.ActivateExtraCmdParams(), g.activateExtraCmdParams()); else DO(g.ActivateExtraCmdParams("--"), g.activateExtraCmdParams("--")); }
}
static void ask_options(const cf::Getopt& g, Rng& r)
{
  SAY(g.IsInitialized(), g.isInitialized()); SAY(g.ProgramName(), g.programName());
  SAY(g.ExtraCmdParamCount(), g.extraCmdParamCount()); SAY(g.ParamNonOptCount(), g.paramNonOptCount());
  for (size_t i = 0; i < 3; ++i) { SAY(g.ExtraCmdParam(i), g.extraCmdParam(i)); SAY(g.ParamNonOpt(i), g.paramNonOpt(i)); }
  static const char *o[] = { "verbose2", "v", "value", "n", "kind", "nothing", "key" };
  for (size_t i = 0; i < 7; ++i) { const std::string s = o[i]; SAY(g.ParamOpt(s), g.paramOpt(s)); SAY(g.ParamOptPresent(s), g.paramOptPresent(s)); }
  SAY(g.ParamPrefixOptPresent("pre-"), g.paramPrefixOptPresent("pre-")); SAY(g.ParamPrefixOptPresent("x-"), g.paramPrefixOptPresent("x-"));
  const cf::Getopt::KeyValueList l = old_names ? g.ParamPrefixOpt("pre-") : g.paramPrefixOpt("pre-");
  for (cf::Getopt::KeyValueList::const_iterator i = l.begin(); i != l.end(); ++i) { TELL(i->m_key); TELL(i->m_value); }
  if (r.chance(50)) DO(g.PrintHelp(), g.printHelp());
}
static void options(Rng& r)
{
  params(r);
  TELL((old_names ? &cf::Getopt::Instance() : &cf::Getopt::instance()) == &cf::Getopt::instance());
  cf::Getopt& g = cf::Getopt::instance();
  add_options(g, r);
  Args a = command_line(r); char **argv = a.argv(); int argc = a.argc;
  SAY(g.IsInitialized(), g.isInitialized());
  switch (r.below(3))
  {
    case 0: { const bool rm = r.chance(50); SAY(g.Initialize(argc, argv, rm), g.initialize(argc, argv, rm)); } break;
    case 1: SAY(g.Initialize(argc, argv), g.initialize(argc, argv)); break;
    case 2: { const cf::Getopt::CommandLineCleaning c = r.chance(50) ? cf::Getopt::eCLC_None : cf::Getopt::eCLC_Cleanup; const cf::Getopt::ParameterRegistrationCheck k = r.chance(50) ? cf::Getopt::ePRC_Strict : cf::Getopt::ePRC_Relaxed;
              SAY(g.Initialize(argc, argv, c, k), g.initialize(argc, argv, c, k)); } break;
  }
  tell_args(argc, argv);
  ask_options(g, r);
  DO(cf::DebugOutCommandLine(argc, argv), cf::debugOutCommandLine(argc, argv));
  // the functions around the command line
  static const char *kinds[] = { "one", "two", "three", NULL };
  int v = 5; ic::String s = "s"; bool b = false;
  SAY(cf::ParamOptPresent("value"), cf::paramOptPresent("value"));
  SAY(cf::ParamOpt<int>("value", v), cf::paramOpt<int>("value", v)); TELL(v);
  SAY(cf::ParamOpt<int>(ic::String("n"), v), cf::paramOpt<int>(ic::String("n"), v)); TELL(v);
  SAY(cf::ParamOpt<ic::String>("value", s), cf::paramOpt<ic::String>("value", s)); TELL(s);
  SAY(cf::ParamOpt<bool>("verbose2", b), cf::paramOpt<bool>("verbose2", b)); TELL(b);
  int32_t e = 7;
  SAY(cf::ParamOpt<int32_t>("kind", e, kinds), cf::paramOpt<int32_t>("kind", e, kinds)); TELL(e);
  SAY(cf::ParamOpt<int32_t>(ic::String("kind"), e, kinds, "two"), cf::paramOpt<int32_t>(ic::String("kind"), e, kinds, "two")); TELL(e);
  SAY(cf::ParamOptDefault<int>("value", 42), cf::paramOptDefault<int>("value", 42));
  SAY(cf::ParamOptDefault<int>(ic::String("nothing"), 42), cf::paramOptDefault<int>(ic::String("nothing"), 42));
  for (size_t i = 0; i < 3; ++i)
  {
    SAY(cf::ParamNonOpt<int>(i, v), cf::paramNonOpt<int>(i, v)); TELL(v);
    SAY(cf::ParamNonOpt<ic::String>(i, s), cf::paramNonOpt<ic::String>(i, s)); TELL(s);
    SAY(cf::ParamNonOpt<int32_t>(i, e, kinds), cf::paramNonOpt<int32_t>(i, e, kinds)); TELL(e);
    SAY(cf::ParamNonOpt(i), cf::paramNonOpt(i)); SAY(cf::ExtraCmdParam(i), cf::extraCmdParam(i));
  }
  SAY(cf::ExtraCmdParamCount(), cf::extraCmdParamCount());
}
struct Obs : public cf::ConfigObserver { void valueChanged(const ic::String& k) { TELL("changed"); TELL(k); } };
static void config(Rng& r)
{
  std::string xml = "<root>";
  static const char *names[] = { "a", "b", "c", "kind", "flag", "num" };
  for (int i = 0; i < 6; ++i)
    if (r.chance(75)) { static const std::vector<std::string> v = { "1", "two", "true", "3.5", "0x10", "word", "-7", "three", "no" }; xml += std::string("<") + names[i] + ">" + r.pick(v) + "</" + names[i] + ">"; }
  xml += "<list><x>1</x><y>2</y></list></root>";
  spit("c.xml", xml);
  TELL((old_names ? &cf::ConfigManager::Instance() : &cf::ConfigManager::instance()) == &cf::ConfigManager::instance());
  cf::ConfigManager& m = cf::ConfigManager::instance();
  const cf::ConfigParameter p1("key:", "k", "/opt/key", "h", "dflt"), p2("two:", "", "/opt/two", "h"), p3("three:", "", "/opt/three", "h", word(r));
  cf::ConfigParameterList l; l.push_back(p2); l.push_back(p3);
  DO(m.AddParameter(p1), m.addParameter(p1)); DO(m.AddParameter(l), m.addParameter(l));
  SAY(m.IsInitialized(), m.isInitialized());
  Args a = command_line(r);
  std::vector<std::string> keep(1, "prog");
  for (size_t i = 1; i < a.s.size(); ++i) if (a.s[i].compare(0, 6, "--key=") == 0 || a.s[i].compare(0, 4, "free") == 0 || a.s[i] == "--unknown=1") keep.push_back(a.s[i]);
  if (r.chance(80)) { keep.push_back("-c"); keep.push_back("c.xml"); }
  a.s = keep; char **argv = a.argv(); int argc = a.argc;
  const int how = int(r.below(3));
  if (how == 0) { const bool rm = r.chance(50); SAY(cf::Initialize(argc, argv, rm), cf::initialize(argc, argv, rm)); }
  else if (how == 1) SAY(cf::Initialize(argc, argv), cf::initialize(argc, argv));
  else { cf::Getopt::instance().initialize(argc, argv, cf::Getopt::eCLC_None, cf::Getopt::ePRC_Relaxed); SAY(m.Initialize(), m.initialize()); }
  tell_args(argc, argv);
  SAY(m.IsInitialized(), m.isInitialized());
  DO(m.Dump(), m.dump()); DO(cf::Dump(), cf::dump());
  Obs o1, o2;
  DO(m.RegisterObserver(&o1), m.registerObserver(&o1)); DO(m.RegisterObserver(&o2, "/a"), m.registerObserver(&o2, "/a"));
  static const char *kinds[] = { "one", "two", "three", "four", NULL };
  static const std::vector<std::string> keys = { "/a", "/b", "/c", "/kind", "/flag", "/num", "/list/x", "/opt/key", "/opt/two", "/none" };
  for (int i = 0; i < 14; ++i)
  {
    const std::string k = r.pick(keys); const char *kc = k.c_str();
    int v = 77; ic::String s = "before"; bool b = r.chance(50); double d = 1.25; int32_t e = 9;
    switch (r.below(13))
    {
      case 0: SAY(cf::Get<int>(k, v), cf::get<int>(k, v)); TELL(v); break;
      case 1: SAY(cf::Get<int>(kc, v), cf::get<int>(kc, v)); TELL(v); break;
      case 2: SAY(cf::Get<ic::String>(k, s), cf::get<ic::String>(k, s)); TELL(s); break;
      case 3: SAY(cf::Get<bool>(k, b), cf::get<bool>(k, b)); TELL(b); break;
      case 4: SAY(cf::Get<double>(k, d), cf::get<double>(k, d)); TELL(d); break;
      case 5: SAY(cf::Get<int32_t>(k, e, kinds), cf::get<int32_t>(k, e, kinds)); TELL(e); break;
      case 6: SAY(cf::Get<int32_t>(kc, e, kinds, "three"), cf::get<int32_t>(kc, e, kinds, "three")); TELL(e); break;
      case 7: SAY(cf::GetDefault<int>(k, 5), cf::getDefault<int>(k, 5)); SAY(cf::GetDefault<int>(kc, 6), cf::getDefault<int>(kc, 6)); break;
      case 8: SAY(cf::GetDefault<ic::String>(k, "dd"), cf::getDefault<ic::String>(k, "dd")); SAY(cf::GetDefault<double>(k, 0.5), cf::getDefault<double>(k, 0.5)); break;
      case 9: DO(cf::SetValue<int>(k, i), cf::setValue<int>(k, i)); break;
      case 10: DO(cf::SetValue<int>(kc, i), cf::setValue<int>(kc, i)); { const ic::String tx = word(r); DO(cf::SetValue(k, tx), cf::setValue(k, tx)); } break;
      case 11: SAY(m.SetValue<double>(k, 2.5), m.setValue<double>(k, 2.5)); break;
      case 12: { const std::string q = r.chance(50) ? "/.*" : "/(list)/(.*)"; cf::ConfigIterator it_ = old_names ? cf::Find(q) : cf::find(q); for (int n = 0; n < 20 && it_.next(); ++n) { TELL(it_.key()); TELL(it_.value()); TELL(it_.matchGroup(1)); } } break;
    }
    if (i == 7) { DO(m.UnregisterObserver(&o1), m.unregisterObserver(&o1)); }
  }
  // old and new batch values
  int v1 = -1, v2 = -2; int32_t e1 = -3, e2 = -4; ic::String s1 = "-";
  const std::string k1 = r.pick(keys), k2 = r.pick(keys);
  static const char *pk[] = { "one", "two", "three", "four", NULL };
  il::LogStream *ls = new il::LogStream("P53", il::eLL_TRACE);
  bool batch = false;
  if (old_names)
  {
    const cf::ConfigValues cv = { new cf::TConfigValue<int>(k1, v1), new cf::TConfigValueDefault<int>(k2, v2, 55), new cf::TConfigEnum<int32_t>("/kind", e1, pk), new cf::TConfigEnumDefault<int32_t>(k2, e2, 3, pk, "four"), new cf::TConfigValue<ic::String>("/a", s1), NULL };
    batch = cf::Get(cv, *ls);
  }
  else
  {
    const cf::ConfigValues cv = { new cf::ConfigValue<int>(k1, v1), new cf::ConfigValueDefault<int>(k2, v2, 55), new cf::ConfigEnum<int32_t>("/kind", e1, pk), new cf::ConfigEnumDefault<int32_t>(k2, e2, 3, pk, "four"), new cf::ConfigValue<ic::String>("/a", s1), NULL };
    batch = cf::get(cv, *ls);
  }
  TELL(batch); TELL(v1); TELL(v2); TELL(e1); TELL(e2); TELL(s1);
}

// ------------------------------------------------------------------ logging
struct Rec : public il::LogOutputStream
{
  Rec(const std::string& n, const std::string& prefix, il::LogLevel l, bool worker) : il::LogOutputStream(n, prefix, l, worker), in(0), out(0) { }
  std::string got; long in, out;
private:
  virtual void onStart() { ++in; }
  virtual void onShutdown() { ++out; }
  virtual void pushImpl(const std::string& line) { got += "line " + line + "\n"; }
};
static const il::LogLevel LV[] = { il::eLL_TRACE, il::eLL_DEBUG, il::eLL_INFO, il::eLL_WARNING, il::eLL_ERROR, il::eLL_MUTE };
static il::LogLevel lv(Rng& r, bool mute = true) { return LV[r.below(mute ? 6 : 5)]; }
static void streams(Rng& r)
{
  const il::LogLevel l0 = lv(r);
  il::LogStream *s = new il::LogStream(word(r) + "S", l0);
  SAY(s->Name(), s->name()); SAY(s->NameCStr(), s->nameCStr()); SAY(s->InitialLogLevel(), s->initialLogLevel()); SAY(s->IsActive(), s->isActive()); SAY(s->LogLevel(), s->getLogLevel());
  Rec *a = new Rec("A", "/None", lv(r), false), *b = new Rec("B", "/None", lv(r), true);
  SAY(a->Name(), a->name()); SAY(a->LogLevel(), a->getLogLevel()); SAY(b->LogLevel(), b->getLogLevel());
  static const std::vector<std::string> fmts = { "~L~ ~S ~C ~O ~D ~F:~E", "~E", "[~L] ~D::~E~", "~C:20~|~E", "x", "", "~S(~L) ~F ~l: ~E" };
  { const std::string f = r.pick(fmts), g = r.pick(fmts);
    if (r.chance(70)) DO(a->ChangeLogFormat(f.c_str()), a->changeLogFormat(f.c_str())); else a->changeLogFormat("~E");
    DO(b->ChangeLogFormat(g.c_str()), b->changeLogFormat(g.c_str())); }
  DO(a->ChangeTimeFormat("never"), a->changeTimeFormat("never"));
  if (r.chance(30)) DO(a->ChangeLogFormat("~T ~E"), a->changeLogFormat("~T ~E"));
  DO(a->Start(), a->start()); DO(b->Start(), b->start()); TELL(a->in); 
  DO(s->AddOutputStream(a), s->addOutputStream(a)); DO(s->AddOutputStream(b), s->addOutputStream(b));
  SAY(s->LogLevel(), s->getLogLevel());
  for (int i = 0; i < 12; ++i)
  {
    switch (r.below(8))
    {
      case 0: { Rec *x = r.chance(50) ? a : b; const il::LogLevel l = lv(r); DO(x->SetLogLevel(l), x->setLogLevel(l)); SAY(x->LogLevel(), x->getLogLevel()); SAY(s->LogLevel(), s->getLogLevel()); } break;
      case 1: { const bool act = r.chance(50); if (act && r.chance(50)) DO(s->SetActive(), s->setActive()); else DO(s->SetActive(act), s->setActive(act)); SAY(s->IsActive(), s->isActive()); } break;
      case 2: { const std::string f = word(r), c = word(r), o = word(r), fn = word(r), t = word(r); const il::LogLevel l = lv(r, false); const int line = int(r.below(1000));
                DO(b->Push(l, s->nameCStr(), f.c_str(), line, c.c_str(), o.c_str(), fn.c_str(), t.c_str()), b->push(l, s->nameCStr(), f.c_str(), line, c.c_str(), o.c_str(), fn.c_str(), t.c_str())); } break;
      default:
      {
        const il::LogLevel l = lv(r, false), l2 = lv(r, false);
        il::ThreadStream *t = old_names ? &s->ThreadStream(l) : &s->threadStream(l);
        SAY(t->LogLevel(), t->getLogLevel());
        const std::string f = word(r), c = word(r), o = word(r), fn = word(r), text = r.chance(20) ? r.str("abc", 1900, 2300) : word(r);
        if (r.chance(70)) DO(t->SetFilename(f.c_str()), t->setFilename(f.c_str()));
        if (r.chance(70)) DO(t->SetClassname(c.c_str()), t->setClassname(c.c_str()));
        if (r.chance(70)) DO(t->SetObjectname(o.c_str()), t->setObjectname(o.c_str()));
        if (r.chance(70)) DO(t->SetFunction(fn.c_str()), t->setFunction(fn.c_str()));
        if (r.chance(70)) { const size_t line = size_t(r.below(5000)); DO(t->SetLine(line), t->setLine(line)); }
        if (r.chance(70)) DO(t->SetLineLogLevel(l2), t->setLineLogLevel(l2));
        if (r.chance(30)) { DO(t->ChangeLevel(l2), t->changeLevel(l2)); SAY(t->LogLevel(), t->getLogLevel()); }
        if (r.chance(50)) { if (r.chance(50)) DO(t->Write(text.data(), text.size()), t->write(text.data(), text.size())); else { const size_t pr = size_t(r.below(4)); DO(t->Write(text.data(), text.size(), pr), t->write(text.data(), text.size(), pr)); } }
        const int how = int(r.below(4)), num = int(r.below(100));
        if (how == 0) DO(t->Printf("%s %d|%s", "n", num, text.c_str()), t->printf("%s %d|%s", "n", num, text.c_str()));
        else if (how == 1) DO(t->Flush(), t->flush());
        else if (how == 2) { *t << text << num; if (old_names) *t << il::Endl; else *t << il::endl; }
        else { *t << num << ' ' << text; if (old_names) *t << il::Flush; else *t << il::flush; }
      }
    }
    TELL(a->got); a->got.clear();
  }
  DO(s->PrintConfiguration(), s->printConfiguration()); DO(a->PrintConfiguration(), a->printConfiguration());
  DO(a->Shutdown(), a->shutdown()); DO(b->Shutdown(), b->shutdown());
  TELL(a->got); TELL(b->got); TELL(a->in); TELL(a->out); TELL(b->in); TELL(b->out);
  DO(s->RemoveOutputStream(a), s->removeOutputStream(a)); SAY(s->LogLevel(), s->getLogLevel());
  for (int i = -1; i <= 6; ++i) if (i >= 0 && i <= 5) SAY(il::LogLevelDescription(il::LogLevel(i)), il::logLevelDescription(il::LogLevel(i)));
  for (int i = 0; i < 4; ++i)
  {
    static const std::vector<std::string> w = { "Trace", "Debug", "Info", "Warning", "Error", "Mute", "", "info", "Err" };
    const std::string t = r.pick(w); il::LogLevel x = lv(r);
    SAY(il::StringToLogLevel(t, x), il::stringToLogLevel(t, x)); TELL(x);
  }
  // counting semaphores of the logging component
  il::Semaphore sem(uint32_t(r.range(1, 3)));
  SAY(sem.Wait(), sem.wait()); DO(sem.Post(), sem.post());
  { il::ScopedSemaphore sc(sem); SAY(sc.IsDecremented(), sc.isDecremented()); }
  SAY(sem.Wait(), sem.wait());
}

// ------------------------------------------------------------------ the logging manager
static std::vector<Rec *> recs;
static bool rec_worker;
static il::LogOutputStream *make_rec(const std::string& name, const std::string& prefix, il::LogLevel level) { Rec *x = new Rec(name, prefix, level, rec_worker); x->changeLogFormat("~S ~L ~E"); recs.push_back(x); return x; }
DECLARE_LOG_STREAM(Aged)
REGISTER_LOG_STREAM(Aged)
static il::LogStream *make_stream() { return new il::LogStream("Made"); }
static void manager(Rng& r)
{
  rec_worker = r.chance(50);
  TELL((old_names ? &il::LoggingManager::Instance() : &il::LoggingManager::instance()) == &il::LoggingManager::instance());
  il::LoggingManager& m = il::LoggingManager::instance();
  SAY(m.Initialized(), m.initialized());
  DO(m.RegisterLogOutputStream("Rec", make_rec), m.registerLogOutputStream("Rec", make_rec));
  DO(m.RegisterLogStream("Made", make_stream), m.registerLogStream("Made", make_stream));
  std::string xml = "<root><IclCore><Logging>";
  xml += "<LogStream1><Name>Aged</Name><LogLevel>" + std::string(il::logLevelDescription(lv(r))) + "</LogLevel></LogStream1>";
  xml += "<OutputStream1><OutputStreamName>Rec</OutputStreamName><Name>Out</Name><LogLevel>" + std::string(il::logLevelDescription(lv(r))) + "</LogLevel><LogStream1>Aged</LogStream1><LogStream2>Made</LogStream2></OutputStream1>";
  xml += "<Default><Format>~S~L~E</Format></Default></Logging></IclCore></root>";
  spit("l.xml", xml);
  Args a; a.add("prog"); if (r.chance(80)) { a.add("-c"); a.add("l.xml"); } if (r.chance(20)) { a.add("-l"); a.add("Debug"); } if (r.chance(10)) a.add("--huh=1");
  char **argv = a.argv(); int argc = a.argc;
  switch (r.below(4))
  {
    case 0: { const bool rm = r.chance(50); SAY(il::Initialize(argc, argv, rm), il::initialize(argc, argv, rm)); } break;
    case 1: SAY(il::Initialize(argc, argv), il::initialize(argc, argv)); break;
    case 2: { const cf::Getopt::CommandLineCleaning c = r.chance(50) ? cf::Getopt::eCLC_None : cf::Getopt::eCLC_Cleanup; const cf::Getopt::ParameterRegistrationCheck k = r.chance(50) ? cf::Getopt::ePRC_Strict : cf::Getopt::ePRC_Relaxed;
              SAY(il::Initialize(argc, argv, c, k), il::initialize(argc, argv, c, k)); } break;
    case 3: if (r.chance(50)) DO(il::Initialize(), il::initialize()); else DO(m.Initialize(), m.initialize()); break;
  }
  tell_args(argc, argv);
  SAY(m.Initialized(), m.initialized());
  if (m.initialized()) DO(m.AssertInitialized(), m.assertInitialized());
  TELL((old_names ? &Aged::Instance() : &Aged::instance()) == &Aged::instance());
  TELL((old_names ? Aged::Create() : Aged::create()) == &Aged::instance());
  for (int i = 0; i < 6; ++i)
  {
    switch (r.below(6))
    {
      case 0: DO(m.PrintConfiguration(), m.printConfiguration()); break;
      case 1: if (!rec_worker) { static const std::vector<std::string> f = { "~E", "~S ~E", "x" }; const std::string g = r.pick(f); DO(m.ChangeLogFormat("Out", g.c_str()), m.changeLogFormat("Out", g.c_str())); } break;
      case 2: DO(m.Configure(), m.configure()); break;
      case 3: if (i == 5) DO(m.RemoveLogStream("Made"), m.removeLogStream("Made")); break;
      default: { const il::LogLevel l = lv(r, false); Aged::instance().threadStream(l) << "message " << i << il::endl; } break;
    }
    TELL(Aged::instance().getLogLevel()); TELL(recs.size()); if (!rec_worker) for (size_t k = 0; k < recs.size(); ++k) TELL(recs[k]->got);
  }
  if (r.chance(30)) { il::LogStream *x = new il::LogStream("Extra"); DO(m.RegisterLogStream(x), m.registerLogStream(x)); DO(m.Configure(), m.configure()); TELL(x->getLogLevel()); }
  if (r.chance(30) && !recs.empty()) { const bool d = r.chance(50); Rec *x = recs[0]; x->shutdown(); TELL(x->got); if (d) DO(m.RemoveLogOutputStream(x), m.removeLogOutputStream(x)); else DO(m.RemoveLogOutputStream(x, true), m.removeLogOutputStream(x, true)); recs.erase(recs.begin()); }
  if (r.chance(60)) for (size_t k = 0; k < recs.size(); ++k) { recs[k]->shutdown(); TELL(recs[k]->got); if (!recs[k]->got.empty()) mon::stat("obs.manager_lines"); }
  if (r.chance(50)) DO(m.Shutdown(), m.shutdown()); else DO(il::Shutdown(), il::shutdown());
  SAY(m.Initialized(), m.initialized());
}

// ------------------------------------------------------------------ locks and threads
struct Other
{
  // runs one thing on another thread, to the end
  template <class F> static void run(F f) { struct A { static void *go(void *x) { (*static_cast<F *>(x))(); return NULL; } }; pthread_t t; if (pthread_create(&t, NULL, A::go, &f) != 0) mon::broken("pthread_create"); pthread_join(t, NULL); }
};
static const int64_t SHORT_NS = 3000000;
#define TIMED(o, n) do { const int64_t b_ = mon::now_ns(); SAY(o, n); const int64_t e_ = mon::now_ns(); TELL((e_ - b_ >= SHORT_NS - 1000000)); } while (0)
static ic::TimeSpan span() { return ic::TimeSpan(0, SHORT_NS); }
static ic::TimeStamp later() { return ic::TimeStamp::now() + span(); }
static void lock_things(Rng& r)
{
  for (int i = 0; i < 6; ++i)
  {
    it::Mutex m; it::RWLock w; const size_t n = size_t(r.range(1, 3)); it::Semaphore s(n);
    switch (r.below(4))
    {
      case 0: SAY(m.Lock(), m.lock()); break;
      case 1: SAY(m.TryLock(), m.tryLock()); break;
      case 2: SAY(m.Lock(later()), m.lock(later())); break;
      case 3: SAY(m.Lock(span()), m.lock(span())); break;
    }
    Other::run([&] { SAY(m.TryLock(), m.tryLock()); if (r.chance(30)) TIMED(m.Lock(span()), m.lock(span())); if (r.chance(30)) TIMED(m.Lock(later()), m.lock(later())); });
    DO(m.Unlock(), m.unlock());
    Other::run([&] { SAY(m.TryLock(), m.tryLock()); DO(m.Unlock(), m.unlock()); });
    { it::ScopedMutexLock l(m); SAY(l.IsLocked(), l.isLocked()); }
    const bool writer = r.chance(50);
    switch (r.below(4))
    {
      case 0: if (writer) SAY(w.WriteLock(), w.writeLock()); else SAY(w.ReadLock(), w.readLock()); break;
      case 1: if (writer) SAY(w.TryWriteLock(), w.tryWriteLock()); else SAY(w.TryReadLock(), w.tryReadLock()); break;
      case 2: if (writer) SAY(w.WriteLock(later()), w.writeLock(later())); else SAY(w.ReadLock(later()), w.readLock(later())); break;
      case 3: if (writer) SAY(w.WriteLock(span()), w.writeLock(span())); else SAY(w.ReadLock(span()), w.readLock(span())); break;
    }
    Other::run([&] {
      bool got = old_names ? w.TryReadLock() : w.tryReadLock(); TELL(got); if (got) DO(w.Unlock(), w.unlock());
      SAY(w.TryWriteLock(), w.tryWriteLock());
      if (r.chance(30)) { TIMED(w.WriteLock(span()), w.writeLock(span())); TIMED(w.WriteLock(later()), w.writeLock(later())); }
      if (writer && r.chance(30)) { TIMED(w.ReadLock(span()), w.readLock(span())); TIMED(w.ReadLock(later()), w.readLock(later())); }
    });
    DO(w.Unlock(), w.unlock());
    Other::run([&] { SAY(w.TryWriteLock(), w.tryWriteLock()); DO(w.Unlock(), w.unlock()); });
    { it::ScopedRWLock l(w, it::ScopedRWLock::eLM_READ_LOCK); SAY(l.IsLocked(), l.isLocked()); Other::run([&] { it::ScopedRWLock j(w, it::ScopedRWLock::eLM_READ_LOCK, false); SAY(j.IsLocked(), j.isLocked()); }); }
    { it::ScopedRWLock l(w, it::ScopedRWLock::eLM_WRITE_LOCK); it::ScopedRWLock k(w, it::ScopedRWLock::eLM_WRITE_LOCK, false); SAY(l.IsLocked(), l.isLocked()); SAY(k.IsLocked(), k.isLocked()); }
    size_t left = n;
    for (int k = 0; k < 6; ++k)
    {
      switch (r.below(5))
      {
        case 0: SAY(s.TryWait(), s.tryWait()); if (left) --left; break;
        case 1: if (left) { SAY(s.Wait(), s.wait()); --left; } break;
        case 2: if (left) { SAY(s.Wait(span()), s.wait(span())); --left; } else TIMED(s.Wait(span()), s.wait(span())); break;
        case 3: if (left) { SAY(s.Wait(later()), s.wait(later())); --left; } else TIMED(s.Wait(later()), s.wait(later())); break;
        case 4: DO(s.Post(), s.post()); ++left; break;
      }
    }
    for (size_t k = 0; k <= left; ++k) SAY(s.TryWait(), s.tryWait());
  }
}
struct Work : public it::Thread
{
  boost::atomic<bool> self, exec; boost::atomic<long> rounds, stops; boost::atomic<ic::ThreadId *> dummy;
  bool endless;
  Work(const std::string& d, int prio, bool e) : it::Thread(d, prio), self(false), exec(false), rounds(0), stops(0), endless(e) { }
  virtual ~Work() { }
  virtual void onStop() { ++stops; }
  virtual void run()
  {
    self = old_names ? (ThreadSelf() && SelfId() == ThreadId()) : (threadSelf() && selfId() == threadId());
    exec = old_names ? Execute() : execute();
    do { ++rounds; mon::sleep_us(200); } while (endless && (old_names ? Execute() : execute()));
  }
};
struct Beat : public it::PeriodicThread
{
  boost::atomic<long> beats; long n;
  Beat(const ic::TimeSpan& p, long k) : it::PeriodicThread("Beat", p), beats(0), n(k) { }
  virtual void run() { for (long i = 0; i < n; ++i) { if (old_names) WaitPeriod(); else waitPeriod(); ++beats; } }
};
struct Busy : public it::ActiveObject
{
  Busy() : it::ActiveObject("Busy"), began(0), ended(0) { }
  boost::atomic<long> began, ended;
  virtual void onThreadStart() { ++began; }
  virtual void onThreadStop() { ++ended; }
};
static void threads(Rng& r)
{
  for (int i = 0; i < 3; ++i)
  {
    const bool endless = r.chance(50);
    Work t(word(r), 0, endless);
    SAY(t.Description(), t.getDescription()); { const std::string d = word(r); DO(t.SetDescription(d), t.setDescription(d)); } SAY(t.Description(), t.getDescription()); SAY(t.ThreadInfo(), t.threadInfo());
    SAY(t.Priority(), t.priority()); SAY(t.IsHardRealtime(), t.isHardRealtime()); SAY(t.ExecutesHardRealtime(), t.executesHardRealtime()); SAY(t.CheckHardRealtime(), t.checkHardRealtime());
    if (r.chance(50)) { const bool h = r.chance(50); if (!h) SAY(t.SetHardRealtime(false), t.setHardRealtime(false)); else SAY(t.SetHardRealtime(), t.setHardRealtime()); SAY(t.IsHardRealtime(), t.isHardRealtime()); if (h) t.setHardRealtime(false); }
    SAY(t.SetPriority(0), t.setPriority(0));
    SAY(t.Running(), t.running());
    SAY(t.Start(), t.start());
    if (endless)
    {
      SAY(t.Running(), t.running()); SAY(t.ThreadSelf(), t.threadSelf()); SAY(t.Execute(), t.execute());
      if (r.chance(50)) TIMED(t.Wait(span()), t.wait(span()));
      if (r.chance(50)) TIMED(t.Wait(later()), t.wait(later()));
      TELL(mon::wait_for([&] { return t.rounds > 2; }, 20000));
      DO(t.Stop(), t.stop());
    }
    switch (r.below(4))
    {
      case 0: DO(t.Join(), t.join()); break;
      case 1: SAY(t.Wait(), t.wait()); DO(t.Join(), t.join()); break;
      case 2: { const ic::TimeSpan s(60, 0); SAY(t.Wait(s), t.wait(s)); DO(t.Join(), t.join()); } break;
      case 3: { const ic::TimeStamp s = ic::TimeStamp::now() + ic::TimeSpan(60, 0); SAY(t.Wait(s), t.wait(s)); DO(t.Join(), t.join()); } break;
    }
    SAY(t.Running(), t.running());
    TELL(bool(t.self)); TELL(bool(t.exec)); TELL(long(t.rounds) > 0);
    TELL((old_names ? it::Thread::SelfId() : it::Thread::selfId()) == ic::os::threadSelf());
  }
  {
    const int64_t us = r.range(1500, 4000);
    Beat b(ic::TimeSpan().fromUSec(r.range(1500, 4000)), 4);
    SAY(b.Period(), b.period());
    const ic::TimeSpan p = ic::TimeSpan().fromUSec(us);
    SAY(b.SetPeriod(p), b.setPeriod(p)); SAY(b.Period(), b.period());
    const int64_t t0 = mon::now_ns();
    TELL(b.start()); b.join();
    TELL(long(b.beats)); TELL((mon::now_ns() - t0 >= 3 * us * 1000));
  }
  {
    Busy a; TELL(a.start());
    TELL(mon::wait_for([&] { return a.began == 1; }, 20000));
    DO(a.Stop(), a.stop()); a.join();
    TELL(long(a.began)); TELL(long(a.ended)); TELL(a.running());
  }
}

// ------------------------------------------------------------------ both ways, side by side
typedef void (*Script)(Rng&);
static const struct { const char *name; Script run; int share; } SCRIPTS[] =
{
  { "core", core_small, 3 }, { "directory", core_kv, 3 }, { "classes", old_classes, 3 }, { "time", core_time, 2 }, { "tree", trees, 5 },
  { "options", options, 3 }, { "config", config, 4 }, { "streams", streams, 4 }, { "manager", manager, 3 }, { "locks", lock_things, 1 }, { "threads", threads, 1 }
};
static void remove_all(const std::string& d)
{
  DIR *h = opendir(d.c_str());
  if (!h) return;
  while (struct dirent *e = readdir(h)) { const std::string n = e->d_name; if (n != "." && n != "..") unlink((d + "/" + n).c_str()); }
  closedir(h);
}
// times of day are no part of it: dates, and the milliseconds after one or after the fixed time format
static std::string masked(std::string p)
{
  for (size_t i = 0; i < p.size(); ++i)
  {
    static const char shape[] = "dddd-dd-dd dd:dd:dd";
    size_t n = 0;
    if (p.compare(i, 6, "never.") == 0) n = 5;
    else if (i + 19 <= p.size())
    {
      n = 19;
      for (size_t k = 0; k < 19 && n; ++k) if (!(shape[k] == 'd' ? isdigit((unsigned char)p[i + k]) != 0 : (p[i + k] == shape[k] || (shape[k] == ' ' && p[i + k] == 'T')))) n = 0;
      for (size_t k = 0; k < n; ++k) if (shape[k] == 'd') p[i + k] = '0';
    }
    if (n && i + n < p.size() && p[i + n] == '.') for (size_t k = i + n + 1; k < p.size() && isdigit((unsigned char)p[k]); ++k) p[k] = '0';
  }
  return p;
}
static std::string transcript(bool old, Script f, uint64_t seed)
{
  const std::string dir = mon::cfg().scratch + "/p53", out = mon::cfg().scratch + "/p53.out", txt = mon::cfg().scratch + "/p53.txt";
  mkdir(dir.c_str(), 0755); remove_all(dir); unlink(out.c_str()); unlink(txt.c_str());
  mon::in_child([&] {
    if (chdir(dir.c_str()) != 0) mon::broken("chdir");
    old_names = old;
    std::ostringstream t; T = &t; said = 0;
    fflush(stdout);
    const int keep = dup(1), fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (keep < 0 || fd < 0 || dup2(fd, 1) != 1) mon::broken("cannot redirect standard output");
    Rng r(seed);
    f(r);
    std::cout.flush(); fflush(stdout);
    dup2(keep, 1); close(keep); close(fd);
    // what it left on the disk
    std::map<std::string, std::string> files;
    DIR *h = opendir(".");
    while (struct dirent *e = readdir(h)) { const std::string n = e->d_name; if (n != "." && n != "..") files[n] = slurp(n); }
    closedir(h);
    for (std::map<std::string, std::string>::iterator i = files.begin(); i != files.end(); ++i) t << "file " << i->first << ": " << mon::q(i->second, 100000) << "\n";
    spit(txt, t.str());
    mon::stat(old ? "obs.old_calls" : "obs.new_calls", uint64_t(said));
  });
  const std::string o = slurp(out);
  if (!o.empty()) mon::stat("obs.printed");
  return masked(slurp(txt) + "standard output: " + o);
}

namespace mon {
void setup() { }
void teardown() { }
void run_case(uint64_t index, Rng& rng)
{
#ifdef P53_UNUSABLE
  viol("unusable", "a program that calls SetBits, ClearBits, IsBitSet, SequenceNumber::MaxValue or MinValue cannot be compiled and linked");
#endif
  int total = 0; for (size_t i = 0; i < sizeof SCRIPTS / sizeof SCRIPTS[0]; ++i) total += SCRIPTS[i].share;
  int at = int(index % total); size_t k = 0;
  while (at >= SCRIPTS[k].share) at -= SCRIPTS[k++].share;
  const uint64_t seed = rng.next();
  const std::string o = transcript(true, SCRIPTS[k].run, seed), n = transcript(false, SCRIPTS[k].run, seed);
  std::istringstream a(o), b(n);
  std::string la, lb, last;
  for (;;)
  {
    const bool ga = bool(std::getline(a, la)), gb = bool(std::getline(b, lb));
    if (!ga && !gb) break;
    if (!ga) la = "(the end)"; if (!gb) lb = "(the end)";
    MON_CHECK(ga == gb && la == lb, std::string("differs:") + SCRIPTS[k].name, "with the old name: " << mon::esc(la, 700) << " -- with the new one: " << mon::esc(lb, 700) << " -- after: " << mon::esc(last, 300));
    state(Hash().add(la));
    last = la;
  }
  stat(std::string("obs.") + SCRIPTS[k].name);
  if (want_sample() && index % 7 == 0) sample(std::string(SCRIPTS[k].name) + ", old and new alike: " + esc(o.substr(0, 600)));
}
}
