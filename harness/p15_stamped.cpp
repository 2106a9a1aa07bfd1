// P15: stamped data and its header.
#include "mon.h"
#include <new>
#include "icl_core/DataHeader.h"

struct Opaque { int a[5]; };
typedef boost::posix_time::ptime ptime;

static ptime when(mon::Rng& r)
{
  return ptime(boost::gregorian::date(short(r.range(1970, 2200)), short(r.range(1, 12)), short(r.range(1, 28))),
               boost::posix_time::microseconds(r.range(0, 86399999999LL)));
}
// An object on memory with an arbitrary previous content.
template <class T> struct Dirty
{
  alignas(64) char mem[sizeof(T)];
  T *p;
  explicit Dirty(mon::Rng& r) : p(NULL) { for (size_t i = 0; i < sizeof mem; ++i) mem[i] = char(r.next()); }
  ~Dirty() { if (p) p->~T(); }
};

static std::string text(const icl_core::StampedBase& s) { std::ostringstream o; o << s; return o.str(); }

static std::string expected(uint64_t seq, const ptime& t, uint64_t dsin, const std::string& frame, const std::string& body)
{
  std::ostringstream o;
  o << "[seq: " << seq << ", timestamp: " << boost::posix_time::to_simple_string(t) << ", DSIN: " << dsin << ", Frame: " << frame << "; " << body << "]";
  return o.str();
}

template <class T> static void stamped(mon::Rng& r, const T& value, const std::string& body)
{
  typedef icl_core::Stamped<T> S;
  using icl_core::DataHeader;
  unsigned k = unsigned(r.below(5));
  std::string frame = r.str("abc /_", 0, 12);
  ptime t = when(r);
  uint32_t seq = uint32_t(r.next());
  Dirty<DataHeader> dh(r);
  bool defheader = r.chance(30), defseq = r.chance(30);
  if (defheader) { dh.p = new (dh.mem) DataHeader(); frame = ""; t = ptime(); seq = 0; }
  else if (defseq) { dh.p = new (dh.mem) DataHeader(frame, t); seq = 0; }
  else dh.p = new (dh.mem) DataHeader(frame, t, seq);
  MON_CHECK(dh.p->coordinate_system == frame && dh.p->timestamp == t && dh.p->sequence_number == seq, "header", "header does not hold what it was made of");
  MON_CHECK(dh.p->dsin == 0, "header-undefined", "the sensor number of a new header is " << dh.p->dsin);
  const size_t dsin = r.chance(50) ? 0 : r.chance(30) ? r.below(100) : size_t(r.next() >> r.below(64));
  dh.p->dsin = dsin;
  Dirty<S> d(r);
  bool hasheader = false, hasdata = false;
  if (k == 0) { d.p = new (d.mem) S(); }
  else if (k == 1) { d.p = new (d.mem) S(value); hasdata = true; }
  else if (k == 2) { d.p = new (d.mem) S(*dh.p); hasheader = true; }
  else { d.p = new (d.mem) S(value, *dh.p); hasheader = hasdata = true; }
  const S& c = *d.p;
  MON_CHECK(c.header().dsin == (hasheader ? dsin : 0), "header-undefined", "the sensor number of a new stamped value is " << c.header().dsin << ", constructor " << k << " with " << dsin);
  if (hasdata && r.chance(50)) MON_CHECK(text(c) == expected(hasheader ? seq : 0, hasheader ? t : ptime(), c.header().dsin, hasheader ? frame : "", body), "stamped-print", "printed " << mon::q(text(c)));
  if (!hasheader) { frame = ""; t = ptime(); seq = 0; }
  MON_CHECK(c.header().coordinate_system == frame && c.header().timestamp == t && c.header().sequence_number == seq, "stamped-header", "header of a stamped value, constructor " << k);
  if (r.chance(50)) { d.p->header().dsin = r.chance(50) ? 77 : size_t(r.next()); d.p->header().sequence_number = ++seq; }
  if (!hasdata || r.chance(20)) { if (r.chance(50)) d.p->get() = value; else **d.p = value; hasdata = true; }
  S copy(*d.p);
  MON_CHECK(memcmp(&c.get(), &value, 0) == 0 && &c.get() == &c.cget() && &*c == &c.get() && c.operator->() == &c.get(), "stamped-access", "accessors differ");
  const std::string got = text(copy), want = expected(seq, t, copy.header().dsin, frame, body);
  MON_CHECK(got == want, "stamped-print", "printed " << mon::q(got) << " expected " << mon::q(want));
  MON_CHECK(copy.header().dsin == c.header().dsin && copy.header().sequence_number == seq, "stamped-copy", "copy lost the header");
  mon::stat("obs.stamped");
  mon::state(mon::Hash().add(k).add(defheader).add(defseq).add(body.size()).add(frame.size()));
  if (mon::want_sample()) mon::sample(got);
}

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  for (int i = 0; i < 10; ++i)
  {
    int v = int(r.next());
    stamped<int>(r, v, std::to_string(v));
    std::string s = r.str("abc[]; ", 0, 20);
    stamped<std::string>(r, s, s);
    Opaque o = { { 1, 2, 3, 4, 5 } };
    stamped<Opaque>(r, o, std::to_string(sizeof o) + " data bytes");
    icl_core::Stamped<int> a(v), b(v);
    MON_CHECK(int(a) == v && a.get() == v && *a == v, "stamped-value", "value of a stamped integer");
  }
}
