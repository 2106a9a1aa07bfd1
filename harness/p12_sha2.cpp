// P12: SHA-2 against an independent implementation of FIPS 180-4.
#include "mon.h"
#include "sha2_ref.h"
#include "icl_core_crypt/Sha2.h"
using namespace icl_core::crypt;

template <class REF> static std::string digest(const std::string& m, bool small, int words)
{ REF r; r.start(small); r.add(m.data(), m.size()); return r.finish(words); }
static std::string expected(int kind, const std::string& m)
{
  typedef ref::Sha<uint32_t, 64> A;
  typedef ref::Sha<uint64_t, 80> B;
  switch (kind)
  {
    case 0: return digest<A>(m, true, 7);
    case 1: return digest<A>(m, false, 8);
    case 2: return digest<B>(m, true, 6);
    default: return digest<B>(m, false, 8);
  }
}

static const size_t blocks[] = { 64, 64, 128, 128 };

// The message in pieces, through a randomly chosen overload for each.
template <class S> static void feed(S& s, const std::string& m, mon::Rng& r, std::string& how, size_t block)
{
  size_t at = 0;
  unsigned style = unsigned(r.below(5));
  while (at < m.size() || r.chance(10))
  {
    size_t rest = m.size() - at, n = rest;
    if (style == 1) n = r.below(4);
    else if (style == 2) n = block + size_t(r.range(-1, 1));
    else if (style == 3) n = r.below(2 * block + 2);
    else if (style == 4 && r.chance(50)) n = (block - at % block) + size_t(r.range(-1, 1));   // up to the block boundary
    if (n > rest) n = rest;
    std::string piece = m.substr(at, n);
    char *exact = new char[n + 1];
    memcpy(exact, piece.c_str(), n + 1);
    unsigned f = unsigned(r.below(3));
    if (f == 0 && piece.find('\0') != std::string::npos) f = 1;
    if (f == 0) s.process((const char *)exact);
    else if (f == 1) s.process((const void *)exact, n);
    else s.process(piece);
    delete[] exact;
    how += "csp"[f] + std::to_string(n) + " ";
    at += n;
    if (n == 0 && style != 1) style = unsigned(r.below(5));
  }
  s.finalize();
}

template <class S> static void hash(mon::Rng& r, int kind)
{
  S s;
  const size_t B = blocks[kind];
  const int rounds = int(r.range(1, 3));
  for (int round = 0; round < rounds; ++round)
  {
    size_t n = r.chance(60) ? B * r.below(4) + (r.chance(50) ? B - (B == 64 ? 8 : 16) : 0) + size_t(r.range(-2, 2)) : r.below(5 * B);
    if (n > 100 * B) n = r.below(4);
    if (r.chance(2)) n = r.below(20000);
    std::string m(n, 0);
    unsigned c = unsigned(r.below(4));
    for (size_t i = 0; i < n; ++i) m[i] = c == 0 ? 'a' : c == 1 ? char(1 + r.below(255)) : char(r.next());
    if (c == 3) m.assign(n, r.chance(50) ? '\0' : '\xff');
    std::string how;
    feed(s, m, r, how, B);
    const std::string got = s.getHexDigest(), want = expected(kind, m);
    MON_CHECK(got == want, "digest", "SHA-2 kind " << kind << " of " << n << " bytes in pieces " << how.substr(0, 300) << " gave " << got << " expected " << want
              << (round ? " (after clear)" : ""));
    MON_CHECK(s.getHexDigest() == want, "digest-again", "asking twice differs");
    mon::stat("obs.messages");
    if (round) mon::stat("obs.reused_objects");
    mon::state(mon::Hash().add(kind).add(n).add(round > 0).add(how.size()));
    if (mon::want_sample()) mon::sample("kind " + std::to_string(kind) + ", " + std::to_string(n) + " bytes in pieces " + how.substr(0, 100) + ": " + got);
    if (r.chance(20))   // abandon a message half way
    { s.clear(); s.process(std::string(r.below(2 * B), 'q')); if (r.chance(30)) s.finalize(); }
    s.clear();
  }
}

// One message beyond 2^32 bits.
template <class S, class REF> static void big(mon::Rng& r, int kind, bool small, int words)
{
  std::string chunk(1 << 20, 0);
  for (size_t i = 0; i < chunk.size(); ++i) chunk[i] = char(r.next());
  S s;
  REF f;
  f.start(small);
  for (int i = 0; i < 513; ++i)
  {
    chunk[size_t(i)] ^= 1;
    s.process((const void *)chunk.data(), chunk.size());
    f.add(chunk.data(), chunk.size());
  }
  s.finalize();
  const std::string got = s.getHexDigest(), want = f.finish(words);
  MON_CHECK(got == want, "digest-big", "SHA-2 kind " << kind << " of 513 MiB gave " << got << " expected " << want);
  mon::stat("obs.big_messages");
  mon::state(mon::Hash().add(100 + kind));
}

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t i, Rng& r)
{
  if (cfg().mode == "big")
  {
    phase("big");
    switch (i % 4)
    {
      case 0: big<Sha224, ref::Sha<uint32_t, 64> >(r, 0, true, 7); break;
      case 1: big<Sha256, ref::Sha<uint32_t, 64> >(r, 1, false, 8); break;
      case 2: big<Sha384, ref::Sha<uint64_t, 80> >(r, 2, true, 6); break;
      default: big<Sha512, ref::Sha<uint64_t, 80> >(r, 3, false, 8); break;
    }
    return;
  }
  hash<Sha224>(r, 0);
  hash<Sha256>(r, 1);
  hash<Sha384>(r, 2);
  hash<Sha512>(r, 3);
}
