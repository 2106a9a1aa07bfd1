// P17: the operating system wrappers against the system itself.
#include "mon.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include "icl_core/os.h"
#include "icl_core/os_fs.h"
#include "icl_core/os_mem.h"
#include "icl_core/os_string.h"
#include "icl_core/os_thread.h"
#include "icl_core/os_time.h"
namespace os = icl_core::os;

static int viaVa(char *b, size_t n, const char *f, ...)
{
  va_list l; va_start(l, f);
  int r = os::vsnprintf(b, n, f, l);
  va_end(l);
  return r;
}

static void strings(mon::Rng& r)
{
  const std::string s = r.str("abc %d\t\xc3", 0, 60);
  const int i = int(r.next());
  const double d = double(r.range(-1000000, 1000000)) / 64;
  const long long ll = (long long)r.next();
  char ref[400];
  const char *const fmt = "%s|%d|%.3f|%lld|%c|%5s|%%";
  const int want = ::snprintf(ref, sizeof ref, fmt, s.c_str(), i, d, ll, 'x', "ab");
  size_t n = r.chance(30) ? size_t(want + r.range(-2, 3)) : r.chance(20) ? r.below(3) : r.below(size_t(want) + 20);
  for (int va = 0; va < 2; ++va)
  {
    std::unique_ptr<char[]> buf(new char[n + (n == 0)]);   // exactly as long as announced: anything beyond is reported
    std::vector<char> room(n + 64, '\x5a');                // and once more with room behind it
    int got = va ? viaVa(buf.get(), n, fmt, s.c_str(), i, d, ll, 'x', "ab") : os::snprintf(buf.get(), n, fmt, s.c_str(), i, d, ll, 'x', "ab");
    int got2 = va ? viaVa(&room[0], n, fmt, s.c_str(), i, d, ll, 'x', "ab") : os::snprintf(&room[0], n, fmt, s.c_str(), i, d, ll, 'x', "ab");
    MON_CHECK(got == want && got2 == want, "snprintf-result", "result " << got << " instead of " << want << " for a buffer of " << n);
    std::string expect = n ? std::string(ref, std::min(size_t(want), n - 1)) : "";
    MON_CHECK(!n || (memchr(buf.get(), 0, n) && buf.get() == expect), "snprintf-text", "text differs, buffer of " << n);
    for (size_t k = n; k < room.size(); ++k) MON_CHECK(room[k] == '\x5a', "snprintf-overrun", "byte " << k << " behind a buffer of " << n << " changed");
  }
  {
    std::vector<char> room(s.size() + 40, '\x5a');
    char *e = os::stpcpy(&room[3], s.c_str());
    MON_CHECK(e == &room[3] + s.size() && *e == 0 && s == &room[3], "stpcpy", "copied " << mon::q(&room[3]) << ", end at " << (e - &room[3]));
    MON_CHECK(room[2] == '\x5a' && room[3 + s.size() + 1] == '\x5a', "stpcpy-overrun", "bytes around the copy changed");
    char *p = os::strdup(s.c_str());
    MON_CHECK(p != s.c_str() && s == p, "strdup", "duplicate is " << mon::q(p));
    if (!s.empty()) p[0] = '~';
    free(p);
  }
  {
    const size_t len = r.below(200);
    std::vector<unsigned char> a(len + 16), b(len + 16), m(len + 16);
    for (size_t k = 0; k < a.size(); ++k) { a[k] = (unsigned char)r.below(256); b[k] = m[k] = (unsigned char)r.below(256); }
    const std::vector<unsigned char> a0(a);
    const size_t so = r.below(8), to = r.below(8);
    void *p = os::memcpy(&b[to], &a[so], len);
    for (size_t k = 0; k < len; ++k) m[to + k] = a[so + k];
    MON_CHECK(p == &b[to] && b == m && a == a0, "memcpy", len << " bytes");
    const int c = int(r.range(-300, 600));
    p = os::memset(&b[so], c, len);
    for (size_t k = 0; k < len; ++k) m[so + k] = (unsigned char)c;
    MON_CHECK(p == &b[so] && b == m, "memset", len << " bytes of " << c);
  }
  mon::stat("obs.strings");
  mon::state(mon::Hash().add(1).add(n < size_t(want)).add(n == 0).add(s.size()));
}

static std::string slurp(const std::string& p, bool& there)
{
  FILE *f = fopen(p.c_str(), "rb");
  there = f != NULL;
  std::string s;
  if (!f) return s;
  for (int c; (c = fgetc(f)) != EOF; ) s += char(c);
  fclose(f);
  return s;
}
static void spit(const std::string& p, const std::string& s) { FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }

static void files(mon::Rng& r)
{
  const std::string dir = mon::cfg().scratch + "/os" + std::to_string(getpid());
  mkdir(dir.c_str(), 0777);
  mkdir((dir + "/sub").c_str(), 0777);
  const char *names[] = { "/a", "/b", "/c d", "/sub/e", "/none/f" };
  std::map<std::string, std::string> m;
  for (int o = 0; o < 12; ++o)
  {
    std::string x = dir + names[r.below(5)], y = dir + names[r.below(5)];
    const bool xdir = x.find("/none/") == std::string::npos, ydir = y.find("/none/") == std::string::npos;
    unsigned k = unsigned(r.below(4));
    errno = 0;
    if (k == 0) { if (xdir) { std::string t = r.str("xyz", 0, 20); spit(x, t); m[x] = t; } }
    else if (k == 1)
    {
      int got = os::unlink(x.c_str()), e = errno;
      bool ok = m.erase(x) > 0;
      MON_CHECK((got == 0) == ok && (ok || (got == -1 && e == ENOENT)), "unlink-result", "unlink of " << (ok ? "an existing" : "a missing") << " file returned " << got << ", errno " << e);
    }
    else
    {
      int got = os::rename(x.c_str(), y.c_str()), e = errno;
      bool ok = m.count(x) && ydir;
      if (ok && x != y) { m[y] = m[x]; m.erase(x); }
      MON_CHECK((got == 0) == ok && (ok || (got == -1 && e == ENOENT)), "rename-result", "rename of " << (m.count(x) ? "an existing" : "a missing") << " file returned " << got << ", errno " << e);
    }
    for (int i = 0; i < 5; ++i)
    {
      bool there;
      std::string t = slurp(dir + names[i], there);
      MON_CHECK(there == (m.count(dir + names[i]) > 0) && (!there || t == m[dir + names[i]]), "file-content", "after operation " << k << " file " << names[i] << " is " << mon::q(t));
    }
    mon::stat("obs.file_ops");
    mon::state(mon::Hash().add(2).add(k).add(m.size()).add(x == y));
  }
  int got = os::unlink((dir + "/sub").c_str());
  struct stat st;
  MON_CHECK(got == -1 && stat((dir + "/sub").c_str(), &st) == 0, "unlink-directory", "a directory was unlinked");
  for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) ::unlink(i->first.c_str());
  rmdir((dir + "/sub").c_str());
  rmdir(dir.c_str());
}

static int64_t ns(const struct timespec& t) { return int64_t(t.tv_sec) * 1000000000 + t.tv_nsec; }
static int64_t rd(clockid_t c) { struct timespec t; clock_gettime(c, &t); return ns(t); }
static volatile sig_atomic_t hits = 0;
static void onsig(int) { hits = hits + 1; }

static void clocks(mon::Rng& r)
{
  for (int i = 0; i < 20; ++i)
  {
    int64_t a = rd(CLOCK_REALTIME), m0 = rd(CLOCK_MONOTONIC);
    struct timespec t;
    memset(&t, 0xee, sizeof t);
    os::gettimeofday(&t);
    int64_t b = rd(CLOCK_REALTIME), m1 = rd(CLOCK_MONOTONIC);
    if (b < a || (b - a) - (m1 - m0) > 5000000 || (m1 - m0) - (b - a) > 5000000) continue;   // the clock was set meanwhile
    MON_CHECK(t.tv_nsec >= 0 && t.tv_nsec < 1000000000, "gettimeofday-range", "nanoseconds " << t.tv_nsec);
    MON_CHECK(ns(t) >= a - 1000 && ns(t) <= b, "gettimeofday", "time " << ns(t) << " is not between " << a << " and " << b);
    mon::stat("obs.clock_reads");
  }
  (void)r;
}

static void sleeps(mon::Rng& r, uint64_t c)
{
  const unsigned kind = unsigned(r.below(3));
  const int64_t want = kind == 2 && c % 100 == 7 ? 1000000000 : kind == 1 && c % 100 == 9 ? 1100000000 : kind == 2 ? 0 : int64_t(r.below(4000000));
  const bool signalled = r.chance(50) && kind < 2;
  std::atomic<bool> done(false);
  const pthread_t self = pthread_self();
  std::thread killer;
  if (signalled)
    killer = std::thread([&] { int n = 1 + int(c % 3); while (n-- && !done) { mon::sleep_us(int64_t(c * 37 % 1500)); if (!done) pthread_kill(self, SIGUSR1); } });
  struct timespec req, rem;
  req.tv_sec = time_t(want / 1000000000); req.tv_nsec = long(want % 1000000000);
  rem.tv_sec = rem.tv_nsec = 77;
  const bool withrem = r.chance(70);
  errno = 0;
  const int64_t t0 = rd(CLOCK_MONOTONIC);
  int res = kind == 0 ? os::nanosleep(&req, withrem ? &rem : NULL) : kind == 1 ? os::usleep((unsigned long)(want / 1000)) : int(os::sleep((unsigned)(want / 1000000000)));
  const int e = errno;
  const int64_t dt = rd(CLOCK_MONOTONIC) - t0;
  done = true;
  if (signalled) killer.join();
  const int64_t asked = kind == 0 ? want : kind == 1 ? want / 1000 * 1000 : want;
  const char *const nm = kind == 0 ? "nanosleep" : kind == 1 ? "usleep" : "sleep";
  MON_CHECK(req.tv_sec == want / 1000000000 && req.tv_nsec == want % 1000000000, "sleep-request", "the requested time was changed");
  if (res == 0)
    MON_CHECK(dt >= asked, "sleep-short", nm << " of " << asked << " ns returned after " << dt);
  else
  {
    MON_CHECK(signalled && res == -1 && e == EINTR, "sleep-result", nm << " returned " << res << ", errno " << e << (signalled ? "" : " without a signal"));
    if (kind == 0 && withrem)
    {
      MON_CHECK(rem.tv_nsec >= 0 && rem.tv_nsec < 1000000000 && ns(rem) <= asked + 10000000, "sleep-remainder", "remaining time " << ns(rem) << " of " << asked);
      MON_CHECK(ns(rem) + dt >= asked, "sleep-remainder", "slept " << dt << " and " << ns(rem) << " remain of " << asked);
      mon::stat("obs.remainders");
    }
    mon::stat("obs.interrupted");
  }
  mon::stat("obs.sleeps");
  mon::state(mon::Hash().add(3).add(kind).add(res == 0).add(signalled).add(want / 200000));
}

// A sleep of several seconds ends when a signal is handled.
static void interrupted(mon::Rng& r)
{
  std::atomic<bool> done(false);
  const pthread_t self = pthread_self();
  const int kind = int(r.below(3));
  std::thread killer([&] { mon::sleep_us(int64_t(self) / 64 % 3000); for (int n = 0; !done && n < 3000; ++n) { pthread_kill(self, SIGUSR1); mon::sleep_us(3000); } });
  struct timespec req, rem;
  req.tv_sec = 6; req.tv_nsec = 0;
  rem.tv_sec = rem.tv_nsec = 77;
  errno = 0;
  const int before = hits;
  const int64_t t0 = rd(CLOCK_MONOTONIC);
  const int res = kind == 0 ? os::nanosleep(&req, &rem) : kind == 1 ? os::usleep(900000) : int(os::sleep(6));
  const int e = errno, got = hits - before;
  const int64_t dt = rd(CLOCK_MONOTONIC) - t0;
  done = true;
  killer.join();
  const char *const nm = kind == 0 ? "nanosleep" : kind == 1 ? "usleep" : "sleep";
  MON_CHECK(got < 3 || res != 0, "sleep-interrupt", nm << " went on for " << dt << " ns in spite of " << got << " signals");
  if (res == 0) MON_CHECK(dt >= (kind == 1 ? 900000000ll : 6000000000ll), "sleep-short", nm << " reports a full sleep after " << dt << " ns");
  if (kind == 0 && res != 0) MON_CHECK(e == EINTR && ns(rem) + dt >= 6000000000ll && ns(rem) <= 6000000000ll, "sleep-remainder", "slept " << dt << " and " << ns(rem) << " remain of 6 s, errno " << e);
  if (kind == 1 && res != 0) MON_CHECK(res == -1 && e == EINTR, "sleep-result", "usleep returned " << res << ", errno " << e);
  if (kind == 2 && res != 0) MON_CHECK(res > 0 && res <= 6 && res >= 5 - dt / 1000000000, "sleep-remainder", "slept " << dt << " and " << res << " s remain of 6");
  mon::stat("obs.long_sleeps_interrupted");
  mon::state(mon::Hash().add(5).add(kind));
}

static void threads(mon::Rng& r)
{
  const int n = 2 + int(r.below(4));
  std::vector<icl_core::ThreadId> ids(n), again(n);
  std::vector<std::thread> ts;
  std::vector<pthread_t> real(n);
  std::atomic<int> in(0);
  std::atomic<bool> go(false);
  for (int i = 0; i < n; ++i)
    ts.push_back(std::thread([&, i] { ids[i] = os::threadSelf(); real[i] = pthread_self(); ++in; while (!go) mon::sleep_us(50); again[i] = os::threadSelf(); }));
  while (in < n) mon::sleep_us(50);
  icl_core::ThreadId me = os::threadSelf();
  go = true;
  for (int i = 0; i < n; ++i) ts[i].join();
  for (int i = 0; i < n; ++i)
  {
    MON_CHECK(ids[i] == again[i] && pthread_equal(ids[i].m_thread_id, real[i]), "thread-id", "the id of a thread changed or is not its own");
    MON_CHECK(!(ids[i] == me), "thread-id", "a thread has the id of another one");
    for (int k = 0; k < i; ++k) MON_CHECK(!(ids[i] == ids[k]) && size_t(ids[i]) != size_t(ids[k]), "thread-id", "two living threads have the same id");
  }
  MON_CHECK(me == os::threadSelf() && pthread_equal(me.m_thread_id, pthread_self()), "thread-id", "own id");
  int p[2];
  if (pipe(p)) return;
  pid_t before = os::getpid();
  pid_t child = fork();
  if (child == 0) { pid_t x = os::getpid(); if (write(p[1], &x, sizeof x)) { } _exit(0); }
  close(p[1]);
  pid_t told = -1;
  ssize_t got = read(p[0], &told, sizeof told);
  close(p[0]);
  waitpid(child, NULL, 0);
  MON_CHECK(before == ::getpid() && got == ssize_t(sizeof told) && told == child, "pid", "a child process takes itself for " << told << ", it is " << child);
  mon::stat("obs.threads", uint64_t(n));
  mon::state(mon::Hash().add(4).add(n));
}

void mon::setup()
{
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_handler = onsig;
  sigaction(SIGUSR1, &a, NULL);
}
void mon::teardown() { }
void mon::run_case(uint64_t c, Rng& r)
{
  for (int i = 0; i < 10; ++i) strings(r);
  files(r);
  clocks(r);
  for (uint64_t i = 0; i < 3; ++i) sleeps(r, c * 3 + i);
  if (c % 8 == 0) threads(r);
  if (c % 8 == 3) interrupted(r);
  if (want_sample()) sample("strings, files, clocks, sleeps, threads");
}
