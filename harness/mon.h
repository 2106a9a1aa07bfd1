// Monitor kit shared by every harness in /verif/harness.
//
// A harness is one program: it defines mon::run_case(), which executes the real
// code of /repo on one generated case and reports what it observed.  The kit
// provides the deterministic generator, the event/stat counters, the case
// marker that attributes crashes and hangs, and the report file the driver reads.
#ifndef VERIF_MON_H
#define VERIF_MON_H

#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <pthread.h>

#include <atomic>
#include <exception>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace mon {

// ---------------------------------------------------------------- generator
inline uint64_t mix(uint64_t z)
{
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { }
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // uniform in [a, b]
  int64_t range(int64_t a, int64_t b)
  { return int64_t(uint64_t(a) + below(uint64_t(b) - uint64_t(a) + 1)); }
  bool chance(unsigned percent) { return below(100) < percent; }
  double unit() { return double(next() >> 11) / double(1ull << 53); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  std::string str(const std::string& alphabet, size_t minlen, size_t maxlen)
  {
    size_t n = size_t(range(int64_t(minlen), int64_t(maxlen)));
    std::string r;
    for (size_t i = 0; i < n; ++i) r += alphabet[below(alphabet.size())];
    return r;
  }
};

// ------------------------------------------------------------------ hashing
struct Hash
{
  uint64_t h;
  Hash() : h(0xcbf29ce484222325ull) { }
  Hash& add(uint64_t v) { h = mix(h ^ v) + 0x632BE59BD9B4E019ull; return *this; }
  Hash& add(const std::string& s)
  {
    uint64_t x = 1469598103934665603ull;
    for (size_t i = 0; i < s.size(); ++i) x = (x ^ (unsigned char)s[i]) * 1099511628211ull;
    return add(x).add(s.size());
  }
};

// ------------------------------------------------------------------- report
struct Fail { };   // thrown by viol() on the case's own thread

struct Config
{
  uint64_t seed; uint64_t from; uint64_t to; std::string scratch; std::string mode; bool verbose;
  std::map<std::string, std::string> opt;
};

struct Global
{
  Config cfg;
  std::mutex mtx;
  FILE *out;
  char *marker;                // mmapped: [0..8) current case, [8..) phase text
  std::map<std::string, uint64_t> stats;
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples;
  size_t viols;
  uint64_t cur;
  pthread_t main_thread;
  std::atomic<bool> case_failed;
};
inline Global& g() { static Global *x = new Global(); return *x; }

inline const Config& cfg() { return g().cfg; }

inline std::string esc(const std::string& s, size_t limit = 4000)
{
  std::string r;
  for (size_t i = 0; i < s.size() && r.size() < limit; ++i)
  {
    unsigned char c = (unsigned char)s[i];
    if (c == '\\') r += "\\\\";
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\r') r += "\\r";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += char(c);
  }
  if (s.size() > limit) r += "...";
  return r;
}
inline std::string q(const std::string& s, size_t limit = 400) { return "\"" + esc(s, limit) + "\""; }

// What the case is doing, for the attribution of crashes and hangs.
inline void phase(const std::string& text)
{
  if (!g().marker) return;
  strncpy(g().marker + 8, text.c_str(), 480);
  g().marker[8 + 480] = 0;
}

inline void stat(const std::string& name, uint64_t n = 1)
{
  std::lock_guard<std::mutex> l(g().mtx);
  g().stats[name] += n;
}
inline void stat_max(const std::string& name, uint64_t n)
{
  std::lock_guard<std::mutex> l(g().mtx);
  uint64_t& v = g().stats["max." + name];
  if (n > v) v = n;
}
// One judged execution/situation; the hash identifies what was distinct about it.
inline void state(uint64_t h)
{
  std::lock_guard<std::mutex> l(g().mtx);
  ++g().stats["evaluations"];
  if (g().states.size() < 400000) g().states.insert(h);
}
inline void state(const Hash& h) { state(h.h); }
// One judged execution that is trivial (counted, but not as a distinct one).
inline void trivial() { stat("evaluations"); }
inline void sample(const std::string& s)
{
  std::lock_guard<std::mutex> l(g().mtx);
  if (g().samples.size() < 3) g().samples.push_back(s);
}
inline bool want_sample() { std::lock_guard<std::mutex> l(g().mtx); return g().samples.size() < 3; }

// A violation seen by a monitor.  `key` classifies it (used for known findings).
inline void note_viol(const std::string& key, const std::string& detail)
{
  std::lock_guard<std::mutex> l(g().mtx);
  g().case_failed = true;
  if (++g().viols > 40) return;
  fprintf(g().out, "V\t%llu\t%s\t%s\n", (unsigned long long)g().cur, esc(key, 200).c_str(), esc(detail).c_str());
  fflush(g().out);
}
inline void viol(const std::string& key, const std::string& detail)
{
  note_viol(key, detail);
  if (pthread_equal(pthread_self(), g().main_thread)) throw Fail();
}
// The harness itself could not do its job: neither pass nor violation.
[[noreturn]] inline void broken(const std::string& why)
{
  {
    std::lock_guard<std::mutex> l(g().mtx);
    fprintf(g().out, "B\t%llu\t%s\n", (unsigned long long)g().cur, esc(why).c_str());
    fflush(g().out);
  }
  _exit(3);
}
// The case could not be judged (for instance a timing premise did not hold).
inline void inconclusive(const std::string& why) { stat("inconclusive." + why); }

#define MON_CHECK(cond, key, expr) \
  do { if (!(cond)) { std::ostringstream mon_os_; mon_os_ << expr; ::mon::viol(key, mon_os_.str()); } } while (0)
// Same, without leaving the case (for threads and destructors).
#define MON_NOTE(cond, key, expr) \
  do { if (!(cond)) { std::ostringstream mon_os_; mon_os_ << expr; ::mon::note_viol(key, mon_os_.str()); } } while (0)

// --------------------------------------------------------------------- time
inline int64_t now_ns()
{
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return int64_t(ts.tv_sec) * 1000000000 + ts.tv_nsec;
}
inline void sleep_us(int64_t us)
{
  struct timespec ts; ts.tv_sec = us / 1000000; ts.tv_nsec = (us % 1000000) * 1000;
  while (nanosleep(&ts, &ts) != 0) { }
}
// Waits until pred() or the time is over; true if pred() held.
template <class P> bool wait_for(P pred, int64_t timeout_ms)
{
  int64_t end = now_ns() + timeout_ms * 1000000;
  for (;;)
  {
    if (pred()) return true;
    if (now_ns() > end) return false;
    sleep_us(200);
  }
}

// ---------------------------------------------------------------- processes
// Runs f in a child process (fresh statics, own exit handlers), takes over what its monitors
// observed, and passes on a crash or sanitizer report as this process' own.
template <class F> void in_child(F f, bool exit_handlers = false)
{
  Global& G = g();
  fflush(G.out);
  int fd[2];
  if (pipe(fd) != 0) broken("pipe");
  pid_t pid = fork();
  if (pid < 0) broken("fork");
  if (pid == 0)
  {
    close(fd[0]);
    G.stats.clear(); G.states.clear(); G.samples.clear();
    const size_t viols0 = G.viols;
    G.main_thread = pthread_self();
    try { f(); }
    catch (const Fail&) { }
    catch (const std::exception& e)
    { note_viol(std::string("exception:") + typeid(e).name(), std::string(e.what()) + " during " + (G.marker ? G.marker + 8 : "")); }
    std::ostringstream o;
    {
      std::lock_guard<std::mutex> l(G.mtx);
      for (std::map<std::string, uint64_t>::iterator it = G.stats.begin(); it != G.stats.end(); ++it) o << "S " << it->second << " " << it->first << "\n";
      for (std::unordered_set<uint64_t>::iterator it = G.states.begin(); it != G.states.end(); ++it) o << "H " << *it << "\n";
      for (size_t i = 0; i < G.samples.size(); ++i) o << "X 0 " << esc(G.samples[i], 1500) << "\n";
      o << "V " << (G.viols - viols0) << "\nEND\n";
      fflush(G.out);
    }
    const std::string t = o.str();
    for (size_t at = 0; at < t.size(); )
    {
      ssize_t n = write(fd[1], t.data() + at, t.size() - at);
      if (n <= 0) _exit(3);
      at += size_t(n);
    }
    close(fd[1]);
    if (exit_handlers) exit(0);
    _exit(0);
  }
  close(fd[1]);
  std::string t;
  char b[65536];
  ssize_t n;
  while ((n = read(fd[0], b, sizeof b)) > 0) t.append(b, size_t(n));
  close(fd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) { }
  const bool complete = t.size() >= 4 && t.compare(t.size() - 4, 4, "END\n") == 0;
  size_t vio = 0;
  {
    std::lock_guard<std::mutex> l(G.mtx);
    std::istringstream in(t);
    std::string line;
    while (std::getline(in, line))
    {
      if (line.size() < 3) continue;
      char *rest = NULL;
      uint64_t v = strtoull(line.c_str() + 2, &rest, 10);
      std::string name = *rest == ' ' ? rest + 1 : rest;
      if (line[0] == 'S' && name.compare(0, 4, "max.") == 0) { if (v > G.stats[name]) G.stats[name] = v; }
      else if (line[0] == 'S') G.stats[name] += v;
      else if (line[0] == 'H') { if (G.states.size() < 400000) G.states.insert(v); }
      else if (line[0] == 'X') { if (G.samples.size() < 3) G.samples.push_back(name); }
      else if (line[0] == 'V') vio = size_t(v);
    }
    G.viols += vio;
  }
  if (WIFSIGNALED(st)) _exit(128 + WTERMSIG(st));
  if (WIFEXITED(st) && WEXITSTATUS(st) != 0) _exit(WEXITSTATUS(st));
  if (!complete) broken("child without a report");
  if (vio) throw Fail();
}

// ----------------------------------------------------------------- to define
void run_case(uint64_t index, Rng& rng);
void setup();      // once per process
void teardown();   // once per process

} // namespace mon

#ifndef MON_NO_MAIN
int main(int argc, char **argv)
{
  using namespace mon;
  Global& G = g();
  G.out = NULL; G.marker = NULL; G.viols = 0; G.cur = 0; G.case_failed = false;
  G.cfg.seed = 1; G.cfg.from = 0; G.cfg.to = 1; G.cfg.verbose = false;
  G.main_thread = pthread_self();
  std::string report;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    std::string v = (i + 1 < argc) ? argv[i + 1] : "";
    if (a == "--seed") { G.cfg.seed = strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--from") { G.cfg.from = strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--to") { G.cfg.to = strtoull(v.c_str(), 0, 10); ++i; }
    else if (a == "--report") { report = v; ++i; }
    else if (a == "--scratch") { G.cfg.scratch = v; ++i; }
    else if (a == "--mode") { G.cfg.mode = v; ++i; }
    else if (a.compare(0, 2, "--") == 0) { G.cfg.opt[a.substr(2)] = v; ++i; }
  }
  if (report.empty()) { G.out = stdout; }
  else
  {
    G.out = fopen(report.c_str(), "w");
    if (!G.out) { fprintf(stderr, "cannot write %s\n", report.c_str()); return 3; }
    int fd = open((report + ".mark").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, 4096) != 0) { fprintf(stderr, "no marker\n"); return 3; }
    void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "no marker\n"); return 3; }
    G.marker = (char *)p;
    memset(G.marker, 0xff, 8);
    close(fd);
  }
  // a file growing without end ends this process (SIGXFSZ) before it fills the disk
  struct rlimit file_size;
  getrlimit(RLIMIT_FSIZE, &file_size);
  if (file_size.rlim_max == RLIM_INFINITY || file_size.rlim_max > (4ull << 30)) file_size.rlim_max = 4ull << 30;
  file_size.rlim_cur = file_size.rlim_max;
  setrlimit(RLIMIT_FSIZE, &file_size);
  if (!G.cfg.scratch.empty() && chdir(G.cfg.scratch.c_str()) != 0) { fprintf(stderr, "no scratch\n"); return 3; }
  mon::setup();
  for (uint64_t c = G.cfg.from; c < G.cfg.to; ++c)
  {
    G.cur = c;
    G.case_failed = false;
    phase("start");
    if (G.marker) memcpy(G.marker, &c, 8);
    Rng rng(mix(mix(G.cfg.seed) ^ (c * 0x2545F4914F6CDD1Dull)));
    try { mon::run_case(c, rng); }
    catch (const Fail&) { }
    catch (const std::exception& e)
    { note_viol(std::string("exception:") + typeid(e).name(), std::string(e.what()) + " during " + (G.marker ? G.marker + 8 : "")); }
    mon::stat("cases");
    if (G.viols > 40) break;
  }
  phase("teardown");
  mon::teardown();
  std::lock_guard<std::mutex> l(G.mtx);
  for (std::map<std::string, uint64_t>::iterator it = G.stats.begin(); it != G.stats.end(); ++it)
    fprintf(G.out, "S\t%s\t%llu\n", esc(it->first).c_str(), (unsigned long long)it->second);
  for (size_t i = 0; i < G.samples.size(); ++i) fprintf(G.out, "X\t%s\n", esc(G.samples[i], 1500).c_str());
  for (std::unordered_set<uint64_t>::iterator it = G.states.begin(); it != G.states.end(); ++it)
    fprintf(G.out, "H\t%llx\n", (unsigned long long)*it);
  fprintf(G.out, "END\n");
  fflush(G.out);
  if (G.cfg.opt.count("fast-exit")) _exit(0);
  return 0;
}
#endif
#endif
