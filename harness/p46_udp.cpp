// P46: a datagram is one well-formed record of exactly the message.
#include "mon_log.h"
#include "mon_clock.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sqlite3.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <fstream>
#include "icl_core_config/Config.h"
#include "icl_core_logging/UdpLogOutput.h"

struct Msg { int level; std::string stream, file, cls, obj, fun, text; int line; int64_t ns; };
static const char *level_name[] = { "Trace", "Debug", "Info", "Warning", "Error", "Mute" };
static sqlite3 *db;

// A host with several addresses, of which only the last one can be used
static std::string last_address;
static int resolved = 0;
extern "C" int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
extern "C" int __wrap_getaddrinfo(const char *host, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
  if (!host || strcmp(host, "several.addresses.invalid") != 0) return __real_getaddrinfo(host, service, hints, res);
  struct addrinfo *a = NULL, *b = NULL;
  int rc = __real_getaddrinfo("255.255.255.255", service, hints, &a);
  if (rc == 0) rc = __real_getaddrinfo(last_address.c_str(), service, hints, &b);
  if (rc != 0) { if (a) freeaddrinfo(a); return rc; }
  struct addrinfo *e = a;
  while (e->ai_next) e = e->ai_next;
  e->ai_next = b;
  *res = a;
  ++resolved;
  return 0;
}

// A loopback address of this process alone, so that nobody else takes a port that is free for a moment.
static uint32_t address() { return (127u << 24) | (64u << 16) | (uint32_t(getpid()) & 0x3fffff); }

struct Server
{
  int fd, port;
  Server() : fd(-1), port(0) { }
  void open(int wanted = 0)
  {
    fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    if (fd < 0) mon::broken("socket");
    int big = 8 << 20;
    setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(address()); a.sin_port = htons(uint16_t(wanted));
    if (bind(fd, (struct sockaddr *)&a, sizeof a) != 0) { if (wanted) { close(); return; } mon::broken("bind"); }
    socklen_t n = sizeof a;
    getsockname(fd, (struct sockaddr *)&a, &n);
    port = ntohs(a.sin_port);
  }
  void close() { if (fd >= 0) ::close(fd); fd = -1; }
  bool get(std::string& s, int ms)
  {
    struct pollfd p = { fd, POLLIN, 0 };
    if (poll(&p, 1, ms) <= 0) return false;
    static char b[70000];
    const ssize_t n = recv(fd, b, sizeof b, 0);
    if (n < 0) return false;
    s.assign(b, size_t(n));
    return true;
  }
};

static std::string nasty(mon::Rng& r, size_t max)
{
  static const char *bits[] = { "'", "''", "\\'", "','", "\\", "'); DROP TABLE log_entries; --", "\"", "%s%n", ",", "\n", "\t", "--", "/*", "\xc3\xa4", "\xff", "$1", "&", "NULL", "(", ")", ";", "a", "x y", "0" };
  std::string s;
  const int n = int(r.range(0, r.chance(10) ? 400 : 8));
  for (int i = 0; i < n; ++i) s += bits[r.below(24)];
  if (s.size() > max) s.resize(max);
  return s;
}
static Msg message(mon::Rng& r, const std::string& id)
{
  Msg m;
  m.level = int(r.below(5));
  m.stream = nasty(r, 200); m.file = nasty(r, 900); m.cls = nasty(r, 200); m.obj = nasty(r, 900); m.fun = nasty(r, 200);
  m.text = id + nasty(r, 1900);
  m.line = int(r.chance(80) ? r.range(0, 20000) : r.range(0, 0x7fffffff));
  m.ns = r.range(0, 4000000000ll) * 1000000000 + (r.chance(30) ? 0 : r.range(0, 999999) * 1000);
  return m;
}
static std::string stamp(int64_t ns)
{
  time_t t = time_t(ns / 1000000000); struct tm tm; localtime_r(&t, &tm);
  char b[40]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm);
  return b;
}
static void send(il::LogOutputStream *o, const Msg& m)
{
  o->push(il::LogLevel(m.level), m.stream.c_str(), m.file.c_str(), m.line, m.cls.c_str(), m.obj.c_str(), m.fun.c_str(), m.text.c_str());
}

// What a server reads that puts the datagram into an insert statement.
static bool fields(const std::string& datagram, std::vector<std::string>& f, std::string& why)
{
  f.clear();
  const std::string sql = "SELECT " + datagram;
  sqlite3_stmt *st = NULL;
  const char *tail = NULL;
  if (datagram.find('\0') != std::string::npos) { why = "it contains a NUL character"; return false; }
  if (sqlite3_prepare_v2(db, sql.c_str(), -1, &st, &tail) != SQLITE_OK || !st) { why = sqlite3_errmsg(db); sqlite3_finalize(st); return false; }
  if (tail && *tail) { why = "it ends the statement and goes on with " + mon::q(tail, 100); sqlite3_finalize(st); return false; }
  if (sqlite3_step(st) != SQLITE_ROW) { why = sqlite3_errmsg(db); sqlite3_finalize(st); return false; }
  for (int i = 0; i < sqlite3_column_count(st); ++i)
  {
    const char *p = (const char *)sqlite3_column_text(st, i);
    f.push_back(p ? std::string(p, size_t(sqlite3_column_bytes(st, i))) : std::string("<NULL>"));
  }
  sqlite3_finalize(st);
  return true;
}
static void judge(const std::string& d, const Msg& m, const std::string& system, bool timed)
{
  static const char *name[] = { "system", "timestamp", "nanoseconds", "level", "stream", "file", "line", "class", "object", "function", "text" };
  std::vector<std::string> f;
  std::string why;
  MON_CHECK(fields(d, f, why), "malformed", "the datagram " << mon::q(d, 600) << " is no list of values: " << why);
  MON_CHECK(f.size() == 11, "malformed", "the datagram " << mon::q(d, 600) << " has " << f.size() << " values");
  std::ostringstream ns, ln;
  ns << m.ns % 1000000000; ln << m.line;
  const std::string want[] = { system, stamp(m.ns), ns.str(), level_name[m.level], m.stream, m.file, ln.str(), m.cls, m.obj, m.fun, m.text };
  for (int i = 0; i < 11; ++i)
    if (timed || (i != 1 && i != 2))
      MON_CHECK(f[size_t(i)] == want[i], std::string("value:") + name[i], "the datagram says " << name[i] << " " << mon::q(f[size_t(i)]) << " instead of " << mon::q(want[i]));
  mon::Hash h;
  for (int i = 4; i < 11; ++i) h.add(want[i].find('\'') != std::string::npos).add(want[i].find('\\') != std::string::npos).add(want[i].empty());
  mon::state(h);
  mon::stat("obs.datagrams");
  if (d.size() > 1500) mon::stat("obs.long_datagrams");
  if (mon::want_sample()) mon::sample(mon::q(d, 300));
}

static size_t descriptors()
{
  size_t n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) mon::broken("no /proc");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
// An output without a usable destination loses its messages and does no other harm.
static void nowhere(mon::Rng& r, const std::string& prefix)
{
  static const char *hosts[] = { "", "no.such.host.invalid", "300.1.1.1", "::1", "not a host", "255.255.255.255" };
  std::ostringstream err;
  struct Quiet { std::streambuf *b; ~Quiet() { std::cerr.rdbuf(b); } } quiet = { std::cerr.rdbuf(err.rdbuf()) };
  const size_t fds = descriptors();
  const int h = int(r.below(9));      // 6: no host
  if (h != 6) icl_core::config::setValue(prefix + "/Host", hosts[h < 6 ? h : 5]);
  icl_core::config::setValue(prefix + "/Port", h >= 5 || r.chance(70) ? "60000" : "no-such-service");
  mon::phase("a UDP output without destination");
  il::LogOutputStream *o = il::UdpLogOutput::create("udp", prefix, il::eLL_TRACE);
  // files of somebody else, which get the descriptors that are free now
  const std::string file = mon::cfg().scratch + "/bystander";
  int by[3];
  struct stat st[3], now;
  for (int i = 0; i < 3; ++i)
    if ((by[i] = open((file + char('0' + i)).c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600)) < 0 || fstat(by[i], &st[i]) != 0) mon::broken("open");
  o->start();
  for (int i = int(r.range(0, 5)); i > 0; --i) send(o, message(r, ""));
  o->shutdown();
  delete o;
  for (int i = 0; i < 3; ++i)
  {
    MON_CHECK(fstat(by[i], &now) == 0 && now.st_ino == st[i].st_ino, "foreign-descriptor", "an output without destination closes a descriptor of somebody else");
    MON_CHECK(now.st_size == 0, "foreign-descriptor", "an output without destination writes its messages to a file of somebody else");
    close(by[i]);
    unlink((file + char('0' + i)).c_str());
  }
  MON_CHECK(descriptors() == fds, "descriptor-left", "an output without destination leaves descriptors open");
  mon::stat("obs.nowhere");
}
void mon::run_case(uint64_t index, Rng& r)
{
  if (index % 8 == 3) { std::ostringstream n; n << "/VerifNowhere/" << index; nowhere(r, n.str()); }
  const size_t fds = descriptors();
  static const char *zones[] = { "UTC", "Europe/Berlin", "America/St_Johns", "Asia/Kathmandu" };
  setenv("TZ", zones[r.below(4)], 1); tzset();
  Server s;
  const bool usual = r.chance(10);       // the documented default port
  s.open(usual ? 60000 : 0);
  if (s.fd < 0) { mon::inconclusive("port-taken"); return; }
  std::ostringstream pf, po; pf << "/VerifUdp/" << index; po << s.port;
  struct in_addr ia; ia.s_addr = htonl(address());
  std::string host = inet_ntoa(ia);
  last_address = host;
  const int resolved_before = resolved;
  const bool several = r.chance(12);
  if (several) host = "several.addresses.invalid";
  const bool nameless = r.chance(8);
  const std::string prefix = pf.str(), system = nameless ? "" : r.chance(60) ? r.str("system ab1", 0, 12) : nasty(r, 100);
  icl_core::config::setValue(prefix + "/Host", host);
  if (!usual) icl_core::config::setValue(prefix + "/Port", po.str()); else mon::stat("obs.default_port");
  std::ostringstream err;
  struct Quiet { std::streambuf *b; ~Quiet() { std::cerr.rdbuf(b); } } quiet = { std::cerr.rdbuf(err.rdbuf()) };
  if (!nameless) icl_core::config::setValue(prefix + "/SystemName", system);
  il::LogOutputStream *o = il::UdpLogOutput::create("udp", prefix, il::eLL_TRACE);
  o->start();
  if (several && resolved == resolved_before) { mon::stat("obs.resolved_otherwise"); o->shutdown(); delete o; s.close(); return; }
  if (several) mon::stat("obs.several_addresses");
  const int n = int(r.range(1, 15));
  std::string d;
  for (int i = 0; i < n; ++i)
  {
    const Msg m = message(r, "");
    clock_set(m.ns);
    mon::phase("message");
    send(o, m);
    MON_CHECK(s.get(d, 15000), "not-sent", "no datagram arrived within 15 s");
    judge(d, m, system, true);
    if (r.chance(5))
    {
      // the server is away for some time: what is logged after it is back arrives again
      const int port = s.port;
      s.close();
      const Msg lost = message(r, "lost");
      const int k = int(r.range(1, 4));
      for (int j = 0; j < k; ++j) { send(o, lost); mon::sleep_us(3000); }
      s.open(port);
      if (s.fd < 0) { mon::inconclusive("port-taken"); o->shutdown(); delete o; clock_set(-1); return; }
      const Msg next = message(r, "next");
      clock_set(next.ns);
      send(o, next);
      // (messages of before may still be under way)
      bool got = false;
      while (s.get(d, 15000)) { std::vector<std::string> f; std::string why; if (fields(d, f, why) && f.size() == 11 && f[10] == lost.text) continue; got = true; break; }
      MON_CHECK(got, "not-sent-after-outage", "the message logged after the server is back never arrived");
      judge(d, next, system, true);
      mon::stat("obs.outages");
    }
  }
  clock_set(-1);
  // several threads
  const int T = int(r.range(0, 3));
  std::vector<std::vector<Msg> > sent(static_cast<size_t>(T));
  locks::Threads th;
  size_t total = 0;
  for (int t = 0; t < T; ++t)
  {
    for (int i = 0; i < int(r.range(1, 12)); ++i) { std::ostringstream id; id << t << "." << i << " "; sent[size_t(t)].push_back(message(r, id.str())); }
    total += sent[size_t(t)].size();
    const std::vector<Msg>& v = sent[size_t(t)];
    th.add([&v, o]() { for (size_t i = 0; i < v.size(); ++i) send(o, v[i]); });
  }
  th.join();
  o->shutdown();
  std::vector<size_t> at(sent.size(), 0);
  for (size_t i = 0; i < total; ++i)
  {
    MON_CHECK(s.get(d, 15000), "not-sent", "only " << i << " datagrams arrived for " << total << " messages");
    std::vector<std::string> f;
    std::string why;
    MON_CHECK(fields(d, f, why) && f.size() == 11, "malformed", "the datagram " << mon::q(d, 600) << " is no list of 11 values: " << why);
    const size_t t = size_t(atoi(f[10].c_str()));
    MON_CHECK(t < sent.size() && at[t] < sent[t].size(), "unsent-message", "a datagram that was never logged: " << mon::q(d, 300));
    judge(d, sent[t][at[t]++], system, false);
    mon::stat("obs.concurrent");
  }
  MON_CHECK(!s.get(d, 0), "more-datagrams", "a datagram too many: " << mon::q(d, 300));
  delete o;
  s.close();
  MON_CHECK(descriptors() == fds, "descriptor-left", fds << " descriptors before, " << descriptors() << " after the end of the output");
}
void mon::setup()
{
  if (sqlite3_open(":memory:", &db) != SQLITE_OK) mon::broken("sqlite");
  icl_core::config::setValue("/IclCore/Logging/OutputStream1/OutputStreamName", "None");
  il::LoggingManager::instance().initialize();
}
void mon::teardown() { il::LoggingManager::instance().shutdown(); sqlite3_close(db); }
