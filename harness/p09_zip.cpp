// P09: zipFile is lossless or reported as failed, with failing devices, limits and permissions.
#include "mon.h"
#include <errno.h>
#include <signal.h>
#include <sys/resource.h>
#include <atomic>
#include <thread>
#include <vector>
#include <zlib.h>
#include "icl_core/os_fs.h"

static std::string dir;

static bool slurp(const std::string& path, std::string& out)
{
  out.clear();
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) return false;
  char b[8192];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
  fclose(f);
  return true;
}
static void spit(const std::string& path, const std::string& s)
{
  FILE *f = fopen(path.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f) != 0) mon::broken("cannot write " + path);
}
// Independent gunzip: complete members only, nothing behind the last one.
static bool gunzip(const std::string& z, std::string& out)
{
  out.clear();
  size_t at = 0;
  while (at < z.size())
  {
    z_stream s;
    memset(&s, 0, sizeof s);
    if (inflateInit2(&s, 15 + 16) != Z_OK) mon::broken("inflateInit2");
    s.next_in = (Bytef *)z.data() + at;
    s.avail_in = uInt(z.size() - at);
    int rc;
    do
    {
      char b[16384];
      s.next_out = (Bytef *)b;
      s.avail_out = sizeof b;
      rc = inflate(&s, Z_NO_FLUSH);
      if (rc == Z_OK || rc == Z_STREAM_END) out.append(b, sizeof b - s.avail_out);
    } while (rc == Z_OK);
    size_t used = z.size() - at - s.avail_in;
    inflateEnd(&s);
    if (rc != Z_STREAM_END) return false;
    at += used;
  }
  return !z.empty();
}
static std::string deflated(const std::string& s)
{
  std::string out(compressBound(s.size()) + 64, 0);
  z_stream z;
  memset(&z, 0, sizeof z);
  deflateInit2(&z, 6, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
  z.next_in = (Bytef *)s.data(); z.avail_in = uInt(s.size());
  z.next_out = (Bytef *)&out[0]; z.avail_out = uInt(out.size());
  deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  return out;
}
static size_t open_fds()
{
  size_t n = 0;
  for (int i = 0; i < 256; ++i) if (fcntl(i, F_GETFD) >= 0) ++n;
  return n;
}

void mon::setup() { signal(SIGXFSZ, SIG_IGN); dir = cfg().scratch + "/"; }
void mon::teardown() { }
// Several threads zip files of their own at the same time.
static void together(mon::Rng& r)
{
  const size_t n = 2 + r.below(5);
  std::vector<std::string> content(n), name(n);
  std::vector<char> ok(n, 0);
  for (size_t i = 0; i < n; ++i)
  {
    name[i] = dir + "t" + std::to_string(i);
    const size_t size = r.below(r.chance(30) ? 200000 : 20000);
    if (r.chance(50)) while (content[i].size() < size) content[i] += "file " + std::to_string(i) + " line " + std::to_string(r.below(50)) + "\n";
    else { content[i].resize(size); for (size_t k = 0; k < size; ++k) content[i][k] = char(r.next()); }
    spit(name[i], content[i]);
    unlink((name[i] + ".gz").c_str());
  }
  mon::phase("zipFile in threads");
  const size_t fds = open_fds();
  std::atomic<size_t> ready(0);
  std::vector<std::thread> t;
  for (size_t i = 0; i < n; ++i)
    t.emplace_back([&, i]() { ++ready; while (ready < n) std::this_thread::yield(); ok[i] = icl_core::os::zipFile(name[i].c_str()); });
  for (size_t i = 0; i < n; ++i) t[i].join();
  for (size_t i = 0; i < n; ++i)
  {
    std::string z, back, now;
    const std::string ctx = "zipFile of " + std::to_string(content[i].size()) + " bytes in one of " + std::to_string(n) + " threads";
    MON_CHECK(ok[i], "failed:threads", ctx << " failed without a reason");
    MON_CHECK(slurp(name[i] + ".gz", z) && gunzip(z, back), "archive-broken:threads", ctx << " reported success, the archive of " << z.size() << " bytes is damaged");
    MON_CHECK(back == content[i], "archive-differs:threads", ctx << " reported success, the archive holds " << back.size() << " bytes, not those of the file");
    MON_CHECK(slurp(name[i], now) && now == content[i], "original-changed", ctx << " changed the original file");
    mon::stat("obs.in_threads");
    unlink(name[i].c_str()); unlink((name[i] + ".gz").c_str());
  }
  MON_CHECK(open_fds() == fds, "descriptor-leak", "zipFile in threads left a file descriptor open");
  mon::state(mon::Hash().add(77).add(n).add(content[0].size()));
}

void mon::run_case(uint64_t, Rng& r)
{
  if (cfg().mode == "threads" || r.chance(12)) { together(r); return; }
  static const size_t edges[] = { 0, 1, 2, 0xfff, 0x1000, 0x1001, 0x1fff, 0x2000, 0x2001, 8191, 8192, 8193, 65536 };
  size_t n = r.chance(50) ? edges[r.below(13)] : r.below(r.chance(20) ? 300000 : 20000);
  std::string s;
  unsigned content = unsigned(r.below(5));
  if (content == 0) { s.resize(n); for (size_t i = 0; i < n; ++i) s[i] = char(r.next()); }
  else if (content == 1) s.assign(n, r.chance(50) ? '\0' : 'x');
  else if (content == 2) while (s.size() < n) s += "line " + std::to_string(r.below(50)) + "\n";
  else if (content == 3) { s = deflated(r.str("abc\n", 0, 3000)); if (r.chance(40)) s += r.str("xyz", 0, 30); }
  else { s = r.chance(50) ? "\x1f\x8b" : "\x1f"; s += r.str(std::string("\0\x08\xff", 3), 0, 50); }
  const std::string name = dir + "f" + r.str("ab.", 1, 4), ext = r.chance(50) ? "" : r.str("._x1", 1, 5), archive = name + ext + ".gz";
  const size_t fds = open_fds();
  const unsigned fault = r.chance(45) ? 0 : 1 + unsigned(r.below(6));
  bool may_succeed = true, must_fail = false;
  spit(name, s);
  unlink(archive.c_str());
  if (r.chance(30)) spit(archive, "an older archive, longer than the new one " + std::string(r.below(100000), 'z'));
  struct rlimit old;
  getrlimit(RLIMIT_FSIZE, &old);
  size_t limit = 0;
  std::string what = "none", src = name;
  if (fault == 1) { unlink(archive.c_str()); if (symlink("/dev/full", archive.c_str()) != 0) broken("symlink"); must_fail = true; what = "full-device"; }
  else if (fault == 2) { limit = r.below(std::max<size_t>(s.size(), 64)); what = "file-size-limit"; }
  else if (fault == 3) { unlink(name.c_str()); must_fail = true; what = "original-missing"; }
  else if (fault == 4) { unlink(name.c_str()); mkdir(name.c_str(), 0755); must_fail = true; what = "original-is-directory"; }
  else if (fault == 5) { unlink(archive.c_str()); mkdir(archive.c_str(), 0755); must_fail = true; what = "archive-is-directory"; }
  else if (fault == 6)
  {
    if (getuid() == 0) return;
    chmod(name.c_str(), 0); must_fail = true; what = "original-unreadable";
  }
  phase("zipFile " + what);
  if (limit || fault == 2) { struct rlimit l = old; l.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &l); }
  bool ok;
  if (ext.empty() && r.chance(50)) ok = icl_core::os::zipFile(name.c_str());
  else ok = icl_core::os::zipFile(name.c_str(), ext.c_str());
  setrlimit(RLIMIT_FSIZE, &old);
  std::string z, back, now;
  bool have = fault != 1 && fault != 5 && slurp(archive, z);
  const std::string ctx = "zipFile of " + std::to_string(s.size()) + " bytes (content " + std::to_string(content) + ", fault " + what + ")";
  MON_CHECK(!(ok && must_fail), "failure-unreported:" + what, ctx << " reported success");
  if (ok)
  {
    MON_CHECK(have, "no-archive", ctx << " reported success without an archive");
    MON_CHECK(gunzip(z, back), "archive-broken:" + what, ctx << " reported success, the archive of " << z.size() << " bytes is damaged");
    MON_CHECK(back == s, "archive-differs", ctx << " reported success, the archive holds " << back.size() << " bytes");
    mon::stat("obs.lossless");
  }
  else
  {
    MON_CHECK(fault != 0, "failed", ctx << " failed without a reason");
    mon::stat("obs.failure." + what);
    mon::stat("obs.failures");
  }
  if (fault != 3 && fault != 4 && fault != 6)
    MON_CHECK(slurp(name, now) && now == s, "original-changed", ctx << " changed the original file");
  MON_CHECK(open_fds() == fds, "descriptor-leak", ctx << " left a file descriptor open");
  mon::state(mon::Hash().add(fault).add(content).add(s.size()).add(ok).add(ext.empty()));
  if (mon::want_sample()) mon::sample(ctx + (ok ? " ok" : " failed"));
  chmod(name.c_str(), 0644);
  if (fault == 4) rmdir(name.c_str()); else unlink(name.c_str());
  if (fault == 5) rmdir(archive.c_str()); else unlink(archive.c_str());
  (void)may_succeed;
}
