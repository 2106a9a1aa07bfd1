// P44: the log file and its rotated predecessors hold every line, once and in order; nothing else is touched.
#include "mon_log.h"
#include "mon_clock.h"
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <sys/resource.h>
#include <zlib.h>
#include <algorithm>
#include "icl_core_config/Config.h"
#include "icl_core_logging/FileLogOutput.h"

static const int64_t DAY = 86400ll * 1000000000ll;
static const char BANNER[] = "\n\n-------------FILE (RE-)OPENED------------------\n";

// ------------------------------------------------------------- faults while rotating
static std::atomic<int> fault_kind(0);      // 0 none, 1 archive cannot be created, 2 written, 3 completed, 4 file cannot be renamed
static std::atomic<long> fault_fired(0), write_budget(0);
extern "C" gzFile __real_gzopen(const char *, const char *);
extern "C" int __real_gzwrite(gzFile, voidpc, unsigned);
extern "C" int __real_gzclose(gzFile);
extern "C" int __real_rename(const char *, const char *);
extern "C" gzFile __wrap_gzopen(const char *p, const char *m)
{
  if (fault_kind.load() == 1) { fault_fired.fetch_add(1); errno = ENOSPC; return NULL; }
  return __real_gzopen(p, m);
}
extern "C" int __wrap_gzwrite(gzFile f, voidpc b, unsigned n)
{
  if (fault_kind.load() == 2 && write_budget.fetch_sub(1) <= 0)
  { fault_fired.fetch_add(1); errno = ENOSPC; return 0; }
  return __real_gzwrite(f, b, n);
}
extern "C" int __wrap_gzclose(gzFile f)
{
  const int rc = __real_gzclose(f);
  if (fault_kind.load() == 3) { fault_fired.fetch_add(1); errno = ENOSPC; return Z_ERRNO; }
  return rc;
}
extern "C" int __wrap_rename(const char *a, const char *b)
{
  if (fault_kind.load() == 4) { fault_fired.fetch_add(1); errno = EACCES; return -1; }
  return __real_rename(a, b);
}

// ----------------------------------------------------------------------- files
static bool slurp(const std::string& path, std::string& out)
{
  out.clear();
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) return false;
  char b[16384];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
  fclose(f);
  return true;
}
static void spit(const std::string& path, const std::string& s)
{
  FILE *f = fopen(path.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f) != 0) mon::broken("cannot write " + path);
}
static void touch(const std::string& path, int64_t ns)
{
  struct timespec t[2];
  t[0].tv_sec = t[1].tv_sec = time_t(ns / 1000000000); t[0].tv_nsec = t[1].tv_nsec = long(ns % 1000000000);
  utimensat(AT_FDCWD, path.c_str(), t, AT_SYMLINK_NOFOLLOW);
}
// The text in a file: complete gzip members (the last one may be unfinished if open), or the bytes as they are.
static bool decode(const std::string& z, bool open, std::string& out)
{
  out.clear();
  if (z.size() < 2 || (unsigned char)z[0] != 0x1f || (unsigned char)z[1] != 0x8b) { out = z; return true; }
  size_t at = 0;
  while (at < z.size())
  {
    z_stream s;
    memset(&s, 0, sizeof s);
    if (inflateInit2(&s, 15 + 16) != Z_OK) mon::broken("inflateInit2");
    s.next_in = (Bytef *)z.data() + at;
    s.avail_in = uInt(z.size() - at);
    int rc;
    do
    {
      char b[16384];
      s.next_out = (Bytef *)b; s.avail_out = sizeof b;
      rc = inflate(&s, Z_SYNC_FLUSH);
      if (rc == Z_OK || rc == Z_STREAM_END || rc == Z_BUF_ERROR) out.append(b, sizeof b - s.avail_out);
    } while (rc == Z_OK);
    at = z.size() - s.avail_in;
    const bool rest = s.avail_in != 0;
    inflateEnd(&s);
    if (rc == Z_STREAM_END) continue;
    return open && !rest && rc == Z_BUF_ERROR;
  }
  return true;
}
static std::string without_banners(std::string s)
{
  for (size_t p; (p = s.find(BANNER)) != std::string::npos; ) s.erase(p, sizeof BANNER - 1);
  return s;
}
static std::string date(int64_t day)
{
  time_t t = time_t(day * 86400); struct tm tm; gmtime_r(&t, &tm);
  char b[40]; strftime(b, sizeof b, "%Y-%m-%d", &tm);
  return b;
}

struct File { std::string raw; int64_t mtime; bool rotated; char kind; };    // kind: 'f' file, 'd' directory, 'l' dangling link

struct World
{
  std::string base;                    // name of the log file within the directory
  bool zip;
  std::map<std::string, File> others;
  std::string live;                    // lines in the log file
  bool live_exists;
  int64_t live_mtime, now;
  int64_t since;                       // the day the log file was begun
  bool dated;                          // and whether that day is certain

  std::map<std::string, File> look()
  {
    std::map<std::string, File> m;
    DIR *d = opendir(".");
    if (!d) mon::broken("opendir");
    while (struct dirent *e = readdir(d))
    {
      const std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      struct stat st;
      if (lstat(n.c_str(), &st) != 0) continue;
      File f;
      f.mtime = int64_t(st.st_mtim.tv_sec) * 1000000000 + st.st_mtim.tv_nsec;
      f.rotated = false;
      f.kind = S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f';
      if (f.kind == 'f') slurp(n, f.raw);
      m[n] = f;
    }
    closedir(d);
    return m;
  }
  std::string live_now(bool open, bool& ok)
  {
    std::string raw, text;
    if (!slurp(base, raw)) { ok = false; return ""; }
    ok = decode(raw, open, text);
    return without_banners(text);
  }

  // rotate: 0 must not, 1 must, 2 may. cutoff: days below it are deleted by the rotation (INT64_MIN: none)
  void judge(int rotate, int64_t cutoff, bool open, const std::string& ctx, const std::string& expected_live, bool live_expected = true, bool attempted = false)
  {
    std::map<std::string, File> m = look();
    std::vector<std::string> fresh;
    for (std::map<std::string, File>::iterator it = m.begin(); it != m.end(); ++it)
      if (it->first != base && !others.count(it->first)) fresh.push_back(it->first);
    if (rotate == 2) rotate = fresh.empty() ? 0 : 1;
    const bool may_vanish = rotate == 1 && live_mtime / DAY < cutoff;
    std::ostringstream names;
    for (size_t i = 0; i < fresh.size(); ++i) names << " " << fresh[i];
    MON_CHECK(fresh.size() == size_t(rotate) || (may_vanish && fresh.empty()), rotate ? "not-rotated" : "unexpected-file", ctx << ": new files:" << names.str());
    // what has to be deleted, and what must still be there
    for (std::map<std::string, File>::iterator it = others.begin(); it != others.end(); )
    {
      const std::string& n = it->first;
      const File& f = it->second;
      const bool there = m.count(n) != 0;
      const bool old = rotate == 1 && f.rotated && f.mtime / DAY < cutoff;
      if (old)
      {
        MON_CHECK(!there, "not-deleted", ctx << ": " << n << " of " << date(f.mtime / DAY) << " is not deleted, everything before " << date(cutoff) << " should be");
        mon::stat("obs.deleted");
        others.erase(it++);
        continue;
      }
      if (!there && attempted && f.rotated && f.mtime / DAY < cutoff) { others.erase(it++); continue; }
      MON_CHECK(there, f.rotated ? "deleted-early" : "foreign-deleted", ctx << ": " << (f.rotated ? "rotated file " : "unrelated file ") << n << " of " << date(f.mtime / DAY) << " is gone"
                << (cutoff == INT64_MIN ? "" : ", only rotated files before " + date(cutoff) + " may go"));
      MON_CHECK(m[n].kind == f.kind && m[n].raw == f.raw, "overwritten", ctx << ": the content of " << n << " changed");
      if (rotate == 1 && cutoff != INT64_MIN) mon::stat(f.rotated ? "obs.kept_rotated" : "obs.kept_unrelated");
      ++it;
    }
    if (rotate == 1)
    {
      if (!fresh.empty())
      {
        const std::string& n = fresh[0];
        std::string text;
        MON_CHECK(decode(m[n].raw, false, text), "archive-damaged", ctx << ": the rotated file " << n << " is not complete");
        MON_CHECK(without_banners(text) == live, "archive-content", ctx << ": the rotated file " << n << " holds " << mon::q(without_banners(text), 300) << " instead of " << mon::q(live, 300));
        MON_CHECK(n.compare(0, base.size() + 1, base + ".") == 0, "archive-name", ctx << ": the rotated file is called " << n);
        if (dated) MON_CHECK(n.compare(0, base.size() + 11, base + "." + date(since)) == 0, "archive-name", ctx << ": the rotated file of " << date(since) << " is called " << n);
        File f = m[n];
        f.rotated = true; f.mtime = now; f.kind = 'f';
        touch(n, now);
        others[n] = f;
        mon::stat("obs.rotations");
      }
      since = now / DAY; dated = true;
    }
    live = expected_live;
    if (live_expected || m.count(base))
    {
      bool ok;
      const std::string g = live_now(open, ok);
      MON_CHECK(ok, "live-damaged", ctx << ": the log file is missing or damaged");
      MON_CHECK(g == live, "live-content", ctx << ": the log file holds " << mon::q(g, 400) << " instead of " << mon::q(live, 400));
      live_exists = true; live_mtime = now;
      touch(base, now);
    }
    mon::state(mon::Hash().add(uint64_t(rotate)).add(zip).add(cutoff != INT64_MIN).add(others.size()).add(std::min<size_t>(live.size(), 3)).add(open).add(uint64_t(fault_kind.load())));
  }
};

static std::string line(mon::Rng& r, int who)
{
  static long n = 0;
  std::ostringstream o;
  o << "#" << who << "." << n++ << " " << r.str("abc {}%\\'\"\t", 0, r.chance(5) ? 1500 : 40) << "\n";
  return o.str();
}
static void say(il::LogOutputStream *o, const std::string& t) { o->push(il::eLL_INFO, "stream", "file", 1, "", "", "", t.c_str()); }

static void put(World& w, const std::string& name, const std::string& raw, int64_t day, bool rotated, mon::Rng& r, char kind = 'f')
{
  if (w.others.count(name) || name == w.base) return;
  File f;
  f.raw = raw; f.rotated = rotated; f.kind = kind; f.mtime = day * DAY + r.range(0, DAY - 1);
  if (kind == 'd') mkdir(name.c_str(), 0755);
  else if (kind == 'l') { if (symlink("nowhere/at-all", name.c_str()) != 0) mon::broken("symlink"); }
  else spit(name, raw);
  if (kind == 'd') f.raw.clear();
  if (kind == 'l') f.raw.clear();
  touch(name, f.mtime);
  w.others[name] = f;
}

// The directory of the log file appears after the output was made: from then on the lines are written.
static void late_directory(mon::Rng& r, const std::string& dir, uint64_t index)
{
  const std::string sub = dir + "/late", file = sub + "/app.log";
  const bool zip = r.chance(40);
  std::ostringstream pf; pf << "/VerifFile/" << index << "/late";
  icl_core::config::setValue(pf.str() + "/FileName", file);
  icl_core::config::setValue(pf.str() + "/Format", "~E");
  if (zip) icl_core::config::setValue(pf.str() + "/Zip", "true");
  if (r.chance(30)) icl_core::config::setValue(pf.str() + "/Rotate", "yes");
  il::LogOutputStream *o = il::FileLogOutput::create("f", pf.str(), il::eLL_TRACE);
  o->start();
  mon::phase(std::string("late directory") + (zip ? " zip" : ""));
  std::vector<std::string> sent;
  size_t before = 0;
  for (int i = 0; i < int(r.range(0, 5)); ++i, ++before) { sent.push_back(line(r, 7)); say(o, sent.back()); }
  if (r.chance(50)) mon::sleep_us(2000);
  if (mkdir(sub.c_str(), 0755) != 0) mon::broken("mkdir " + sub);
  for (int i = 0; i < int(r.range(1, 5)); ++i) { sent.push_back(line(r, 7)); say(o, sent.back()); }
  o->shutdown();
  delete o;
  std::string raw, text, want;
  slurp(file, raw);
  MON_CHECK(decode(raw, false, text), "live-damaged", "the log file in a directory made later is damaged");
  text = without_banners(text);
  for (size_t i = before; i < sent.size(); ++i) want += sent[i];
  size_t first = before;
  while (text != want && first > 0) want = sent[--first] + want;
  MON_CHECK(text == want, "late-directory", "the directory of the log file appeared after line " << before << ", the file holds " << mon::q(text, 300) << " of the " << sent.size() << " lines");
  mon::stat("obs.late_directories");
  unlink(file.c_str()); rmdir(sub.c_str());
}

// The disk is full for a while (a size limit stands in for it): the lines before are kept, and
// everything said once there is space again is in the file, complete, once and in order.
static void disk_full(mon::Rng& r, const std::string& dir, uint64_t index)
{
  const std::string file = dir + "/full.log";
  const bool zip = r.chance(40);
  std::ostringstream pf; pf << "/VerifFile/" << index << "/full";
  icl_core::config::setValue(pf.str() + "/FileName", file);
  icl_core::config::setValue(pf.str() + "/Format", "~E");
  if (zip) icl_core::config::setValue(pf.str() + "/Zip", "true");
  il::LogOutputStream *o = il::FileLogOutput::create("f", pf.str(), il::eLL_TRACE);
  o->start();
  mon::phase(std::string("full disk") + (zip ? " zip" : ""));
  std::string before, last_before, after;
  unsigned lost = 0, kept = 0;
  for (int round = 0; round < int(r.range(1, 3)); ++round)
  {
    std::string sure;
    for (int i = 0; i < int(r.range(1, 6)); ++i) { last_before = line(r, 7); sure += last_before; say(o, last_before); }
    // wait until the last of them is in the file
    std::string raw, text;
    bool there = false;
    for (int i = 0; i < 4000 && !there; ++i)
    {
      slurp(file, raw);
      if (decode(raw, true, text)) there = text.find(last_before) != std::string::npos;
      if (!there) mon::sleep_us(500);
    }
    MON_CHECK(there, round ? "after-full-disk" : "live-lost", "line " << mon::q(last_before, 60) << " said " << (round ? "once there was space again" : "first") << " is not in the file 2 s later");
    text = without_banners(text);
    MON_CHECK(text.size() >= sure.size() && text.compare(text.size() - sure.size(), sure.size(), sure) == 0, round ? "after-full-disk" : "live-lost",
              "the file ends with " << mon::q(text.size() > 300 ? text.substr(text.size() - 300) : text, 300) << " instead of the lines said " << (round ? "once there was space again" : "first"));
    MON_CHECK(text.compare(0, before.size(), before) == 0, "full-disk-damage", "the lines before the disk was full are no longer in the file: " << mon::q(text, 300));
    before = text;
    struct rlimit old, lim;
    if (getrlimit(RLIMIT_FSIZE, &old) != 0) mon::broken("getrlimit");
    lim = old;
    lim.rlim_cur = raw.size() + (r.chance(50) ? 0 : r.below(120));
    if (setrlimit(RLIMIT_FSIZE, &lim) != 0) mon::broken("setrlimit");
    const int n = int(r.range(1, 8));
    for (int i = 0; i < n; ++i) say(o, line(r, 8));
    mon::sleep_us(r.range(500, 6000));
    if (setrlimit(RLIMIT_FSIZE, &old) != 0) mon::broken("setrlimit");
    struct stat st;
    if (stat(file.c_str(), &st) == 0 && uint64_t(st.st_size) >= lim.rlim_cur) ++lost; else ++kept;
  }
  for (int i = 0; i < int(r.range(1, 6)); ++i) { std::string t = line(r, 9); after += t; say(o, t); }
  o->shutdown();
  delete o;
  std::string raw, text;
  slurp(file, raw);
  MON_CHECK(decode(raw, false, text), "full-disk-damage", "the log file is damaged after the disk was full");
  text = without_banners(text);
  MON_CHECK(text.compare(0, before.size(), before) == 0, "full-disk-damage", "the lines before the disk was full are no longer in the file: " << mon::q(text, 300));
  MON_CHECK(text.size() >= after.size() && text.compare(text.size() - after.size(), after.size(), after) == 0, "after-full-disk",
            "the file ends with " << mon::q(text.size() > 300 ? text.substr(text.size() - 300) : text, 300) << " instead of " << mon::q(after, 300) << " said once there was space again");
  MON_CHECK(text.find(after) + after.size() == text.size(), "after-full-disk", "lines said after the disk was full are in the file more than once");
  mon::stat("obs.full_disks", lost);
  mon::stat("obs.full_disks_not_reached", kept);
  unlink(file.c_str());
}

void mon::run_case(uint64_t index, Rng& r)
{
  static const char *zones[] = { "UTC", "Europe/Berlin", "America/Los_Angeles", "Pacific/Kiritimati" };
  setenv("TZ", zones[r.below(4)], 1); tzset();
  std::ostringstream dn; dn << mon::cfg().scratch << "/c" << index;
  const std::string dir = dn.str();
  if (mkdir(dir.c_str(), 0755) != 0 || chdir(dir.c_str()) != 0) mon::broken("mkdir " + dir);
  setenv("VERIF_LOGDIR", dir.c_str(), 1);
  World w;
  w.base = r.chance(50) ? "app.log" : r.str("abc.-_", 1, 8);
  if (w.base == "." || w.base == ".." || w.base[0] == '-') w.base = "l" + w.base;
  w.zip = r.chance(40);
  w.live_exists = false; w.dated = true; w.since = 0;
  w.now = (9200 + r.range(0, 7000)) * DAY + r.range(0, DAY - 1);
  clock_set(w.now);
  w.live_mtime = w.now;
  const int64_t today = w.now / DAY;
  // what is in the directory before
  for (int i = 0; i < int(r.range(0, 6)); ++i)
  {
    const int64_t d = today - r.range(0, 40);
    std::ostringstream num;
    if (r.chance(30)) num << "." << r.range(1, r.chance(50) ? 9 : 200);
    put(w, w.base + "." + date(d) + num.str() + (w.zip ? "" : ".gz"), w.zip ? "old" : "older lines", r.chance(80) ? d : today - r.range(0, 40), true, r);
  }
  const std::string b = w.base;
  const std::string near[] = { b + ".old", b + "2." + date(today - 30) + ".gz", b + "x", "x" + b + "." + date(today - 30), b + ".txt", b + "-" + date(today - 30), "notes",
                               b + ".2001", b + ".2001-01-xx.gz", b + ".2001-01-01.gz.bak", b + ".", b + "." + date(today - 30) + ".", b + "." + date(today - 30) + "..gz", b + "." + date(today - 30) + ".1.gz.gz",
                               b + "." + date(today - 30) + "gz", b + "." + date(today - 30) + ".1x.gz", b + "." + date(today - 30) + "-1.gz" };
  for (int i = 0; i < int(r.range(0, 5)); ++i) put(w, near[r.below(17)], "precious", today - r.range(0, 60), false, r);
  if (r.chance(25)) put(w, r.chance(50) ? "latest" : b + ".link", "", today - 50, false, r, 'l');
  if (r.chance(25)) put(w, r.chance(50) ? "dir" : b + "." + date(today - 35), "", today - 50, false, r, 'd');

  const int sessions = int(r.range(1, 4));
  for (int s = 0; s < sessions; ++s)
  {
    std::ostringstream pf; pf << "/VerifFile/" << index << "/" << s;
    const std::string prefix = pf.str();
    const bool rotate = r.chance(85), flush = r.chance(80), del = r.chance(60);
    const int64_t days = r.chance(80) ? r.range(0, 45) : r.range(0, 4000000000ll);
    const unsigned how = unsigned(r.below(4));
    const std::string name = how == 0 ? w.base : how == 1 ? "./" + w.base : how == 2 ? dir + "/" + w.base : "$VERIF_LOGDIR/" + w.base;
    icl_core::config::setValue(prefix + "/FileName", name);
    icl_core::config::setValue(prefix + "/Format", "~E");
    if (rotate || r.chance(50)) icl_core::config::setValue(prefix + "/Rotate", rotate ? "yes" : "no");
    if (w.zip) icl_core::config::setValue(prefix + "/Zip", "true");
    if (!flush) icl_core::config::setValue(prefix + "/Flush", "false");
    if (del) { std::ostringstream o; o << days; icl_core::config::setValue(prefix + "/DeleteOlderThan", o.str()); }
    std::ostringstream c0;
    c0 << "session " << s << (rotate ? " rotate" : "") << (w.zip ? " zip" : "") << (flush ? "" : " noflush") << (del ? " delete>" : "");
    if (del) c0 << days;
    c0 << " file " << name;
    const std::string ctx = c0.str();
    mon::phase("opening, " + ctx);
    // a session begins: the log file of an earlier day is rotated
    if (s) { w.now += r.chance(50) ? r.range(0, 40) * DAY : r.range(0, DAY); clock_set(w.now); }
    int64_t cutoff = del ? w.now / DAY - days : INT64_MIN;
    const bool had = w.live_exists;
    const bool rot0 = rotate && had && w.live_mtime / DAY != w.now / DAY;
    if (had) { w.since = w.live_mtime / DAY; w.dated = true; }
    il::LogOutputStream *o = il::FileLogOutput::create("f", prefix, il::eLL_TRACE);
    if (!had) { w.since = w.now / DAY; w.dated = true; }
    const std::string keep = w.live;
    // (the opening remark need not be in the file yet)
    w.judge(rot0 ? 1 : 0, cutoff, true, ctx + " opened on " + date(w.now / DAY), rot0 ? "" : keep, false);
    int64_t last = w.now / DAY;       // day of the last rotation
    o->start();
    const bool loose = !flush || r.chance(15);
    if (!loose)
    {
      std::string ctx2 = ctx;
      for (int i = 0; i < int(r.range(0, 12)); ++i)
      {
        bool back = false;
        if (r.chance(45))
        {
          if (r.chance(12)) { w.now -= r.range(1, 2) * DAY; back = true; }
          else w.now += r.chance(60) ? DAY : r.chance(50) ? r.range(0, DAY) : r.range(1, 50) * DAY;
          if (r.chance(25)) w.now = w.now / DAY * DAY + (r.chance(50) ? 0 : DAY - 1);
          clock_set(w.now);
        }
        if (r.chance(12)) put(w, w.base + "." + date(w.now / DAY) + (w.zip ? "" : ".gz"), "already here", w.now / DAY, true, r);
        cutoff = del ? w.now / DAY - days : INT64_MIN;
        int rot = rotate && w.now / DAY != last ? (back || last > w.now / DAY ? 2 : 1) : 0;
        const int fault = rot && r.chance(20) ? (w.zip ? 4 : 1 + int(r.below(3))) : 0;
        if (fault) { fault_fired = 0; write_budget = int64_t(r.below(3)); fault_kind = fault; }
        const std::string t = line(r, 0);
        std::ostringstream c; c << ctx << " line " << i << " on " << date(w.now / DAY) << (fault ? ", rotation fails by fault " : "");
        if (fault) c << fault;
        mon::phase(c.str());
        say(o, t);
        // the line has arrived when it is the last one of the file
        bool ok;
        const bool there = mon::wait_for([&]() { std::string g = w.live_now(true, ok); return ok && g.size() >= t.size() && g.compare(g.size() - t.size(), t.size(), t) == 0; }, 15000);
        fault_kind = 0;
        MON_CHECK(there, "line-lost", c.str() << ": the line " << mon::q(t, 60) << " is not in the log file after 15 s");
        if (fault && fault_fired.load() > 0)
        {
          // nothing may be lost: the log file goes on, or the rotation took place all the same
          mon::stat("obs.failed_rotations");
          const std::string old = w.live;
          bool ok2;
          const std::string g = w.live_now(true, ok2);
          if (g == t && !old.empty()) { w.judge(1, cutoff, true, c.str(), t); last = w.now / DAY; continue; }
          w.judge(2, cutoff, true, c.str(), old + t, true, true);
          w.dated = false;
          last = w.now / DAY;
          continue;
        }
        if (rot == 2)
        {
          bool ok2;
          const std::string g = w.live_now(true, ok2);
          rot = g == w.live + t && !w.live.empty() ? 0 : 2;
          w.judge(rot, cutoff, true, c.str(), g == w.live + t ? w.live + t : t);
          if (g == t) last = w.now / DAY;
          w.dated = false;
          mon::stat("obs.clock_back");
          continue;
        }
        w.judge(rot, cutoff, true, c.str(), rot ? t : w.live + t);
        if (rot) last = w.now / DAY;
        mon::stat("obs.lines");
      }
    }
    else
    {
      // several threads log while the days go by; judged at the end
      const int T = flush ? int(r.range(1, 3)) : int(r.range(1, 2));
      const int64_t from = w.now;
      std::vector<std::vector<std::string> > sent(static_cast<size_t>(T));
      locks::Threads th;
      for (int t = 0; t < T; ++t)
      {
        mon::Rng q(r.next());
        std::vector<std::string> lines;
        for (int i = 0; i < int(q.range(0, 40)); ++i) lines.push_back(line(q, t));
        sent[size_t(t)] = lines;
        th.add([&, lines, q]() mutable { for (size_t i = 0; i < lines.size(); ++i) { say(o, lines[i]); if (q.chance(30)) mon::sleep_us(q.range(0, 300)); } });
      }
      const int steps = int(r.range(0, 5));
      int64_t end = w.now;
      for (int i = 0; i < steps; ++i) { mon::sleep_us(r.range(0, 1500)); end += r.chance(60) ? DAY : r.range(0, 10 * DAY); clock_set(end); }
      mon::phase(ctx + " threads");
      th.join();
      o->shutdown();
      delete o;
      o = NULL;
      w.now = end;
      std::map<std::string, File> m = w.look();
      std::string all;
      int fresh = 0;
      for (std::map<std::string, File>::iterator it = m.begin(); it != m.end(); ++it)
        if (it->first != w.base && !w.others.count(it->first))
        {
          std::string text;
          MON_CHECK(decode(it->second.raw, false, text), "archive-damaged", ctx << ": the rotated file " << it->first << " is not complete");
          all += without_banners(text);
          ++fresh;
        }
      bool ok;
      const std::string g = w.live_now(false, ok);
      MON_CHECK(ok, "live-damaged", ctx << ": the log file is missing or damaged after closing");
      all += g;
      MON_CHECK(all.compare(0, w.live.size(), w.live) == 0, "loose-content", ctx << ": the lines written before are not at the start any more");
      // every line once, those of a thread in their order
      std::vector<size_t> at(sent.size(), 0);
      size_t p = w.live.size();
      while (p < all.size())
      {
        bool found = false;
        for (size_t t = 0; t < sent.size() && !found; ++t)
          if (at[t] < sent[t].size() && all.compare(p, sent[t][at[t]].size(), sent[t][at[t]]) == 0) { p += sent[t][at[t]].size(); ++at[t]; found = true; }
        MON_CHECK(found, "loose-content", ctx << ": in the files of the session there is " << mon::q(all.substr(p), 200) << " where the next line of one of the threads should be");
      }
      for (size_t t = 0; t < sent.size(); ++t) MON_CHECK(at[t] == sent[t].size(), "loose-lost", ctx << ": thread " << t << " wrote " << sent[t].size() << " lines, the files hold " << at[t]);
      const int64_t cut = del ? end / DAY - days : INT64_MIN;
      for (std::map<std::string, File>::iterator it = w.others.begin(); it != w.others.end(); )
      {
        if (m.count(it->first)) { MON_CHECK(m[it->first].raw == it->second.raw, "overwritten", ctx << ": the content of " << it->first << " changed"); ++it; continue; }
        MON_CHECK(it->second.rotated && it->second.mtime / DAY < cut, it->second.rotated ? "deleted-early" : "foreign-deleted", ctx << ": " << it->first << " is gone");
        w.others.erase(it++);
      }
      for (std::map<std::string, File>::iterator it = m.begin(); it != m.end(); ++it)
        if (it->first != w.base && !w.others.count(it->first)) { File f = it->second; f.rotated = true; f.kind = 'f'; f.mtime = end; touch(it->first, end); w.others[it->first] = f; }
      MON_CHECK(rotate || fresh == 0, "unexpected-file", ctx << ": a file was rotated although rotation is off");
      w.live = g; w.live_exists = true; w.live_mtime = end; touch(w.base, end);
      mon::stat("obs.loose_lines", all.size() ? 1 : 0);
      mon::stat("obs.loose_rotations", uint64_t(fresh));
      mon::state(mon::Hash().add(99).add(uint64_t(fresh)).add(uint64_t(T)).add(w.zip).add(flush).add(del));
      (void)from;
    }
    if (o)
    {
      mon::phase("closing, " + ctx);
      // lines that are waiting are written before the output is gone
      std::string rest;
      if (last == w.now / DAY) for (int i = 0; i < int(r.range(0, 5)); ++i) { const std::string t = line(r, 0); rest += t; say(o, t); }
      o->shutdown();
      delete o;
      const bool dated = w.dated;
      w.judge(0, INT64_MIN, false, ctx + " closed", w.live + rest);
      w.dated = dated;
    }
    mon::stat("obs.sessions");
    if (mon::want_sample()) { std::ostringstream x; x << ctx << ": " << w.others.size() << " other files, " << w.live.size() << " bytes in the log file"; mon::sample(x.str()); }
  }
  if (r.chance(25)) late_directory(r, dir, index);
  if (r.chance(25)) disk_full(r, dir, index);
  clock_set(-1);
  if (chdir(mon::cfg().scratch.c_str()) != 0) mon::broken("chdir");
  DIR *d = opendir(dir.c_str());
  while (struct dirent *e = readdir(d))
  {
    const std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    if (unlink((dir + "/" + n).c_str()) != 0) rmdir((dir + "/" + n).c_str());
  }
  closedir(d);
  rmdir(dir.c_str());
}
void mon::setup()
{
  signal(SIGXFSZ, SIG_IGN);
  icl_core::config::setValue("/IclCore/Logging/OutputStream1/OutputStreamName", "None");
  il::LoggingManager::instance().initialize();
}
void mon::teardown() { il::LoggingManager::instance().shutdown(); }
