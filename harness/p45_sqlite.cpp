// P45: every message is one row with exactly its fields, in order, over rotation and other users of the database.
#include "mon_log.h"
#include "mon_clock.h"
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <fstream>
#include <sqlite3.h>
#include "icl_core_config/Config.h"
#include "icl_core_logging/SQLiteLogOutput.h"
#include "icl_core_logging/SQLiteLogDb.h"

struct Msg { int level; std::string stream, file, cls, obj, fun, text; int line; int64_t ns; };
typedef std::vector<std::string> Row;
static const char *level_name[] = { "Trace", "Debug", "Info", "Warning", "Error", "Mute" };
static const int64_t DAY = 86400ll * 1000000000ll;

static std::string nasty(mon::Rng& r, size_t max)
{
  static const char *bits[] = { "'", "''", "\\'", "','", "\\", "'); DROP TABLE log_entries; --", "\"", "%s%n", ",", "\n", "\t", "--", "/*", "\xc3\xa4", "\xff", "?1", ":message", "NULL", "(", ")", ";", "a", "x y", "0" };
  std::string s;
  const int n = int(r.range(0, r.chance(10) ? 400 : 8));
  for (int i = 0; i < n; ++i) s += bits[r.below(24)];
  if (s.size() > max) s.resize(max);
  return s;
}
static Msg message(mon::Rng& r, const std::string& id, int64_t ns)
{
  Msg m;
  m.level = int(r.below(5));
  m.stream = nasty(r, 200); m.file = nasty(r, 900); m.cls = nasty(r, 200); m.obj = nasty(r, 900); m.fun = nasty(r, 200);
  m.text = id + nasty(r, 1900);
  m.line = int(r.chance(80) ? r.range(0, 20000) : r.range(0, 0x7fffffff));
  m.ns = ns;
  return m;
}
static std::string stamp(int64_t ns)
{
  time_t t = time_t(ns / 1000000000); struct tm tm; localtime_r(&t, &tm);
  char b[40]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm);
  return b;
}
static Row row(const Msg& m)
{
  std::ostringstream ln; ln << m.line;
  Row r; r.push_back(stamp(m.ns)); r.push_back(m.stream); r.push_back(level_name[m.level]); r.push_back(m.file); r.push_back(ln.str());
  r.push_back(m.cls); r.push_back(m.obj); r.push_back(m.fun); r.push_back(m.text);
  return r;
}
static void send(il::LogOutputStream *o, const Msg& m)
{
  o->push(il::LogLevel(m.level), m.stream.c_str(), m.file.c_str(), m.line, m.cls.c_str(), m.obj.c_str(), m.fun.c_str(), m.text.c_str());
}
// All rows of one database file; false if it is not readable as one.
static bool rows(const std::string& path, std::vector<Row>& out, std::string& why)
{
  sqlite3 *db = NULL;
  sqlite3_stmt *st = NULL;
  bool ok = sqlite3_open_v2(path.c_str(), &db, SQLITE_OPEN_READWRITE, NULL) == SQLITE_OK;
  if (ok) sqlite3_busy_timeout(db, 10000);
  ok = ok && sqlite3_prepare_v2(db, "SELECT timestamp, log_stream, log_level, filename, line, class_name, object_name, function_name, message FROM log_entries ORDER BY seq", -1, &st, NULL) == SQLITE_OK;
  int rc = SQLITE_DONE;
  while (ok && (rc = sqlite3_step(st)) == SQLITE_ROW)
  {
    Row r;
    for (int i = 0; i < 9; ++i)
    {
      const char *p = (const char *)sqlite3_column_text(st, i);
      r.push_back(p ? std::string(p, size_t(sqlite3_column_bytes(st, i))) : std::string("<NULL>"));
    }
    out.push_back(r);
  }
  ok = ok && rc == SQLITE_DONE;
  if (!ok) why = db ? sqlite3_errmsg(db) : "no database";
  sqlite3_finalize(st);
  sqlite3_close(db);
  return ok;
}
static std::string text(const Row& r) { std::string s; for (size_t i = 0; i < r.size(); ++i) s += (i ? " | " : "") + mon::q(r[i], 60); return s; }
static void same(const Row& got, const Row& want, const std::string& ctx)
{
  static const char *name[] = { "timestamp", "stream", "level", "file", "line", "class", "object", "function", "text" };
  for (size_t i = 0; i < 9; ++i)
    if (got[i] != want[i])
    {
      const bool all = got[8] != want[8];
      mon::viol(all ? "order" : std::string("column:") + name[i], ctx + ": the row " + text(got) + " stands where " + text(want) + " was logged");
    }
}

static size_t descriptors()
{
  size_t n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) mon::broken("no /proc");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

static std::string content(const std::string& path)
{
  std::ifstream f(path.c_str(), std::ios::binary);
  std::ostringstream o; o << f.rdbuf();
  return o.str();
}
// The database behind the output: lines of several applications, opened and closed in between.
static void applications(mon::Rng& r, uint64_t index)
{
  std::ostringstream fn; fn << mon::cfg().scratch << "/apps" << index << ".db";
  const std::string file = fn.str();
  std::vector<Row> want;
  size_t lost = 0;
  clock_set((9200 + r.range(0, 7000)) * DAY + r.range(0, DAY / 2));
  mon::phase("lines of several applications");
  {
    il::SQLiteLogDb db(file, r.chance(30));
    const int rounds = int(r.range(1, 4));
    for (int k = 0; k < rounds; ++k)
    {
      const bool open = k == 0 || r.chance(80);
      if (open) db.openDatabase();
      for (int i = 0; i < int(r.range(1, 8)); ++i)
      {
        Msg m = message(r, "", 0);
        Row w = row(m);
        w[0] = stamp((9200 + r.range(0, 7000)) * DAY + r.range(0, DAY - 1));
        w[2] = r.chance(80) ? w[2] : nasty(r, 30);
        w.push_back(nasty(r, 200));
        db.writeLogLine(w[9].c_str(), w[0].c_str(), w[1].c_str(), w[2].c_str(), w[3].c_str(), size_t(m.line), w[5].c_str(), w[6].c_str(), w[7].c_str(), w[8].c_str());
        if (open) want.push_back(w); else ++lost;
      }
      if (k + 1 < rounds || r.chance(50)) db.closeDatabase();
    }
  }
  sqlite3 *db = NULL;
  sqlite3_stmt *st = NULL;
  MON_CHECK(sqlite3_open_v2(file.c_str(), &db, SQLITE_OPEN_READWRITE, NULL) == SQLITE_OK
            && sqlite3_prepare_v2(db, "SELECT timestamp, log_stream, log_level, filename, line, class_name, object_name, function_name, message, app_id FROM log_entries ORDER BY seq", -1, &st, NULL) == SQLITE_OK,
            "unreadable", "the database cannot be read: " << (db ? sqlite3_errmsg(db) : ""));
  size_t n = 0;
  while (sqlite3_step(st) == SQLITE_ROW)
  {
    Row g;
    for (int i = 0; i < 10; ++i)
    {
      const char *p = (const char *)sqlite3_column_text(st, i);
      g.push_back(p ? std::string(p, size_t(sqlite3_column_bytes(st, i))) : std::string("<NULL>"));
    }
    MON_CHECK(n < want.size(), "row-count", "the database of several applications holds more rows than were written while it was open");
    same(g, want[n], "several applications");
    MON_CHECK(g[9] == want[n][9], "column:application", "the row of application " << mon::q(want[n][9]) << " names " << mon::q(g[9]));
    ++n;
  }
  sqlite3_finalize(st); sqlite3_close(db);
  MON_CHECK(n == want.size(), "row-count", n << " rows of several applications after " << want.size() << " lines");
  mon::stat("obs.application_rows", n);
  clock_set(-1);
  unlink(file.c_str());
}
// A database that cannot be used costs its messages and nothing else, and what is in its place is left as it is.
static void unusable(mon::Rng& r, uint64_t index)
{
  std::ostringstream dn; dn << mon::cfg().scratch << "/u" << index;
  const std::string dir = dn.str(), prefix = "/VerifUnusable" + dn.str();
  if (mkdir(dir.c_str(), 0755) != 0 || chdir(dir.c_str()) != 0) mon::broken("mkdir " + dir);
  std::ostringstream err;
  int64_t now = (9200 + r.range(0, 7000)) * DAY + r.range(0, DAY / 2);
  clock_set(now);
  const int kind = int(r.below(5));
  static const char *kinds[] = { "no file name", "a directory", "a missing directory", "another kind of file", "a table with other columns" };
  const bool rotate = r.chance(60);
  const std::string name = kind == 2 ? "sub/log.db" : "log.db", junk = r.str("garbage \n", 200, 2000) + r.str("abc", 1, 900);
  if (kind == 1 && mkdir("log.db", 0755) != 0) mon::broken("mkdir");
  if (kind == 3) std::ofstream("log.db") << junk;
  if (kind == 4)
  {
    sqlite3 *db = NULL;
    if (sqlite3_open("log.db", &db) != SQLITE_OK || sqlite3_exec(db, "CREATE TABLE log_entries (a TEXT, b TEXT); INSERT INTO log_entries VALUES ('x', 'y')", NULL, NULL, NULL) != SQLITE_OK) mon::broken("sqlite");
    sqlite3_close(db);
  }
  const std::string before = kind > 2 ? content("log.db") : "";
  if (kind) icl_core::config::setValue(prefix + "/FileName", name);
  icl_core::config::setValue(prefix + "/Rotate", rotate ? "true" : "false");
  const std::string ctx = std::string("a database that is ") + kinds[kind] + (rotate ? ", rotated" : "");
  mon::phase(ctx);
  const size_t fds = descriptors();
  std::vector<Row> want;
  {
    struct Quiet { std::streambuf *b; ~Quiet() { std::cerr.rdbuf(b); } } quiet = { std::cerr.rdbuf(err.rdbuf()) };
    il::LogOutputStream *o = il::SQLiteLogOutput::create("db", prefix, il::eLL_TRACE);
    const bool twice = r.chance(30);
    o->start();
    for (int i = int(r.range(1, 6)); i > 0; --i) send(o, message(r, "lost ", now));
    o->shutdown();
    MON_CHECK(descriptors() == fds, "descriptor-left", ctx << ": " << fds << " descriptors before, " << descriptors() << " after the end of the output");
    if (kind > 2) MON_CHECK(content("log.db") == before, "foreign-file", ctx << " was changed");
    if (kind == 0) MON_CHECK(access("log.db", F_OK) != 0, "foreign-file", ctx << " was created");
    if (twice)
    {
      // the same object, when the obstacle is gone
      if (kind == 1) rmdir("log.db");
      if (kind == 2 && mkdir("sub", 0755) != 0) mon::broken("mkdir");
      if (kind > 2) unlink("log.db");
      o->start();
      for (int i = int(r.range(1, 6)); i > 0; --i) { const Msg m = message(r, "written ", now); send(o, m); if (kind) want.push_back(row(m)); }
      o->shutdown();
    }
    delete o;
    if (!twice && rotate && kind)
    {
      // the next day starts another file
      il::LogOutputStream *n = il::SQLiteLogOutput::create("db", prefix, il::eLL_TRACE);
      n->start();
      if (kind == 2 && mkdir("sub", 0755) != 0) mon::broken("mkdir");
      now += DAY; clock_set(now);
      for (int i = int(r.range(1, 6)); i > 0; --i) { const Msg m = message(r, "written ", now); send(n, m); want.push_back(row(m)); }
      n->shutdown();
      delete n;
      // the obstacle was rotated away like any earlier file
      std::string moved;
      DIR *d = opendir(".");
      while (struct dirent *e = readdir(d)) if (e->d_name[0] == 'l' && std::string(e->d_name) != "log.db" && kind != 2) { moved = e->d_name; }
      closedir(d);
      if (kind > 2) MON_CHECK(!moved.empty() && content(moved) == before, "foreign-file", ctx << " is lost after the rotation");
      if (!moved.empty()) remove(moved.c_str());
      mon::stat("obs.rotated_obstacle");
    }
  }
  MON_CHECK(descriptors() == fds, "descriptor-left", ctx << ": " << fds << " descriptors before, " << descriptors() << " after the end of the output");
  if (!want.empty())
  {
    std::vector<Row> is;
    std::string why;
    MON_CHECK(rows(name, is, why), "unreadable", ctx << ": the database that replaced it cannot be read: " << why);
    MON_CHECK(is.size() == want.size(), "row-count", ctx << ": " << is.size() << " rows after " << want.size() << " messages to the database that replaced it");
    for (size_t i = 0; i < is.size(); ++i) same(is[i], want[i], ctx);
    mon::stat("obs.repaired");
  }
  mon::stat("obs.unusable");
  mon::state(mon::Hash().add(99).add(uint64_t(kind)).add(rotate).add(want.size()));
  clock_set(-1);
  if (chdir(mon::cfg().scratch.c_str()) != 0) mon::broken("chdir");
  const char *left[] = { "/log.db", "/sub/log.db", "/sub" };
  for (int i = 0; i < 3; ++i) remove((dir + left[i]).c_str());
  rmdir(dir.c_str());
}
// While the disk is full (a size limit stands in for it) messages may be missing as a whole; all others have their rows.
static void disk_full(mon::Rng& r, uint64_t index)
{
  std::ostringstream dn; dn << mon::cfg().scratch << "/f" << index;
  const std::string dir = dn.str(), prefix = "/VerifFull" + dn.str();
  if (mkdir(dir.c_str(), 0755) != 0 || chdir(dir.c_str()) != 0) mon::broken("mkdir " + dir);
  const int64_t now = (9200 + r.range(0, 7000)) * DAY + r.range(0, DAY - 1);
  clock_set(now);
  icl_core::config::setValue(prefix + "/FileName", "log.db");
  std::ostringstream err;
  struct Quiet { std::streambuf *b; ~Quiet() { std::cerr.rdbuf(b); } } quiet = { std::cerr.rdbuf(err.rdbuf()) };
  il::LogOutputStream *o = il::SQLiteLogOutput::create("db", prefix, il::eLL_TRACE);
  mon::phase("full disk");
  o->start();
  struct Sent { Row row; bool sure; };
  std::vector<Sent> sent;
  const std::string ctx = "a disk that was full for a while";
  long id = 0, tight = 0;
  for (int round = 0; round < int(r.range(1, 3)); ++round)
  {
    for (int i = int(r.range(1, 5)); i > 0; --i) { const Msg m = message(r, "kept " + std::to_string(id++) + " ", now); const Sent s = { row(m), true }; send(o, m); sent.push_back(s); }
    const std::string last = sent.back().row[8];
    std::vector<Row> is; std::string why;
    const bool there = mon::wait_for([&]() { is.clear(); return rows("log.db", is, why) && !is.empty() && is.back()[8] == last; }, 15000);
    MON_CHECK(there, "full-disk:lost", ctx << ": the row of " << mon::q(last, 60) << " is not in the database 15 s later (" << why << ")");
    struct stat st;
    struct rlimit old, lim;
    if (stat("log.db", &st) != 0 || getrlimit(RLIMIT_FSIZE, &old) != 0) mon::broken("stat");
    lim = old; lim.rlim_cur = uint64_t(st.st_size) + (r.chance(60) ? 0 : r.below(9000));
    if (setrlimit(RLIMIT_FSIZE, &lim) != 0) mon::broken("setrlimit");
    for (int i = int(r.range(1, 8)); i > 0; --i) { Msg m = message(r, "perhaps " + std::to_string(id++) + " " + std::string(r.chance(70) ? r.below(1500) : 0, 'x'), now); if (m.text.size() > 1900) m.text.resize(1900); const Sent s = { row(m), false }; send(o, m); sent.push_back(s); }
    mon::sleep_us(r.range(1000, 15000));
    if (setrlimit(RLIMIT_FSIZE, &old) != 0) mon::broken("setrlimit");
    ++tight;
  }
  for (int i = int(r.range(1, 5)); i > 0; --i) { const Msg m = message(r, "kept " + std::to_string(id++) + " ", now); const Sent s = { row(m), true }; send(o, m); sent.push_back(s); }
  o->shutdown();
  delete o;
  std::vector<Row> is; std::string why;
  MON_CHECK(rows("log.db", is, why), "unreadable", ctx << ": the database cannot be read: " << why);
  size_t at = 0, missing = 0;
  for (size_t i = 0; i < sent.size(); ++i)
  {
    if (at < is.size() && is[at][8] == sent[i].row[8]) { same(is[at], sent[i].row, ctx); ++at; continue; }
    if (!sent[i].sure) { ++missing; continue; }
    MON_CHECK(false, "full-disk:lost", ctx << ": there is no row for " << mon::q(sent[i].row[8], 60) << " which was logged " << (missing ? "once there was space again" : "before") << "; " << mon::q(err.str(), 600));
  }
  MON_CHECK(at == is.size(), "full-disk:rows", ctx << ": row " << at << " of " << is.size() << " is of no message: " << (at < is.size() ? text(is[at]) : ""));
  mon::stat("obs.full_disks", tight);
  mon::stat("obs.full_disk_missing", missing);
  mon::state(mon::Hash().add(98).add(missing).add(is.size()));
  clock_set(-1);
  if (chdir(mon::cfg().scratch.c_str()) != 0) mon::broken("chdir");
  const char *left[] = { "/log.db", "/log.db-journal" };
  for (int i = 0; i < 2; ++i) remove((dir + left[i]).c_str());
  rmdir(dir.c_str());
}
void mon::run_case(uint64_t index, Rng& r)
{
  if (index % 8 == 5) unusable(r, index);
  if (index % 8 == 1) applications(r, index);
  if (index % 8 == 3) disk_full(r, index);
  static const char *zones[] = { "UTC", "Europe/Berlin", "America/St_Johns", "Asia/Kathmandu" };
  setenv("TZ", zones[r.below(4)], 1); tzset();
  std::ostringstream dn; dn << mon::cfg().scratch << "/c" << index;
  const std::string dir = dn.str(), base = r.chance(50) ? "log.db" : r.str("abc_", 1, 6);
  if (mkdir(dir.c_str(), 0755) != 0 || chdir(dir.c_str()) != 0) mon::broken("mkdir " + dir);
  int64_t now = (9200 + r.range(0, 7000)) * DAY + r.range(0, DAY - 1);
  clock_set(now);
  // the file may be another one's database, which the log joins
  const bool shared = r.chance(15);
  if (shared)
  {
    sqlite3 *db = NULL;
    if (sqlite3_open(base.c_str(), &db) != SQLITE_OK || sqlite3_exec(db, r.chance(50) ? "CREATE TABLE other (x TEXT); INSERT INTO other VALUES ('theirs')" : "CREATE TABLE other (x TEXT); CREATE TABLE log_entries_2 (y INTEGER); INSERT INTO other VALUES ('theirs')", NULL, NULL, NULL) != SQLITE_OK)
      mon::broken("sqlite");
    sqlite3_close(db);
    mon::stat("obs.shared_databases");
  }
  std::map<std::string, std::vector<Row> > closed;     // rotated databases
  std::vector<Row> live;
  bool have = false;
  const int sessions = int(r.range(1, 3));
  const size_t fds = descriptors();
  for (int s = 0; s < sessions; ++s)
  {
    std::ostringstream pf; pf << "/VerifSqlite/" << index << "/" << s;
    const std::string prefix = pf.str();
    const bool rotate = r.chance(60);
    icl_core::config::setValue(prefix + "/FileName", r.chance(50) ? base : dir + "/" + base);
    if (rotate || r.chance(50)) icl_core::config::setValue(prefix + "/Rotate", rotate ? "true" : "false");
    if (s) { now += r.chance(60) ? r.range(0, DAY) : r.range(0, 10 * DAY); clock_set(now); }
    std::ostringstream c0; c0 << "session " << s << (rotate ? " rotate" : "");
    const std::string ctx = c0.str();
    mon::phase(ctx);
    il::LogOutputStream *o = il::SQLiteLogOutput::create("db", prefix, il::eLL_TRACE);
    int64_t day = now / DAY;
    o->start();
    if (r.chance(80) || rotate) mon::wait_for([&]() { std::vector<Row> is; std::string why; return rows(base, is, why); }, 15000);
    // somebody else reads (or writes) the database for short times meanwhile
    std::atomic<bool> stop(false);
    locks::Threads other;
    struct Stop { std::atomic<bool>& b; ~Stop() { b = true; } } stopping = { stop };
    if (have && r.chance(40))
    {
      mon::Rng q(r.next());
      const bool writer = r.chance(30);
      other.add([&, q, writer]() mutable {
        sqlite3 *db = NULL;
        if (sqlite3_open_v2(base.c_str(), &db, SQLITE_OPEN_READWRITE, NULL) == SQLITE_OK)
        {
          while (!stop.load())
          {
            if (sqlite3_exec(db, writer ? "BEGIN IMMEDIATE" : "BEGIN; SELECT count(*) FROM log_entries", NULL, NULL, NULL) == SQLITE_OK) mon::stat("obs.other_users");
            mon::sleep_us(q.range(0, writer ? 4000 : 6000));
            sqlite3_exec(db, "ROLLBACK", NULL, NULL, NULL);
            mon::sleep_us(q.range(0, 10000));
          }
        }
        sqlite3_close(db);
      });
    }
    const bool disturbed = !other.t.empty();
    const int T = int(r.range(1, r.chance(40) ? 3 : 1));
    if (T == 1)
    {
      for (int i = 0; i < int(r.range(0, 25)); ++i)
      {
        if (rotate && !disturbed && r.chance(25))
        {
          // the day changes between two messages
          if (r.chance(10)) { now -= DAY; } else now += r.chance(70) ? DAY : r.range(0, 5 * DAY);
          clock_set(now);
        }
        now += r.range(0, 1000000000); if (now / DAY == day || !rotate || !disturbed) clock_set(now); else { now -= 1000000000; }
        const Msg m = message(r, "", now);
        const Row w = row(m);
        const bool turn = rotate && now / DAY != day;
        mon::phase(ctx + " message");
        clock_set(now);
        struct stat before, after;
        const bool was = stat(base.c_str(), &before) == 0;
        send(o, m);
        // (a database must not be read while it is renamed)
        if (turn && was) mon::wait_for([&]() { return stat(base.c_str(), &after) == 0 && after.st_ino != before.st_ino && after.st_size > 0; }, 5000);
        // seen by others as soon as it has been processed
        std::vector<Row> is;
        std::string why;
        size_t want = (turn ? 0 : live.size()) + 1;
        const bool there = mon::wait_for([&]() { is.clear(); return rows(base, is, why) && !is.empty() && is.size() <= live.size() + 1 && is.back() == w && (is.size() == want || turn); }, 15000);
        MON_CHECK(there || !is.empty(), "row-missing", ctx << ": there is no row for the message after 15 s (" << why << ")");
        if (turn)
        {
          if (is.size() == 1)
          {
            // which file is new?
            std::string fresh;
            DIR *d = opendir(".");
            while (struct dirent *e = readdir(d))
            {
              const std::string n = e->d_name;
              if (n[0] == '.' || n == base || closed.count(n) || n.find("-journal") != std::string::npos) continue;
              MON_CHECK(fresh.empty(), "rotation", ctx << ": two new files, " << fresh << " and " << n);
              fresh = n;
            }
            closedir(d);
            MON_CHECK(!fresh.empty(), "rotation-lost", ctx << ": the database was rotated, but there is no file with its " << live.size() << " rows");
            MON_CHECK(fresh.compare(0, base.size(), base) == 0, "rotation-name", ctx << ": the rotated database is called " << fresh);
            time_t t = time_t(now / 1000000000); struct tm tm; gmtime_r(&t, &tm);
            char day_name[40]; strftime(day_name, sizeof day_name, ".%Y-%m-%d", &tm);
            const std::string suffix = fresh.substr(base.size());
            MON_CHECK(suffix.compare(0, 11, day_name) == 0 && (suffix.size() == 11 || (suffix[11] == '.' && suffix.size() > 12 && suffix.find_first_not_of("0123456789", 12) == std::string::npos)),
                      "rotation-name", ctx << ": the database rotated on " << day_name + 1 << " (UTC) is called " << fresh);
            closed[fresh] = live;
            live.clear();
            mon::stat("obs.rotations");
          }
          day = now / DAY;
        }
        live.push_back(w);
        MON_CHECK(is.size() == live.size(), "row-count", ctx << ": " << is.size() << " rows after " << live.size() << " messages");
        same(is.back(), w, ctx);
        have = true;
        mon::state(mon::Hash().add(w[8].find('\'') != std::string::npos).add(w[7].empty()).add(w[1].empty()).add(turn).add(disturbed).add(std::min<size_t>(live.size(), 5)).add(closed.size()));
        mon::stat("obs.rows");
      }
      stop = true; other.join();
      o->shutdown();
      delete o;
    }
    else
    {
      std::vector<std::vector<Row> > sent(static_cast<size_t>(T));
      std::vector<std::vector<Msg> > msgs(static_cast<size_t>(T));
      locks::Threads th;
      for (int t = 0; t < T; ++t)
      {
        for (int i = 0; i < int(r.range(1, 12)); ++i) { std::ostringstream id; id << t << "." << i << " "; msgs[size_t(t)].push_back(message(r, id.str(), now)); sent[size_t(t)].push_back(row(msgs[size_t(t)].back())); }
        const std::vector<Msg>& v = msgs[size_t(t)];
        th.add([&v, o]() { for (size_t i = 0; i < v.size(); ++i) send(o, v[i]); });
      }
      th.join();
      const bool early = r.chance(50);
      if (early) { stop = true; other.join(); }
      o->shutdown();
      stop = true; other.join();
      delete o;
      std::vector<Row> is;
      std::string why;
      MON_CHECK(rows(base, is, why), "unreadable", ctx << ": the database cannot be read: " << why);
      size_t total = live.size();
      for (size_t t = 0; t < sent.size(); ++t) total += sent[t].size();
      std::vector<size_t> at(sent.size(), 0);
      for (size_t i = live.size(); i < is.size(); ++i)
      {
        const size_t t = size_t(atoi(is[i][8].c_str()));
        MON_CHECK(t < sent.size() && at[t] < sent[t].size(), "unknown-row", ctx << ": a row that was never logged: " << text(is[i]));
        same(is[i], sent[t][at[t]++], ctx);
        live.push_back(is[i]);
      }
      MON_CHECK(is.size() == total, "row-count", ctx << ": " << is.size() << " rows after " << total << " messages" << (disturbed ? " (with another user of the database)" : ""));
      have = true;
      mon::stat("obs.concurrent_rows", total);
      mon::state(mon::Hash().add(77).add(uint64_t(T)).add(disturbed).add(early).add(total));
    }
    MON_CHECK(descriptors() <= fds, "descriptor-left", ctx << ": " << fds << " descriptors before, " << descriptors() << " after the end of the output");
    // everything that was ever logged
    if (have)
    {
      closed[base] = live;
      for (std::map<std::string, std::vector<Row> >::iterator it = closed.begin(); it != closed.end(); ++it)
      {
        std::vector<Row> is;
        std::string why;
        MON_CHECK(rows(it->first, is, why), "unreadable", ctx << ": the database " << it->first << " cannot be read: " << why);
        MON_CHECK(is.size() == it->second.size(), "history-lost", ctx << ": the database " << it->first << " holds " << is.size() << " rows, " << it->second.size() << " were in it");
        for (size_t i = 0; i < is.size(); ++i) same(is[i], it->second[i], ctx + ", " + it->first);
      }
      closed.erase(base);
    }
    mon::stat("obs.sessions");
  }
  if (shared)
  {
    size_t found = 0;
    closed[base];
    for (std::map<std::string, std::vector<Row> >::iterator it = closed.begin(); it != closed.end(); ++it)
    {
      if (access(it->first.c_str(), F_OK) != 0) continue;
      sqlite3 *db = NULL; sqlite3_stmt *st = NULL;
      if (sqlite3_open_v2(it->first.c_str(), &db, SQLITE_OPEN_READWRITE, NULL) == SQLITE_OK && sqlite3_prepare_v2(db, "SELECT x FROM other", -1, &st, NULL) == SQLITE_OK)
        while (sqlite3_step(st) == SQLITE_ROW) found += std::string((const char *)sqlite3_column_text(st, 0)) == "theirs";
      sqlite3_finalize(st); sqlite3_close(db);
    }
    MON_CHECK(found == 1, "foreign-table", "another table of the database is there " << found << " times after the log was written");
  }
  if (mon::want_sample() && !live.empty()) mon::sample(text(live.back()));
  clock_set(-1);
  if (chdir(mon::cfg().scratch.c_str()) != 0) mon::broken("chdir");
  DIR *d = opendir(dir.c_str());
  while (struct dirent *e = readdir(d))
  {
    const std::string n = e->d_name;
    if (n != "." && n != "..") unlink((dir + "/" + n).c_str());
  }
  closedir(d);
  rmdir(dir.c_str());
}
void mon::setup()
{
  signal(SIGXFSZ, SIG_IGN);
  icl_core::config::setValue("/IclCore/Logging/OutputStream1/OutputStreamName", "None");
  il::LoggingManager::instance().initialize();
}
void mon::teardown() { il::LoggingManager::instance().shutdown(); }
