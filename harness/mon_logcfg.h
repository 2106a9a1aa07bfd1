// Outputs which the logging manager creates and destroys itself, for the monitors of initialisation,
// configuration and shutdown: what they receive is kept by name.
#ifndef VERIF_LOGCFG_H
#define VERIF_LOGCFG_H
#include "mon_log.h"
#include <dirent.h>
#include <iostream>
#include "icl_core_config/Config.h"

namespace logmon {

struct Line { int level; std::string stream, text; };

struct Store
{
  std::mutex mtx;
  std::map<std::string, std::vector<Line> > lines;      // per name of output
  std::map<std::string, int> live, made, starts, stops;
  std::map<std::string, int> cfg_level;
  std::map<std::string, il::LogOutputStream *> ptr;
  int64_t delay_every, delay_us;
  Store() : delay_every(0), delay_us(0) { }
};
inline Store& store() { static Store *s = new Store(); return *s; }

class Keep : public il::LogOutputStream
{
public:
  Keep(const std::string& name, const std::string& prefix, il::LogLevel level, bool worker)
    : il::LogOutputStream(name, prefix, level, worker), m_n(name), m_count(0)
  { std::lock_guard<std::mutex> l(store().mtx); ++store().live[m_n]; ++store().made[m_n]; store().cfg_level[m_n] = int(level); store().ptr[m_n] = this; }
  virtual ~Keep() { std::lock_guard<std::mutex> l(store().mtx); --store().live[m_n]; if (store().ptr[m_n] == this) store().ptr.erase(m_n); }
  static il::LogOutputStream *work(const icl_core::String& n, const icl_core::String& p, il::LogLevel l) { return new Keep(n, p, l, true); }
  static il::LogOutputStream *sync(const icl_core::String& n, const icl_core::String& p, il::LogLevel l) { return new Keep(n, p, l, false); }
private:
  virtual void onStart() { std::lock_guard<std::mutex> l(store().mtx); ++store().starts[m_n]; }
  virtual void onShutdown() { std::lock_guard<std::mutex> l(store().mtx); ++store().stops[m_n]; }
  virtual void pushImpl(const LogMessage& m)
  {
    Line x;
    x.level = int(m.log_level); x.stream = field(m.log_stream, "stream"); x.text = field(m.message_text, "text");
    ++m_count;
    if (store().delay_every && m_count % store().delay_every == 0) mon::sleep_us(store().delay_us);
    std::lock_guard<std::mutex> l(store().mtx);
    store().lines[m_n].push_back(x);
  }
  std::string m_n;
  int64_t m_count;
};

inline void register_outputs()
{
  il::LoggingManager::instance().registerLogOutputStream("WorkSink", &Keep::work);
  il::LoggingManager::instance().registerLogOutputStream("SyncSink", &Keep::sync);
}

inline int os_threads()
{
  int n = 0;
  DIR *d = opendir("/proc/self/task");
  if (!d) mon::broken("/proc/self/task");
  while (struct dirent *e = readdir(d)) n += e->d_name[0] != '.';
  closedir(d);
  return n;
}

// Everything written to std::cout from now on (single delivering thread at a time)
struct CoutCapture
{
  std::stringbuf *buf; std::streambuf *old;
  CoutCapture() : buf(new std::stringbuf()), old(std::cout.rdbuf(buf)) { }
  std::string take() { std::string s = buf->str(); buf->str(""); return s; }
};

inline std::vector<std::string> split_lines(const std::string& s)
{
  std::vector<std::string> v;
  size_t a = 0;
  while (a < s.size())
  {
    size_t e = s.find('\n', a);
    if (e == std::string::npos) e = s.size();
    v.push_back(s.substr(a, e - a));
    a = e + 1;
  }
  return v;
}
inline bool slurp(const std::string& path, std::string& out)
{
  out.clear();
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) return false;
  char b[16384];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
  fclose(f);
  return true;
}

} // namespace logmon
#endif
