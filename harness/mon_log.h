// A log output that records what it is given, for the monitors of the logging component.
#ifndef VERIF_LOG_H
#define VERIF_LOG_H
#include "mon_locks.h"
#include "icl_core_logging/Logging.h"
#include "icl_core_logging/LoggingManager.h"
#include "icl_core_logging/LogOutputStream.h"
#include "icl_core_logging/LogStream.h"

namespace il = icl_core::logging;

namespace logmon {

struct Got
{
  int64_t sec; int32_t nsec;
  int level;
  std::string stream, file, cls, obj, fun, text;
  size_t line;
  long tid;
};

// A field of fixed size that must be a terminated string.
template <size_t N> std::string field(const char (&f)[N], const char *what)
{
  const size_t n = strnlen(f, N);
  if (n == N) mon::note_viol(std::string("unterminated:") + what, std::string("the field ") + what + " handed to the output is not terminated");
  return std::string(f, n);
}

struct Sink : public il::LogOutputStream
{
  std::vector<Got> got;               // by the delivering thread; read behind shutdown()
  std::atomic<long> inside, starts, stops, count;
  int64_t delay_every, delay_us;
  bool worker;
  Sink(const std::string& name, bool use_worker, il::LogLevel level = il::eLL_TRACE, const std::string& prefix = "/VerifNone")
    : il::LogOutputStream(name, prefix, level, use_worker), inside(0), starts(0), stops(0), count(0), delay_every(0), delay_us(0), worker(use_worker) { }
  virtual ~Sink() { }
private:
  virtual void onStart() { starts.fetch_add(1, std::memory_order_relaxed); }
  virtual void onShutdown() { stops.fetch_add(1, std::memory_order_relaxed); }
  virtual void pushImpl(const LogMessage& m)
  {
    MON_NOTE(inside.fetch_add(1, std::memory_order_relaxed) == 0, "concurrent", "two messages are handed to one output at the same time");
    Got x;
    x.sec = m.timestamp.tsSec(); x.nsec = m.timestamp.tsNSec();
    x.level = int(m.log_level);
    x.stream = field(m.log_stream, "stream"); x.file = field(m.filename, "file"); x.line = m.line;
    x.cls = field(m.class_name, "class"); x.obj = field(m.object_name, "object"); x.fun = field(m.function_name, "function");
    x.text = field(m.message_text, "text");
    x.tid = long(pthread_self());
    got.push_back(x);
    if (delay_every && int64_t(got.size()) % delay_every == 0) mon::sleep_us(delay_us);
    count.fetch_add(1, std::memory_order_relaxed);
    inside.fetch_sub(1, std::memory_order_relaxed);
  }
};

} // namespace logmon
#endif
