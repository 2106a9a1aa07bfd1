// P40: every enabled message reaches every connected output once, whole, in order per thread.
#include "mon_log.h"
using namespace logmon;
using locks::tick;

struct Rec { int thread, stream, level; uint64_t call, ret; std::string text, obj; int seq; };
struct Window { uint64_t add_call, add_ret, rem_call, rem_ret; };
struct Out
{
  Sink *s;
  std::vector<std::vector<Window> > w;      // per stream: when it was connected
};

// What one thread writes
struct Writer
{
  int id; mon::Rng r; std::vector<il::LogStream *> st; int n; bool partials;
  std::vector<Rec> recs;
  Writer() : id(0), r(1), n(0), partials(false) { }
  void statement(int s, int l, const std::string& piece, bool complete, const std::string& obj)
  {
    il::LogStream& ls = *st[size_t(s)];
    const il::LogLevel lv = il::LogLevel(l);
    // the pieces of a statement are written one after the other
    const size_t cut = piece.size() / 2;
    if (complete) SLOGGING_LOG_FLCO(ls, lv, "file", 7, "cls", obj.c_str(), piece.substr(0, cut) << piece.substr(cut) << il::endl);
    else SLOGGING_LOG_FLCO(ls, lv, "file", 7, "cls", obj.c_str(), piece.substr(0, cut) << piece.substr(cut));
  }
  void finish(std::map<std::pair<int, int>, std::string>& open, int s, int l, int seq)
  {
    std::ostringstream o;
    std::string& head = open[std::make_pair(s, l)];
    if (head.empty()) { o << id << ":" << seq << ":" << s << "." << l << " "; }
    o << r.str("abcdefgh", 0, r.chance(5) ? 1200 : 60) << "|";
    Rec x;
    x.thread = id; x.stream = s; x.level = l; x.seq = seq;
    std::ostringstream ob; ob << "o" << id << "." << seq;
    x.obj = ob.str();
    x.text = head + o.str() + "\n";
    x.call = tick();
    statement(s, l, o.str(), true, x.obj);
    x.ret = tick();
    recs.push_back(x);
    open.erase(std::make_pair(s, l));
  }
  void run()
  {
    std::map<std::pair<int, int>, std::string> open;
    for (int i = 0; i < n; ++i)
    {
      const int s = int(r.below(st.size())), l = int(r.below(5));
      if (partials && r.chance(40) && !open.count(std::make_pair(s, l)))
      {
        std::ostringstream o; o << id << ":" << i << ":" << s << "." << l << " " << r.str("ABCDEF", 0, 40);
        open[std::make_pair(s, l)] = o.str();
        statement(s, l, o.str(), false, "part");
        continue;
      }
      finish(open, s, l, i);
      if (r.chance(4)) mon::sleep_us(r.range(0, 200));
    }
    while (!open.empty())
    {
      const std::pair<int, int> k = open.begin()->first;
      finish(open, k.first, k.second, n++);
    }
  }
};

static void connect(Out& o, il::LogStream& st, size_t s)
{
  Window w; w.add_call = tick(); st.addOutputStream(o.s); w.add_ret = tick(); w.rem_call = w.rem_ret = ~0ull;
  o.w[s].push_back(w);
}
static void disconnect(Out& o, il::LogStream& st, size_t s)
{
  Window& w = o.w[s].back(); w.rem_call = tick(); st.removeOutputStream(o.s); w.rem_ret = tick();
}

static void delivery(mon::Rng& r)
{
  const bool slow = mon::cfg().mode == "tsan" || mon::cfg().mode == "asan";
  sched_perturb(unsigned(r.below(3)) * 8, r.next());
  const size_t S = size_t(r.range(1, 3)), O = size_t(r.range(1, 3));
  std::vector<il::LogStream *> streams;
  for (size_t s = 0; s < S; ++s) { std::ostringstream n; n << "Stream" << s; streams.push_back(new il::LogStream(n.str(), il::eLL_TRACE)); }
  std::vector<Out> outs(O + 1);
  mon::Hash h;
  for (size_t o = 0; o <= O; ++o)
  {
    std::ostringstream n; n << "Sink" << o;
    outs[o].s = new Sink(n.str(), r.chance(60));
    if (r.chance(30)) { outs[o].s->delay_every = r.range(1, 20); outs[o].s->delay_us = r.range(0, 100); }
    outs[o].w.resize(S);
    h.add(uint64_t(outs[o].s->worker));
  }
  std::vector<char> started(O + 1, 0);
  for (size_t o = 0; o < O; ++o)
  {
    if (r.chance(70)) { outs[o].s->start(); started[o] = 1; }
    for (size_t s = 0; s < S; ++s) if (r.chance(75)) connect(outs[o], *streams[s], s);
  }
  Out& extra = outs[O];                       // connected and disconnected while they log
  std::vector<Writer *> writers;
  const bool crowd = r.chance(15);
  const int waves = crowd ? 1 : int(r.range(1, 3));
  for (int wave = 0; wave < waves; ++wave)
  {
    const int T = crowd ? int(r.range(9, 16)) : int(r.range(1, 5));
    h.add(uint64_t(T));
    const size_t first = writers.size();
    for (int t = 0; t < T; ++t)
    {
      Writer *w = new Writer();
      w->id = int(writers.size());
      w->r = mon::Rng(r.next());
      w->n = int(r.range(3, slow ? 25 : 60));
      w->partials = crowd || r.chance(40);
      w->st = streams;
      writers.push_back(w);
    }
    locks::Threads th;
    locks::Barrier b(T + 1);
    for (int t = 0; t < T; ++t) { Writer *w = writers[first + size_t(t)]; th.add([w, &b]() { b.wait(); w->run(); }); }
    b.wait();
    mon::phase("logging threads");
    for (size_t o = 0; o < O; ++o) if (!started[o] && r.chance(50)) { outs[o].s->start(); started[o] = 1; mon::stat("obs.late_starts"); }
    if (!started[O]) { extra.s->start(); started[O] = 1; }
    for (int k = int(r.below(3)); k > 0; --k)
    {
      const size_t s = size_t(r.below(S));
      connect(extra, *streams[s], s);
      mon::sleep_us(r.range(0, 600));
      disconnect(extra, *streams[s], s);
      mon::stat("obs.windows");
      h.add(uint64_t(s));
    }
    if (r.chance(20) && O > 0)
    {
      // a restart of an output while messages arrive
      Out& o = outs[r.below(O)];
      o.s->shutdown(); o.s->start();
      started[size_t(&o - &outs[0])] = 1;
      mon::stat("obs.restarts");
    }
    th.join();
  }
  // the running outputs deliver all of it without being shut down
  mon::phase("delivery by the running outputs");
  for (size_t o = 0; o <= O; ++o)
  {
    if (!started[o] && outs[o].s->worker) continue;
    long due = 0;
    for (size_t w = 0; w < writers.size(); ++w)
      for (size_t i = 0; i < writers[w]->recs.size(); ++i)
      {
        const Rec& x = writers[w]->recs[i];
        const std::vector<Window>& ws = outs[o].w[size_t(x.stream)];
        bool must = false;
        for (size_t v = 0; v < ws.size(); ++v) must = must || (x.call > ws[v].add_ret && x.ret < ws[v].rem_call);
        due += must;
      }
    while (outs[o].s->count.load() < due) mon::sleep_us(50);
    mon::stat("obs.delivered_while_running", due);
  }
  mon::phase("shutdown");
  for (size_t o = 0; o <= O; ++o)
  {
    if (!started[o]) outs[o].s->start();
    outs[o].s->shutdown();
  }
  // judge
  std::map<std::string, const Rec *> by;
  for (size_t w = 0; w < writers.size(); ++w) for (size_t i = 0; i < writers[w]->recs.size(); ++i) by[writers[w]->recs[i].text] = &writers[w]->recs[i];
  size_t delivered = 0;
  mon::Hash order;
  for (size_t o = 0; o <= O; ++o)
  {
    Sink& k = *outs[o].s;
    std::map<const Rec *, int> seen;
    std::vector<int> last(writers.size(), -1);
    uint64_t latest_call = 0; const Rec *latest = NULL;
    for (size_t i = 0; i < k.got.size(); ++i)
    {
      const Got& g = k.got[i];
      std::map<std::string, const Rec *>::iterator f = by.find(g.text);
      MON_CHECK(f != by.end(), "not-written", "output " << o << (k.worker ? " (worker)" : " (synchronous)") << " received the text " << mon::q(g.text)
                << " of stream " << g.stream << ", which no thread has written as one message");
      const Rec& x = *f->second;
      MON_CHECK(g.level == x.level && g.stream == streams[size_t(x.stream)]->name() && g.obj == x.obj && g.file == "file" && g.line == 7 && g.cls == "cls",
                "mixed-up", "the message " << mon::q(x.text) << " was received with level " << g.level << " stream " << g.stream << " object " << g.obj
                << " instead of level " << x.level << " stream " << x.stream << " object " << x.obj);
      MON_CHECK(++seen[&x] == 1, "duplicate", "output " << o << " received " << mon::q(x.text, 60) << " " << seen[&x] << " times");
      MON_CHECK(x.seq > last[size_t(x.thread)], "order", "output " << o << " received message " << x.seq << " of thread " << x.thread
                << " behind message " << last[size_t(x.thread)]);
      last[size_t(x.thread)] = x.seq;
      MON_CHECK(!latest || x.ret > latest_call, "order-between", "output " << o << " received message " << mon::q(x.text, 40)
                << ", which had been written completely before " << mon::q(latest->text, 40) << " was begun, behind it");
      if (x.call > latest_call) { latest_call = x.call; latest = &x; }
      bool possible = false;
      const std::vector<Window>& ws = outs[o].w[size_t(x.stream)];
      for (size_t w = 0; w < ws.size(); ++w) possible = possible || (x.ret > ws[w].add_call && x.call < ws[w].rem_ret);
      MON_CHECK(possible, "not-connected", "output " << o << " received " << mon::q(x.text, 60) << " of a stream it was not connected to then");
      order.add(uint64_t(x.thread));
      ++delivered;
    }
    for (size_t w = 0; w < writers.size(); ++w)
      for (size_t i = 0; i < writers[w]->recs.size(); ++i)
      {
        const Rec& x = writers[w]->recs[i];
        const std::vector<Window>& ws = outs[o].w[size_t(x.stream)];
        bool must = false;
        for (size_t v = 0; v < ws.size(); ++v) must = must || (x.call > ws[v].add_ret && x.ret < ws[v].rem_call);
        MON_CHECK(!must || seen.count(&x), "lost", "output " << o << (k.worker ? " (worker)" : " (synchronous)") << " never received "
                  << mon::q(x.text, 60) << " of a stream it was connected to");
      }
    MON_CHECK(!k.worker || k.starts == k.stops, "hooks", "onStart was called " << k.starts << " times, onShutdown " << k.stops << " times");
  }
  mon::stat("obs.written", by.size());
  mon::stat("obs.delivered", delivered);
  if (crowd) mon::stat("obs.crowds");
  mon::state(h.add(order.h));
  if (mon::want_sample()) { std::ostringstream o; o << writers.size() << " threads on " << S << " streams with " << O << "+1 outputs: " << by.size() << " messages, " << delivered << " deliveries"; mon::sample(o.str()); }
  for (size_t w = 0; w < writers.size(); ++w) delete writers[w];
  for (size_t o = 0; o <= O; ++o) delete outs[o].s;
  for (size_t s = 0; s < S; ++s) delete streams[s];
  sched_perturb(0, 1);
}

void mon::run_case(uint64_t, Rng& r) { delivery(r); mon::stat("obs.perturbations", 0); }
void mon::setup() { il::LoggingManager::instance().initialize(); }
void mon::teardown() { mon::stat("obs.perturbations", sched_points()); il::LoggingManager::instance().shutdown(); }
