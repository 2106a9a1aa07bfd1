// P27: an online monitor of configuration observers: who has to be called, when, and with what in force.
#include "mon.h"
#include <algorithm>
#include <iostream>
#include "icl_core_config/Config.h"
#include "icl_core_config/ConfigObserver.h"
using namespace icl_core::config;
typedef std::multimap<int, std::string> Regs;

namespace {
struct Obs;
struct Event
{
  std::map<std::string, std::string> keys;    // what this change may report, with the new values
  bool registration; int target;              // reports only to this observer
  std::map<std::string, std::map<int, unsigned> > due, seen;
  std::set<int> gone;                         // unregistered meanwhile
};
std::map<int, Obs *> alive;
Regs regs;
std::map<std::string, std::string> values;    // the configuration
std::vector<Event *> stack;
mon::Rng *rng;
int next_id;
unsigned budget;
std::string history;

void act(int self);
struct Obs : public ConfigObserver
{
  int id;
  explicit Obs(int i) : id(i) { alive[i] = this; }
  ~Obs() { }
  void valueChanged(const icl_core::String& key)
  {
    mon::stat("obs.callbacks");
    std::string ctx = "observer " + std::to_string(id) + " for " + key + " after " + history;
    if (!alive.count(id)) { mon::note_viol("dead", "called deleted " + ctx); return; }
    MON_CHECK(!stack.empty(), "unasked", "called " << ctx << " without a change");
    Event& e = *stack.back();
    if (e.registration) MON_CHECK(id == e.target, "wrong_observer", "called " << ctx << " while observer " << e.target << " was registered");
    else MON_CHECK(e.due[key].count(id) || e.gone.count(id), "wrong_observer", "called " << ctx << ", which is not registered for this change");
    MON_CHECK(!e.gone.count(id), "unregistered", "called unregistered " << ctx);
    std::map<std::string, std::string>::iterator k = e.keys.find(key);
    MON_CHECK(k != e.keys.end(), "wrong_key", "called " << ctx << ", which did not change");
    icl_core::String v;
    MON_CHECK(get<icl_core::String>(key, v) && v == k->second, "value", "called " << ctx << " while the value is " << mon::q(v) << " instead of " << mon::q(k->second));
    ++e.seen[key][id];
    if (!e.registration) MON_CHECK(e.seen[key][id] <= e.due[key][id], "repeated", "called " << ctx << " " << e.seen[key][id] << " times");
    if (!e.registration && e.keys.size() == 1 && budget && rng->chance(30)) { --budget; act(id); }
  }
};
void forget(int id)
{
  regs.erase(id);
  for (size_t i = 0; i < stack.size(); ++i) stack[i]->gone.insert(id);
}
void due(Event& e) { for (std::map<std::string, std::string>::iterator k = e.keys.begin(); k != e.keys.end(); ++k) for (Regs::iterator i = regs.begin(); i != regs.end(); ++i) if (i->second == k->first || i->second.empty()) ++e.due[k->first][i->first]; }
void settle(Event& e, const std::string& what)
{
  for (std::map<std::string, std::string>::iterator k = e.keys.begin(); k != e.keys.end(); ++k)
    for (std::map<int, unsigned>::iterator i = e.due[k->first].begin(); i != e.due[k->first].end(); ++i)
      if (!e.gone.count(i->first)) MON_CHECK(e.seen[k->first][i->first] == i->second, "not_called", "observer " << i->first << " called " << e.seen[k->first][i->first] << " times instead of " << i->second << " for " << k->first << " by " << what << " after " << history);
}
struct Scope { Event& e; explicit Scope(Event& x) : e(x) { stack.push_back(&e); } ~Scope() { stack.pop_back(); } };

void set(const std::string& key, const std::string& v)
{
  Event e; e.registration = false; e.target = -1;
  e.keys[key] = v; due(e);
  history += " set(" + key + ")";
  bool fresh = !values.count(key);
  values[key] = v;
  Scope s(e);
  mon::phase("setValue(" + key + ") after " + history.substr(history.size() > 300 ? history.size() - 300 : 0));
  if (rng->chance(50)) { bool n = ConfigManager::instance().setValue<icl_core::String>(key, v); MON_CHECK(n == fresh, "fresh", "setValue() of a " << (fresh ? "new" : "known") << " key returned " << n); }
  else icl_core::config::setValue(key, v);
  settle(e, "setValue(" + key + ")");
  mon::stat("obs.changes");
}
void load(mon::Rng& r)
{
  Event e; e.registration = false; e.target = -1;
  std::string f = mon::cfg().scratch + "/f" + std::to_string(r.below(3)) + ".xml", xml = "<root>";
  size_t n = r.below(5);
  static const std::vector<std::string> names = { "a", "b", "c", "a+b", "file" };
  if (r.chance(20)) { std::string v = "root " + std::to_string(r.below(100)); xml += v; e.keys[""] = v; }      // text of the root element belongs to the empty key
  for (size_t i = 0; i < n; ++i)
  {
    std::string k = names[i] == "a+b" ? "a" : names[i], v = "loaded " + std::to_string(r.below(100));
    if (e.keys.count("/" + k)) continue;
    xml += "<" + k + ">" + v + "</" + k + ">"; e.keys["/" + k] = v;
  }
  xml += "</root>";
  FILE *h = fopen(f.c_str(), "w"); if (!h) mon::broken("file"); fputs(xml.c_str(), h); fclose(h);
  e.keys["/configfile"] = f; due(e);
  history += " load(" + xml + ")";
  for (std::map<std::string, std::string>::iterator k = e.keys.begin(); k != e.keys.end(); ++k) values[k->first] = k->second;
  Scope s(e);
  mon::phase("loading " + f);
  icl_core::config::setValue("/configfile", f);
  settle(e, "loading " + xml);
  mon::stat("obs.loads");
}
void enroll(Obs *o, const std::string& key)
{
  Event e; e.registration = true; e.target = o->id;
  if (key.empty()) e.keys = values; else if (values.count(key)) e.keys[key] = values[key];
  for (std::map<std::string, std::string>::iterator k = e.keys.begin(); k != e.keys.end(); ++k) ++e.due[k->first][o->id];
  history += " register(" + std::to_string(o->id) + "," + key + ")";
  {
    Scope s(e);
    mon::phase("registerObserver(" + key + ")");
    ConfigManager::instance().registerObserver(o, key);
    settle(e, "registration");
    for (std::map<std::string, std::map<int, unsigned> >::iterator k = e.seen.begin(); k != e.seen.end(); ++k) MON_CHECK(k->second[o->id] <= 1, "repeated", "registration reported " << k->first << " twice");
  }
  regs.insert(std::make_pair(o->id, key));
  mon::stat("obs.registrations");
}
std::string some_key(mon::Rng& r) { static const std::vector<std::string> k = { "/a", "/b", "/c", "/a+b", "/(x", "/a.b", "/axb", "/[y]", "/a/b", "/file", "/.*" }; return r.pick(k); }
void drop(int id, bool destroy)
{
  Obs *o = alive[id];
  history += destroy ? " delete(" : " unregister("; history += std::to_string(id) + ")";
  forget(id);
  if (destroy) { alive.erase(id); delete o; } else ConfigManager::instance().unregisterObserver(o);
  mon::stat(destroy ? "obs.deleted" : "obs.unregistered");
}
int other(int self) { std::vector<int> v; for (std::map<int, Obs *>::iterator i = alive.begin(); i != alive.end(); ++i) if (i->first != self) v.push_back(i->first); return v.empty() ? -1 : v[rng->below(v.size())]; }
void act(int self)       // what an observer may do when it is called
{
  int o = other(self);
  mon::stat("obs.actions_in_callbacks");
  switch (rng->below(7))
  {
  case 0: drop(self, false); break;
  case 1: if (o >= 0) drop(o, false); break;
  case 2: if (o >= 0) { for (size_t i = 0; i < stack.size(); ++i) (void)i; drop(o, stack.size() == 1); } break;
  case 4:
  {
    // moves an observer to another key
    std::string k = some_key(*rng); bool busy = false;
    for (size_t i = 0; i < stack.size(); ++i) busy = busy || stack[i]->keys.count(k);
    if (o < 0 || busy) break;
    drop(o, false); enroll(alive[o], k);
    mon::stat("obs.moved");
    break;
  }
  case 3: { Obs *n = new Obs(next_id++); enroll(n, rng->chance(30) ? "" : some_key(*rng)); break; }
  default:
  {
    if (stack.size() > 2) break;
    std::string k = some_key(*rng); bool busy = false;
    for (size_t i = 0; i < stack.size(); ++i) busy = busy || stack[i]->keys.count(k);
    if (!busy) { set(k, "nested " + std::to_string(rng->below(1000))); mon::stat("obs.nested"); }
  }
  }
}
void history_case(mon::Rng& r)
{
  rng = &r; next_id = 0;
  for (size_t i = 0, n = r.below(3); i < n; ++i) set(some_key(r), "first " + std::to_string(i));
  for (int step = 0; step < 40; ++step)
  {
    budget = 4;
    if (history.size() > 1500) history = "... " + history.substr(history.size() - 800);
    switch (r.below(10))
    {
    case 0: case 1: { Obs *o = new Obs(next_id++); enroll(o, r.chance(25) ? "" : some_key(r)); break; }
    case 2: { int o = other(-1); if (o >= 0) enroll(alive[o], r.chance(20) ? "" : some_key(r)); break; }
    case 3: { int o = other(-1); if (o >= 0 && alive.size() > 2) drop(o, r.chance(50)); break; }
    case 4: load(r); break;
    default: set(some_key(r), "v" + std::to_string(r.below(1000)));
    }
    mon::Hash h; h.add(alive.size()).add(regs.size()).add(values.size()).add(history.substr(history.rfind(' ') + 1));
    mon::state(h);
  }
  if (mon::want_sample()) mon::sample(history.substr(history.size() > 400 ? history.size() - 400 : 0));
  for (std::map<int, Obs *>::iterator i = alive.begin(); i != alive.end(); ++i) { Obs *o = i->second; (void)o; }
  while (!alive.empty()) drop(alive.begin()->first, true);
  set("/a", "nobody listens");
}
// Observers that exist before the initialization are told about everything it sets.
struct Count : public ConfigObserver
{
  std::map<std::string, unsigned> n; std::map<std::string, std::string> last;
  void valueChanged(const icl_core::String& key) { ++n[key]; icl_core::String v; get<icl_core::String>(key, v); last[key] = v; }
};
void init_case(mon::Rng& r)
{
  std::map<std::string, unsigned> want;
  std::string f = mon::cfg().scratch + "/init.xml", xml = "<root>";
  for (size_t i = 0, n = r.below(5); i < n; ++i) { std::string k = "k" + std::to_string(i); xml += "<" + k + ">file</" + k + ">"; ++want["/" + k]; }
  xml += "</root>";
  FILE *h = fopen(f.c_str(), "w"); if (!h) mon::broken("file"); fputs(xml.c_str(), h); fclose(h);
  std::vector<std::string> a(1, "prog");
  if (r.chance(80)) { a.push_back("-c"); a.push_back(f); want["/configfile"] = 0; } else want.clear();
  bool file = a.size() > 1;
  for (size_t i = 0; i < 3; ++i)
  {
    std::string k = "/k" + std::to_string(r.below(6)); bool given = r.chance(50), def = r.chance(50);
    icl_core::config::addParameter(ConfigParameter("o" + std::to_string(i) + ":", "", k, "help", def ? "default" : ""));
    if (given) a.push_back("--o" + std::to_string(i) + "=given");
    if (given) ++want[k]; else if (def && !want[k]) ++want[k];
  }
  for (size_t n = r.below(3); n > 0; --n) { a.push_back("-o/k1"); a.push_back("over" + std::to_string(n)); ++want["/k1"]; }
  Count all, k1;
  ConfigManager::instance().registerObserver(&all);
  ConfigManager::instance().registerObserver(&k1, "/k1");
  std::vector<char *> av; for (size_t i = 0; i < a.size(); ++i) av.push_back(strdup(a[i].c_str())); av.push_back(NULL);
  int ac = int(a.size());
  mon::phase("initialization with observers");
  MON_CHECK(icl_core::config::initialize(ac, &av[0]), "init", "initialization failed");
  std::string ctx; for (size_t i = 0; i < a.size(); ++i) ctx += a[i] + " ";
  want.erase("/configfile");
  for (std::map<std::string, unsigned>::iterator i = want.begin(); i != want.end(); ++i)
    MON_CHECK(all.n[i->first] == i->second, "init_count", "initialization with " << ctx << xml << " reported " << i->first << " " << all.n[i->first] << " times instead of " << i->second);
  if (file) MON_CHECK(all.n["/configfile"] >= 1, "init_count", "/configfile was not reported");
  for (std::map<std::string, unsigned>::iterator i = all.n.begin(); i != all.n.end(); ++i)
  {
    icl_core::String v;
    MON_CHECK(i->first == "/configfile" || want.count(i->first) || !i->second, "init_extra", "initialization with " << ctx << xml << " reported " << i->first);
    if (i->second) MON_CHECK(get<icl_core::String>(i->first, v) && v == all.last[i->first], "init_last", "the last report of " << i->first << " was " << all.last[i->first] << " but it is " << v);
  }
  MON_CHECK(k1.n["/k1"] == want["/k1"], "init_count", "the observer of /k1 was called " << k1.n["/k1"] << " times instead of " << want["/k1"]);
  k1.n.erase("/k1"); MON_CHECK(k1.n.empty(), "init_extra", "the observer of /k1 was told about " << k1.n.begin()->first);
  mon::stat("obs.initializations");
  mon::state(mon::Hash().add(ctx).add(xml));
}
} // namespace

namespace mon {
void setup() { }
void teardown() { }
void run_case(uint64_t index, Rng& r)
{
  Rng cr(r.next());
  in_child([&]() { std::ostringstream err; std::streambuf *e = std::cerr.rdbuf(err.rdbuf()); if (index % 4 == 3) init_case(cr); else history_case(cr); std::cerr.rdbuf(e); });
}
}
