// P51: the plugin manager offers exactly the loadable plugins, each once, and gives everything back.
#include "mon_log.h"
#include <link.h>
#include <fstream>
#include <sys/stat.h>
#include <set>
#include <list>
#include <algorithm>
#include "icl_core_config/Config.h"
#include "p51_iface.h"
using mon::Rng;

// ---------------------------------------------------------------- instances that live
static std::map<void *, int> alive;           // instance, library
static std::map<int, int> born;               // library, how often
extern "C" void p51_born(void *p, int lib)
{
  MON_NOTE(alive.insert(std::make_pair(p, lib)).second, "born-twice", "an instance of library " << lib << " is constructed where one lives");
  ++born[lib];
  mon::stat("obs.instances");
}
extern "C" void p51_died(void *p, int lib)
{
  const std::map<void *, int>::iterator i = alive.find(p);
  MON_NOTE(i != alive.end() && i->second == lib, "destroyed-again", "an instance of library " << lib << " is destroyed which does not live");
  if (i != alive.end()) alive.erase(i);
  mon::stat("obs.destroyed");
}
// the program itself is linked with a plugin as well, whose entry points are visible to the loader
struct Linked : public Shape
{
  Linked() { p51_born(this, 99); }
  ~Linked() { p51_died(this, 99); }
  int lib() const { return 99; }
  ICL_CORE_PLUGIN_DECLARE_PLUGIN
};
ICL_CORE_PLUGIN_REGISTER_PLUGIN(Shape, Linked, "linked")

template <class T> struct Static : public T
{
  std::string id;
  explicit Static(const std::string& i) : id(i) { p51_born(static_cast<T *>(this), 98); }
  ~Static() { p51_died(static_cast<T *>(this), 98); }
  int lib() const { return 98; }
  std::string Identifier() const { return id; }
};

// ---------------------------------------------------------------- what there is to load
enum Kind { SHAPE, COLOUR, UNLOADABLE, NO_LOAD_S, NULL_LOAD_S, PARTIAL };
struct Lib { const char *file, *id; int lib; Kind kind; };
static const Lib LIBS[] =
{
  { "circle.so", "circle", 1, SHAPE }, { "square.so", "square", 2, SHAPE }, { "line.so", "a line", 3, SHAPE }, { "square2.so", "square", 4, SHAPE },
  { "red.so", "red", 5, COLOUR }, { "circle_c.so", "circle", 6, COLOUR },
  { "foreign.so", "", 7, PARTIAL }, { "unresolved.so", "", 8, UNLOADABLE }, { "noid.so", "noid", 9, PARTIAL }, { "nobase.so", "nobase", 10, PARTIAL },
  { "noload.so", "noload", 11, NO_LOAD_S }, { "null.so", "null", 12, NULL_LOAD_S }
};
static const int NLIBS = sizeof(LIBS) / sizeof(LIBS[0]);

char shape_dir[4096], colour_dir[4096];

struct Placed { std::string path; int lib; bool nested; bool second; };      // lib < 0: no library
static std::vector<Placed> placed;
static std::string top;

static std::string plugin_source()
{
  char b[4096];
  const ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1);
  if (n <= 0) mon::broken("readlink /proc/self/exe");
  return std::string(b, n) + "-plugins/";
}
static void put(const std::string& path, const std::string& text)
{
  FILE *f = fopen(path.c_str(), "wb");
  if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f) != 0) mon::broken("cannot write " + path);
}
static std::string get(const std::string& path)
{
  std::ifstream in(path.c_str(), std::ios::binary);
  std::ostringstream o; o << in.rdbuf();
  if (!in) mon::broken("cannot read " + path);
  return o.str();
}
static int count_mapped(struct dl_phdr_info *i, size_t, void *n)
{
  if (i->dlpi_name && strncmp(i->dlpi_name, top.c_str(), top.size()) == 0) ++*static_cast<int *>(n);
  return 0;
}
static int mapped() { int n = 0; dl_iterate_phdr(count_mapped, &n); return n; }

template <class T> struct Kinds;
template <> struct Kinds<Shape> { static bool good(const Lib& l) { return l.kind == SHAPE; } static bool soft(const Lib& l) { return l.kind == NO_LOAD_S || l.kind == NULL_LOAD_S; } static const char *name() { return "shapes"; } };
template <> struct Kinds<Colour> { static bool good(const Lib& l) { return l.kind == COLOUR; } static bool soft(const Lib&) { return false; } static const char *name() { return "colours"; } };

// ---------------------------------------------------------------- one manager and its model
template <class T, const char *const dir> struct Side
{
  typedef icl_core::plugin::PluginManager<T, dir> M;
  M *m;
  bool up, lazy, recursive;
  std::vector<std::string> paths;
  std::map<std::string, T *> statics;
  std::map<std::string, T *> seen;            // the one instance of each name
  std::vector<T *> extra;                     // created for the caller
  std::map<std::string, std::set<int> > good; // names and the libraries that offer them
  std::set<std::string> maybe;                // offer the interface but cannot be instantiated
  std::set<std::string> bad_files, good_files;
  size_t earlier;                             // instances of this side alive before
  Side() : m(NULL), up(false), lazy(false), recursive(false), earlier(0) { }

  void note_up(bool rec)
  {
    up = true; recursive = rec;
    good.clear(); maybe.clear(); bad_files.clear(); good_files.clear();
    for (size_t i = 0; i < placed.size(); ++i)
    {
      const Placed& p = placed[i];
      bool visible = false;
      for (size_t k = 0; k < paths.size(); ++k)
      {
        if (p.path.compare(0, paths[k].size() + 1, paths[k] + "/") != 0) continue;
        const bool direct = p.path.find('/', paths[k].size() + 1) == std::string::npos;
        if (direct || rec) visible = true;
      }
      if (!visible) continue;
      if (p.lib < 0 || LIBS[p.lib].kind == UNLOADABLE || LIBS[p.lib].kind == PARTIAL) { bad_files.insert(p.path); continue; }
      const Lib& l = LIBS[p.lib];
      if (Kinds<T>::good(l)) { good[l.id].insert(l.lib); good_files.insert(p.path); }
      else if (Kinds<T>::soft(l)) maybe.insert(l.id);
    }
    mon::stat("obs.initialisations");
    mon::stat("obs.good_plugins", good.size());
    mon::stat("obs.foreign_files", bad_files.size());
  }
  size_t own_alive() const
  {
    size_t n = 0;
    for (std::map<void *, int>::const_iterator i = alive.begin(); i != alive.end(); ++i)
      for (int k = 0; k < NLIBS; ++k) if (LIBS[k].lib == i->second && Kinds<T>::good(LIBS[k])) ++n;
    return n - extra.size();
  }
  std::string where() const { return std::string(Kinds<T>::name()) + ": "; }
  void is_instance(const std::string& id, T *p)
  {
    MON_CHECK(p != NULL, "null-instance", where() << "there is no instance of plugin " << mon::q(id));
    MON_CHECK(alive.count(p), "dead-instance", where() << "the instance of " << mon::q(id) << " does not live");
    MON_CHECK(p->Identifier() == id, "wrong-instance", where() << "plugin " << mon::q(id) << " is called " << mon::q(p->Identifier()));
    MON_CHECK(good[id].count(p->lib()), "wrong-library", where() << "plugin " << mon::q(id) << " comes from library " << p->lib());
    if (seen.count(id)) MON_CHECK(seen[id] == p, "another-instance", where() << "another instance of plugin " << mon::q(id) << " is given");
    seen[id] = p;
  }
  void loaded()                               // after a request that loads
  {
    if (!up) { note_up(false); mon::stat("obs.implicit_initialisations"); }
    lazy = false;
    MON_CHECK(own_alive() == good.size(), "instances", where() << own_alive() << " instances live for " << good.size() << " plugins");
  }
  void files()
  {
    const std::list<std::string> e = m->errorMessages();
    for (std::set<std::string>::iterator f = bad_files.begin(); f != bad_files.end(); ++f)
    {
      bool told = false;
      for (std::list<std::string>::const_iterator i = e.begin(); i != e.end(); ++i) told = told || i->find(*f) != std::string::npos;
      MON_CHECK(told, "error-missing", where() << "no error message tells that " << mon::q(*f) << " is no plugin");
      mon::stat("obs.errors_told");
    }
    for (std::set<std::string>::iterator f = good_files.begin(); f != good_files.end(); ++f)
      for (std::list<std::string>::const_iterator i = e.begin(); i != e.end(); ++i)
        MON_CHECK(i->find(*f + ":") == std::string::npos, "false-error", where() << "the plugin " << mon::q(*f) << " is reported as " << mon::q(*i));
  }
  void names()
  {
    mon::phase("availablePlugins");
    std::list<std::string> l = m->availablePlugins();
    loaded();
    // those that cannot be instantiated are reported, too
    const std::list<std::string> e = m->errorMessages();
    for (std::set<std::string>::iterator i = maybe.begin(); i != maybe.end(); ++i)
    {
      bool told = good.count(*i) != 0;
      for (std::list<std::string>::const_iterator k = e.begin(); k != e.end(); ++k) told = told || k->find(*i) != std::string::npos;
      MON_CHECK(told, "error-missing", where() << "no error message tells that plugin " << mon::q(*i) << " gives no instance");
      mon::stat("obs.soft_errors_told");
    }
    std::multiset<std::string> got(l.begin(), l.end());
    for (typename std::map<std::string, std::set<int> >::iterator i = good.begin(); i != good.end(); ++i)
      MON_CHECK(got.count(i->first) >= 1, "not-available", where() << "plugin " << mon::q(i->first) << " is not available");
    for (std::multiset<std::string>::iterator i = got.begin(); i != got.end(); ++i)
    {
      MON_CHECK(good.count(*i) || statics.count(*i) || maybe.count(*i), "foreign-plugin", where() << "plugin " << mon::q(*i) << " is available but in no library");
      MON_CHECK(got.count(*i) <= size_t(good.count(*i) + statics.count(*i) + maybe.count(*i)), "available-twice", where() << "plugin " << mon::q(*i) << " is available " << got.count(*i) << " times");
    }
    for (typename std::map<std::string, T *>::iterator i = statics.begin(); i != statics.end(); ++i) MON_CHECK(got.count(i->first), "static-missing", where() << "static plugin " << mon::q(i->first) << " is not available");
    mon::stat("obs.name_lists");
  }
  void instances()
  {
    mon::phase("plugins");
    std::list<T *> l = m->plugins();
    loaded();
    std::multiset<T *> got(l.begin(), l.end());
    MON_CHECK(got.count(NULL) == 0, "null-plugin", where() << "plugins() contains a null pointer");
    for (typename std::multiset<T *>::iterator i = got.begin(); i != got.end(); ++i)
    {
      MON_CHECK(got.count(*i) == 1, "instance-twice", where() << "plugins() contains an instance more than once");
      MON_CHECK(alive.count(*i), "dead-instance", where() << "plugins() contains an instance which does not live");
      const std::string id = (*i)->Identifier();
      if ((*i)->lib() == 98) MON_CHECK(statics.count(id) && statics[id] == *i, "stale-static", where() << "plugins() contains " << mon::q(id) << " which was removed");
      else is_instance(id, *i);
    }
    MON_CHECK(got.size() == good.size() + statics.size(), "plugins", where() << "plugins() has " << got.size() << " entries for " << good.size() << " loadable and " << statics.size() << " static plugins");
    mon::stat("obs.instance_lists");
  }
  void one(const std::string& id)
  {
    mon::phase("plugin");
    T *p = m->plugin(id);
    loaded();
    if (statics.count(id)) { MON_CHECK(p == statics[id], "static", where() << "plugin " << mon::q(id) << " is not the static one"); mon::stat("obs.static_requests"); }
    else if (good.count(id)) { is_instance(id, p); mon::stat("obs.requests"); }
    else { MON_CHECK(p == NULL, "unknown-plugin", where() << "there is an instance of unknown plugin " << mon::q(id)); mon::stat("obs.unknown_requests"); }
  }
  void create(const std::string& id)
  {
    mon::phase("createPluginInstance");
    T *p = m->createPluginInstance(id);
    if (p) extra.push_back(p);
    loaded();
    if (good.count(id))
    {
      MON_CHECK(p != NULL && alive.count(p) && p->Identifier() == id && good[id].count(p->lib()), "created", where() << "no fresh instance of plugin " << mon::q(id) << " is created");
      MON_CHECK(std::find(extra.begin(), extra.end() - 1, p) == extra.end() - 1, "not-fresh", where() << "an instance is given out twice");
      for (typename std::map<std::string, T *>::iterator i = seen.begin(); i != seen.end(); ++i) MON_CHECK(i->second != p, "not-fresh", where() << "the managed instance of " << mon::q(id) << " is given out");
      mon::stat("obs.created");
    }
    else { MON_CHECK(p == NULL, "unknown-created", where() << "an instance of unknown plugin " << mon::q(id) << " is created"); mon::stat("obs.unknown_requests"); }
  }
  std::string some_id(Rng& r)
  {
    static const char *const extra_ids[] = { "unknown", "", "linked", "noid", "nobase", "noload", "null", "st" };
    if (up && !good.empty() && r.chance(50)) { typename std::map<std::string, std::set<int> >::iterator i = good.begin(); std::advance(i, long(r.below(good.size()))); return i->first; }
    if (r.chance(60)) return LIBS[r.below(6)].id;
    return extra_ids[r.below(8)];
  }
  void start(Rng& r)
  {
    mon::phase("instance");
    m = M::instance();
    MON_CHECK(m == M::instance(), "two-managers", where() << "instance() gives two managers");
    MON_CHECK(!m->isInitialized(), "initialised-early", where() << "a fresh manager says that it is initialised");
    up = lazy = false; seen.clear();
    paths.clear(); paths.push_back(dir);
    if (r.chance(50))
    {
      const std::string extra[] = { top + "/second", top + "/missing", top + "/dir/sub", top + "/dir/note.txt", top + "/dir", top + "/dir/loop/x" };
      const std::string& p = extra[r.below(6)];
      if (r.chance(20)) m->addPluginPath("");
      m->addPluginPath(p);
      paths.push_back(p);
      const std::list<std::string> l = m->pluginPaths();
      MON_CHECK(std::vector<std::string>(l.begin(), l.end()) == paths, "paths", where() << l.size() << " plugin paths instead of " << paths.size());
    }
  }
  void initialize(Rng& r)
  {
    const bool lz = r.chance(50), rec = r.chance(40);
    mon::phase("initialize");
    const bool was_up = up, was_lazy = lazy;
    MON_CHECK(m->initialize(lz, rec), "initialize", where() << "initialize fails");
    MON_CHECK(m->isInitialized(), "initialised", where() << "the manager does not say that it is initialised");
    if (!was_up) { note_up(rec); lazy = lz; files(); }
    else mon::stat("obs.initialize_again");
    if (!was_up && lz) MON_CHECK(own_alive() == 0, "not-lazy", where() << own_alive() << " instances live after a lazy initialisation");
    else if (!was_up || (was_lazy && !lz)) loaded();
    MON_CHECK(m->loadLazy() == lazy, "lazy", where() << "loadLazy() is " << m->loadLazy());
  }
  void op(Rng& r)
  {
    switch (r.below(12))
    {
      case 0: initialize(r); break;
      case 1: names(); break;
      case 2: instances(); break;
      case 3: case 4: case 5: one(some_id(r)); break;
      case 6: case 7: create(some_id(r)); break;
      case 8:
      {
        if (statics.size() > 3) break;
        mon::phase("addStaticPlugin");
        const std::string id = r.chance(50) ? std::string("st") : some_id(r);
        T *old = statics.count(id) ? statics[id] : NULL;
        T *p = new Static<T>(id);
        m->addStaticPlugin(p);
        statics[id] = p;
        if (old) { MON_CHECK(alive.count(old), "static-destroyed", where() << "replacing a static plugin destroys it"); delete old; }
        break;
      }
      case 9:
      {
        mon::phase("removeStaticPlugin");
        const std::string id = !statics.empty() && r.chance(70) ? statics.begin()->first : some_id(r);
        m->removeStaticPlugin(id);
        if (statics.count(id)) { MON_CHECK(alive.count(statics[id]), "static-destroyed", where() << "removing a static plugin destroys it"); delete statics[id]; statics.erase(id); }
        break;
      }
      case 10: { const std::string id = some_id(r); MON_CHECK(m->isStaticPlugin(id) == (statics.count(id) != 0), "is-static", where() << "isStaticPlugin(" << mon::q(id) << ") is wrong"); break; }
      case 11: if (!extra.empty()) { const size_t k = r.below(extra.size()); T *p = extra[k]; extra.erase(extra.begin() + long(k)); delete p; } break;
    }
    MON_CHECK(M::instance() == m, "two-managers", where() << "instance() gives another manager");
    if (up) MON_CHECK(own_alive() == (lazy ? 0 : good.size()), "instances", where() << own_alive() << " instances live for " << good.size() << " plugins, " << (lazy ? "lazy" : "loaded"));
  }
  void stop()
  {
    for (size_t i = 0; i < extra.size(); ++i) delete extra[i];
    extra.clear();
    mon::phase("destruction of the manager");
    delete m;
    m = NULL;
    MON_CHECK(own_alive() == 0, "not-destroyed", where() << own_alive() << " instances live after the manager is destroyed");
    for (typename std::map<std::string, T *>::iterator i = statics.begin(); i != statics.end(); ++i)
    {
      MON_CHECK(alive.count(i->second), "static-destroyed", where() << "the static plugin " << mon::q(i->first) << " is destroyed with the manager");
      delete i->second;
    }
    statics.clear();
    mon::stat("obs.shutdowns");
  }
};

static void life(Rng& r)
{
  const std::string src = plugin_source();
  top = mon::g().cfg.scratch + "/p";
  if (system(("rm -rf '" + top + "'").c_str()) != 0) mon::broken("rm");
  const char *const dirs[] = { "", "/dir", "/dir/sub", "/second", "/dir/sub/deep" };
  for (int i = 0; i < 5; ++i) if (mkdir((top + dirs[i]).c_str(), 0700) != 0) mon::broken("mkdir " + top);
  placed.clear();
  const int n = int(r.below(8));
  std::ostringstream what;
  for (int i = 0; i < n; ++i)
  {
    const int d = r.chance(60) ? 1 : 2 + int(r.below(3));
    Placed p; p.nested = d == 2 || d == 4; p.second = d == 3;
    std::ostringstream name; name << top << dirs[d] << "/";
    if (r.chance(12))
    {
      p.lib = -1;
      static const char *const texts[] = { "", "this is no library\n", "\x7f" "ELF", "\x7f" "ELF\x02\x01\x01" };
      name << "text" << i << (r.chance(50) ? ".so" : ".txt");
      put(name.str(), texts[r.below(4)]);
      what << " text";
    }
    else
    {
      p.lib = int(r.chance(40) ? r.below(6) : r.below(NLIBS));
      name << "l" << i << LIBS[p.lib].file;
      if (r.chance(10)) { if (symlink((src + LIBS[p.lib].file).c_str(), name.str().c_str()) != 0) mon::broken("symlink"); }
      else put(name.str(), get(src + LIBS[p.lib].file));
      what << " " << LIBS[p.lib].file;
    }
    p.path = name.str();
    placed.push_back(p);
  }
  if (r.chance(15)) { if (symlink("gone", (top + "/dir/dangling.so").c_str()) != 0) mon::broken("symlink"); what << " dangling"; }
  if (r.chance(8)) { if (symlink("loop", (top + "/dir/loop").c_str()) != 0) mon::broken("symlink"); what << " loop"; }
  if (r.chance(15)) { if (mkfifo((top + "/dir/fifo.so").c_str(), 0600) != 0) mon::broken("mkfifo"); what << " fifo"; }
  if (r.chance(20))
  {
    Placed p; p.lib = -1; p.nested = p.second = false; p.path = top + "/dir/note.txt";
    put(p.path, "a note\n");
    placed.push_back(p);
    what << " note";
  }
  mon::state(mon::Hash().add(what.str()));
  static const char *const homes[] = { "/dir", "/dir", "/dir", "/second", "/nowhere", "/dir/sub" };
  const std::string sd = top + homes[r.below(6)], cd = top + homes[r.below(6)];
  strcpy(shape_dir, sd.c_str()); strcpy(colour_dir, cd.c_str());
  Side<Shape, shape_dir> s;
  Side<Colour, colour_dir> c;
  const int lives = 1 + int(r.below(3));
  for (int l = 0; l < lives; ++l)
  {
    const bool both = r.chance(50);
    s.start(r);
    if (both) c.start(r);
    if (r.chance(75)) s.initialize(r);
    const int ops = int(r.below(16));
    for (int i = 0; i < ops; ++i)
    {
      if (both && r.chance(40)) c.op(r); else s.op(r);
    }
    const bool s_first = r.chance(50);
    if (s_first) s.stop();
    if (both)
    {
      if (s_first) { for (int i = 0; i < 3; ++i) c.op(r); c.instances(); }
      c.stop();
    }
    if (!s_first) { s.op(r); s.instances(); s.stop(); }
    MON_CHECK(alive.empty(), "not-destroyed", alive.size() << " instances live in the end");
    MON_CHECK(mapped() == 0, "still-loaded", mapped() << " libraries of the plugin directories are still loaded in the end");
    mon::stat("obs.lives");
  }
  if (mon::want_sample()) mon::sample(what.str());
  if (system(("rm -rf '" + top + "'").c_str()) != 0) mon::broken("rm");
}

void mon::run_case(uint64_t, Rng& r) { mon::in_child([&]() { life(r); }); }
void mon::setup()
{
  icl_core::config::setValue("/IclCore/Logging/OutputStream1/OutputStreamName", "None");
  il::LoggingManager::instance().initialize();
}
void mon::teardown() { il::LoggingManager::instance().shutdown(); }
