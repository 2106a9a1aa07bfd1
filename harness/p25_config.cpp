// P25: configuration files and command lines against a key-value model; every configuration in its own process.
#include "mon.h"
#include <iostream>
#include "icl_core_config/Config.h"
using namespace icl_core::config;
typedef std::map<std::string, std::string> Map;

namespace {
std::string dir;        // of this case
void spit(const std::string& f, const std::string& s) { FILE *h = fopen(f.c_str(), "wb"); if (!h || fwrite(s.data(), 1, s.size(), h) != s.size()) mon::broken("write " + f); fclose(h); }
std::string words(mon::Rng& r)
{
  static const std::vector<std::string> w = { "a", "value", "1", "0x1F", "3.5", "-7", "<tag>", "&amp;", "R&D", "\"q\"", "it's", "\xc3\xa4\xc3\xb6", "/", "${HOME}", "x=y", "]]", "--", "yes", "true", ".*" };
  std::string s; size_t n = 1 + r.below(3);
  for (size_t i = 0; i < n; ++i) { if (i) s += ' '; s += r.chance(80) ? r.pick(w) : r.str("abcXYZ019_-+.,;:", 1, 12); }
  return s;
}
std::string encode(mon::Rng& r, const std::string& t)
{
  std::string s;
  for (size_t i = 0; i < t.size(); ++i)
  {
    unsigned char c = (unsigned char)t[i];
    char b[16];
    if (c == '&') s += "&amp;";
    else if (c == '<') s += "&lt;";
    else if (c == '>') s += r.chance(50) ? "&gt;" : "&#62;";
    else if (c == '"' && r.chance(50)) s += "&quot;";
    else if (c == '\'' && r.chance(50)) s += "&apos;";
    else if (c > 32 && c < 127 && r.chance(4)) { snprintf(b, sizeof b, r.chance(50) ? "&#%u;" : "&#x%X;", unsigned(c)); s += b; }
    else if (c == ' ') { s += r.chance(80) ? " " : r.chance(50) ? "\n   " : " \t "; }
    else s += char(c);
  }
  return s;
}
std::string ws(mon::Rng& r) { return r.chance(60) ? "" : r.chance(50) ? "\n  " : " "; }
struct Done { std::string full, here; Map m; };
struct Doc { unsigned nodes, files, includes, max_depth; bool cyclic; std::vector<Done> done; unsigned again; };
// Writes one element's content and notes what it defines; events in document order.
std::string content(mon::Rng& r, const std::string& key, Map& m, Doc& d, const std::string& here, unsigned depth, const std::vector<std::string>& open);
std::string name(mon::Rng& r)
{
  static const std::vector<std::string> n = { "a", "b", "Name", "x-y", "v1.2", "_u", "Include", "INCLUDES", "configfile", "List", "Entry1", "ns:tag" };
  return r.pick(n);
}
std::string tree_body(mon::Rng& r, const std::string& key, Map& m, Doc& d, unsigned depth)
{
  // An attribute tree file; every name at most once per node.
  std::string s; size_t n = 1 + r.below(4);
  std::set<std::string> used;
  for (size_t i = 0; i < n; ++i)
  {
    std::string k = "n" + std::to_string(i) + r.str("abc", 0, 2);
    ++d.nodes;
    std::string in(depth * 2, ' ');
    if (depth < 3 && r.chance(40)) { s += in + k + "{\n"; if (r.chance(40)) { std::string v = words(r); s += in + "  :" + v + "\n"; m[key + "/" + k] = v; } s += tree_body(r, key + "/" + k, m, d, depth + 1) + in + "}\n"; }
    else { std::string v = words(r); s += in + k + ":" + v + "\n"; m[key + "/" + k] = v; }
    if (r.chance(15)) s += in + "# comment:x\n";
  }
  return s;
}
std::string xml_file(mon::Rng& r, Map& m, Doc& d, const std::string& here, const std::string& file, std::vector<std::string> open)
{
  open.push_back(file);
  std::string s;
  if (r.chance(70)) s += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  if (r.chance(30)) s += "<!-- <a>comment</a> -->\n";
  std::string root = r.chance(90) ? name(r) : "INCLUDE";
  s += "<" + root + (r.chance(20) ? " attr=\"no key\"" : "") + ">";
  s += content(r, "", m, d, here, 0, open);
  s += "</" + root + ">" + (r.chance(50) ? "\n" : "");
  return s;
}
void write_included(mon::Rng& r, Map& m, Doc& d, const std::string& full, const std::vector<std::string>& open)
{
  std::string here = full.substr(0, full.rfind('/') + 1);
  bool tree = full.size() > 5 && (full.compare(full.size() - 5, 5, ".tree") == 0 || full.find(".AttributeTree") != std::string::npos);
  std::string s = tree ? tree_body(r, "", m, d, 0) : xml_file(r, m, d, here, full, open);
  spit(full, s);
}
std::string content(mon::Rng& r, const std::string& key, Map& m, Doc& d, const std::string& here, unsigned depth, const std::vector<std::string>& open)
{
  if (depth > d.max_depth) d.max_depth = depth;
  std::string s;
  size_t n = depth ? r.below(4) : 1 + r.below(5);
  bool text_last = false;       // two texts in a row would be one
  for (size_t i = 0; i < n; ++i)
  {
    ++d.nodes;
    switch (r.below(10))
    {
    case 0: case 1: case 2:
      if (text_last) s += "<!--sep-->";
      { std::string t = words(r); s += ws(r) + encode(r, t) + ws(r); m[key] = t; text_last = true; }
      break;
    case 3: s += ws(r) + "<!-- <b>no</b> & -->" + ws(r); text_last = false; break;
    case 4: if (r.chance(50)) { std::string t = words(r); s += "<![CDATA[" + t + "]]>"; m[key] = t; text_last = false; } break;
    case 5:
      if (d.includes < 5 && r.chance(60))
      {
        ++d.includes;
        text_last = false;
        std::string inc;
        switch (r.below(8))
        {
        case 0: inc = "missing.xml"; break;                              // only reported
        case 1: spit(here + "broken.xml", r.chance(50) ? "<a><b></a>" : "<a><b>x"); inc = "broken.xml"; break;
        case 2:                                                          // a file that is being read
        {
          d.cyclic = true;
          const std::string& f = open[r.below(open.size())];
          inc = f.compare(0, here.size(), here) == 0 ? f.substr(here.size()) : "../" + f.substr(f.rfind('/') + 1);
          if (f.compare(0, here.size(), here) != 0 && here.substr(0, here.size() - 4) + f.substr(f.rfind('/') + 1) != f) inc = "missing.xml";
          else if (r.chance(40)) inc = "./" + inc;
          break;
        }
        default:
        {
          std::string sub = r.chance(30) ? "sub/" : "";
          if (!sub.empty()) mkdir((here + sub).c_str(), 0755);
          inc = sub + "inc" + std::to_string(d.files++) + (r.chance(70) ? ".xml" : r.chance(50) ? ".tree" : ".AttributeTree");
          std::vector<size_t> known;
          for (size_t q = 0; q < d.done.size(); ++q) if (d.done[q].here == here) known.push_back(q);
          if (!known.empty() && r.chance(40))
          {
            // the same file once more
            const Done& f = d.done[r.pick(known)];
            inc = f.full.substr(here.size());
            for (Map::const_iterator q = f.m.begin(); q != f.m.end(); ++q) m[q->first] = q->second;
            ++d.again;
            break;
          }
          const bool cyclic = d.cyclic;
          d.cyclic = false;
          Done f; f.full = here + inc; f.here = here;
          write_included(r, f.m, d, here + inc, open);
          for (Map::const_iterator q = f.m.begin(); q != f.m.end(); ++q) m[q->first] = q->second;
          if (!d.cyclic) d.done.push_back(f);
          d.cyclic = d.cyclic || cyclic;
        }
        }
        s += ws(r) + "<INCLUDE>" + ws(r) + encode(r, inc) + ws(r) + "</INCLUDE>" + ws(r);
        break;
      }
      // fall through
    default:
    {
      text_last = false;
      std::string k = name(r);
      if (depth >= 6 || r.chance(8)) s += ws(r) + "<" + k + "/>" + ws(r);
      else { s += ws(r) + "<" + k + (r.chance(10) ? " x='1' y=\"&lt;\"" : "") + ">"; s += content(r, key + "/" + k, m, d, here, depth + 1, open); s += "</" + k + ">" + ws(r); }
    }
    }
  }
  return s;
}
std::string show(const Map& m) { std::string s; for (Map::const_iterator i = m.begin(); i != m.end(); ++i) s += i->first + "=" + mon::q(i->second, 60) + " "; return s; }
Map contents()
{
  Map m;
  for (ConfigIterator it = icl_core::config::find(".*"); it.next(); )
    if (it.key().find("_ATTRIBUTE_TREE_FILE_") == std::string::npos) { if (m.count(it.key())) mon::viol("twice", "key " + it.key() + " listed twice"); m[it.key()] = it.value(); }
  return m;
}
void one(mon::Rng& r)
{
  std::ostringstream err, out;
  Map m;
  Doc d = { 0, 0, 0, 0, false, {}, 0 };
  std::vector<std::string> a(1, "prog");
  std::string text, file, kind = "none";
  int expect = 1;               // 1: initializes, 0: does not
  unsigned k = unsigned(r.below(100));
  if (k < 70)
  {
    kind = "xml"; file = dir + (r.chance(80) ? "config.xml" : "config");
    text = xml_file(r, m, d, dir, file, std::vector<std::string>());
    spit(file, text);
  }
  else if (k < 82) { kind = "tree"; file = dir + (r.chance(50) ? "c.tree" : "c.AttributeTree"); text = tree_body(r, "", m, d, 0); spit(file, text); }
  else if (k < 92)
  {
    kind = "bad"; expect = 0;
    file = dir + "bad" + (r.chance(80) ? ".xml" : ".tree");
    Map no;
    switch (r.below(5))
    {
    case 0: break;                                                       // there is none
    case 1: if (file.find(".tree") == std::string::npos) { text = "<a><b>text</c></a>"; spit(file, text); } break;
    case 2: if (file.find(".tree") == std::string::npos) { text = xml_file(r, no, d, dir, file, std::vector<std::string>()); text = text.substr(0, text.rfind("</")); spit(file, text); } break;
    case 3: if (file.find(".tree") != std::string::npos) mkdir(file.c_str(), 0755); break;   // (TinyXML itself cannot stand a directory)
    default: spit(file, ""); if (file.find(".tree") != std::string::npos) unlink(file.c_str());
    }
  }
  if (!file.empty())
  {
    std::string f = file;
    if (r.chance(50)) { if (chdir(dir.c_str()) != 0) mon::broken("chdir"); f = f.substr(dir.size()); if (r.chance(30)) f = "./" + f; }
    if (r.chance(50)) { a.push_back("-c"); a.push_back(f); } else a.push_back("--configfile=" + f);
    m["/configfile"] = f;
  }
  // Declared parameters: some in the file, some given, some with defaults.
  struct Par { std::string opt, sh, key, def, val; bool given; };
  std::vector<Par> pars; std::vector<Par> pos;
  static const std::vector<std::string> keys = { "/a", "/b", "/Name/a", "/param/one", "/param/two", "/List/Entry1", "/n0", "/a/b" };
  auto dflt = [&r](const char *what, size_t i) -> std::string {
    switch (r.below(8))
    {
      case 0: mon::stat("obs.short_defaults"); return r.pick(std::vector<std::string>{ "0", "d", " ", "/", "-", "\"" });
      case 1: mon::stat("obs.odd_defaults"); return words(r);
      case 2: return r.str("abc /=:-<&", 1, 200);
      case 3: return what + std::to_string(i);
      default: return "";
    }
  };
  size_t np = r.below(4);
  for (size_t i = 0; i < np; ++i)
  {
    Par p = { "opt" + std::to_string(i), r.chance(50) ? std::string(1, char('p' + i)) : "", r.chance(90) ? r.pick(keys) : "", dflt("default ", i), "", r.chance(50) };
    bool flag = r.chance(25);
    if (p.given)
    {
      p.val = flag ? "yes" : r.chance(12) ? "" : words(r);
      if (!flag && p.val.empty()) mon::stat("obs.empty_values");
      if (flag) a.push_back("--" + p.opt);
      else if (!p.sh.empty() && r.chance(50)) { a.push_back("-" + p.sh); a.push_back(p.val); }
      else a.push_back("--" + p.opt + "=" + p.val);
    }
    icl_core::config::addParameter(ConfigParameter(p.opt + (flag ? "" : ":"), p.sh, p.key, "help", p.def));
    pars.push_back(p);
  }
  size_t nq = r.below(3), given = r.below(nq + 1);
  for (size_t i = 0; i < nq; ++i)
  {
    Par p = { "pos" + std::to_string(i), "", r.chance(90) ? r.pick(keys) : "", dflt("pdefault", i), "", i < given };
    if (p.given) { p.val = r.chance(12) ? "" : "position " + std::to_string(i); a.push_back(p.val); }
    icl_core::config::addParameter(ConfigPositionalParameter(p.opt, p.key, "help", true, p.def));
    pos.push_back(p);
  }
  for (int g = 0; g < 2; ++g)
    for (size_t i = 0; i < (g ? pos : pars).size(); ++i)
    {
      const Par& p = (g ? pos : pars)[i];
      if (p.key.empty()) continue;
      if (p.given) m[p.key] = p.val; else if (!m.count(p.key) && !p.def.empty()) m[p.key] = p.def;
    }
  Map overrides; size_t no = r.chance(50) ? 0 : 1 + r.below(3);
  for (size_t i = 0; i < no; ++i)
  {
    std::string key = r.chance(90) ? r.pick(keys) : "/new/key" + std::to_string(i), v = r.chance(10) ? "" : words(r);
    if (r.chance(50)) a.push_back("--config-option" + key + "=" + v); else { a.push_back("-o" + key); a.push_back(v); }
    m[key] = v;
  }
  std::string all; for (size_t i = 0; i < a.size(); ++i) all += mon::q(a[i], 80) + " ";
  std::string ctx = all + "with file " + mon::q(text, 1500);
  mon::phase("initializing " + ctx);
  std::vector<char *> av; for (size_t i = 0; i < a.size(); ++i) av.push_back(strdup(a[i].c_str())); av.push_back(NULL);
  int ac = int(a.size());
  std::streambuf *e = std::cerr.rdbuf(err.rdbuf()), *o = std::cout.rdbuf(out.rdbuf());
  bool ok = icl_core::config::initialize(ac, &av[0]);
  std::cerr.rdbuf(e);
  MON_CHECK(ok == (expect == 1), ok ? "accepted" : "refused", (ok ? "accepted " : "refused ") << ctx << ": " << err.str());
  MON_CHECK(ConfigManager::instance().isInitialized() == ok, "initialized", "isInitialized() is " << !ok << " for " << ctx);
  if (ok)
  {
    mon::phase("reading " + ctx);
    Map got = contents();
    if (got != m)
      for (Map::iterator i = got.begin(), j = m.begin(); ; )
      {
        if (i != got.end() && (j == m.end() || i->first < j->first)) mon::viol("extra", "key " + i->first + " = " + mon::q(i->second) + " from nowhere in " + ctx);
        if (j != m.end() && (i == got.end() || j->first < i->first)) mon::viol("missing", "key " + j->first + " = " + mon::q(j->second) + " not defined by " + ctx);
        if (i->second != j->second) mon::viol("value", "key " + i->first + " is " + mon::q(i->second) + " instead of " + mon::q(j->second) + " for " + ctx);
        ++i; ++j;
      }
    for (Map::iterator i = m.begin(); i != m.end(); ++i)
    {
      icl_core::String v = "unset";
      MON_CHECK(icl_core::config::get<icl_core::String>(i->first, v) && v == i->second, "get", "get(" << i->first << ") gives " << mon::q(v) << " instead of " << mon::q(i->second));
      MON_CHECK(icl_core::config::getDefault<icl_core::String>(i->first, "dflt") == i->second, "get", "getDefault(" << i->first << ")");
    }
    icl_core::String v = "unset";
    MON_CHECK(!icl_core::config::get<icl_core::String>(icl_core::String("/no/such/key"), v) && v == "unset", "get", "a missing key was found");
    icl_core::config::dump();
    for (Map::iterator i = m.begin(); i != m.end(); ++i) MON_CHECK(out.str().find("\n" + i->first + " = '" + i->second + "'\n") != std::string::npos, "dump", "the dump lacks " << i->first);
    mon::stat("obs.keys", m.size());
    mon::stat("obs.initialized");
  }
  else
  {
    MON_CHECK(!err.str().empty(), "silent", "no message about " << ctx);
    mon::stat("obs.refused");
  }
  std::cout.rdbuf(o);
  mon::stat("obs.includes", d.includes);
  mon::stat("obs.included_again", d.again);
  if (d.cyclic) mon::stat("obs.cyclic");
  if (np + nq + no) mon::stat("obs.overlays");
  mon::stat_max("nodes", d.nodes);
  mon::state(mon::Hash().add(all).add(text));
  if (mon::want_sample()) mon::sample(ctx.substr(0, 500) + " -> " + show(m).substr(0, 400));
}
} // namespace

namespace mon {
void setup() { }
void teardown() { }
void run_case(uint64_t, Rng& r)
{
  for (int k = 0; k < 6; ++k)
  {
    dir = cfg().scratch + "/d" + std::to_string(k) + "/";
    mkdir(dir.c_str(), 0755);
    Rng cr(r.next());
    in_child([&]() { one(cr); });
    std::string rm = "/bin/rm -rf " + cfg().scratch + "/d" + std::to_string(k);
    if (system(rm.c_str()) != 0) broken(rm);
  }
}
}
