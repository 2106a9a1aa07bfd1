// P11: KeyValueDirectory against std::map and std::regex.
#include "mon.h"
#include <regex>
#include "icl_core/KeyValueDirectory.h"

// Random regular expressions whose meaning (including the groups) is the same in the ECMAScript and Perl grammars.
static std::string atom(mon::Rng& r)
{
  switch (r.below(8))
  {
    case 0: return ".";
    case 1: return "[ab]";
    case 2: return "\\.";
    case 3: return "[^/]";
    case 4: return "/";
    case 5: return "[0-9]";
    default: return std::string(1, "abc1"[r.below(4)]);
  }
}
static std::string quant(mon::Rng& r) { static const char *q[] = { "", "", "", "*", "+", "?" }; return q[r.below(6)]; }
static std::string sequence(mon::Rng& r, int depth)
{
  std::string s;
  size_t n = r.below(4) + (depth ? 1 : 0);
  for (size_t i = 0; i < n; ++i)
  {
    if (depth < 2 && r.chance(25)) s += "(" + sequence(r, depth + 1) + (r.chance(40) ? "|" + sequence(r, depth + 1) : "") + ")";
    else s += atom(r) + quant(r);
  }
  return s;
}

template <class T> static T value_of(mon::Rng& r);
template <> int value_of<int>(mon::Rng& r) { return int(r.next()); }
template <> std::string value_of<std::string>(mon::Rng& r) { return r.str("abc \n", 0, 12); }

template <class T> static void history(mon::Rng& r, const char *type)
{
  icl_core::KeyValueDirectory<T> dir;
  std::map<std::string, T> model;
  std::string trace = std::string(type) + ": ";
  size_t ops = 5 + r.below(40);
  for (size_t o = 0; o < ops; ++o)
  {
    std::string key = r.chance(5) ? "" : r.str(r.chance(50) ? "ab1/." : "abc", 0, 5);
    unsigned k = unsigned(r.below(10));
    if (k < 5)
    {
      T v = value_of<T>(r);
      bool fresh = !model.count(key);
      bool got = dir.insert(key, v);
      model[key] = v;
      trace += "insert(" + key + ") ";
      MON_CHECK(got == fresh, "insert", "insert reported " << got << "; " << trace);
      mon::stat(fresh ? "obs.inserted" : "obs.replaced");
    }
    else if (k < 7)
    {
      T v = value_of<T>(r);
      const T before = v;
      bool got = dir.get(key, v);
      MON_CHECK(got == (model.count(key) != 0) && dir.hasKey(key) == got, "get", "get/hasKey(" << mon::q(key) << ") reported " << got << "; " << trace);
      MON_CHECK(v == (got ? model[key] : before), "get-value", "get(" << mon::q(key) << ") gave another value; " << trace);
      mon::stat("obs.gets");
      mon::state(mon::Hash().add(1).add(got).add(model.size()));
    }
    else
    {
      std::string query = r.chance(10) ? key : r.chance(20) ? ".*" : sequence(r, 0);
      std::regex re(query);
      std::vector<std::pair<std::string, std::vector<std::string> > > want;
      for (typename std::map<std::string, T>::const_iterator it = model.begin(); it != model.end(); ++it)
      {
        std::smatch m;
        if (!std::regex_match(it->first, m, re)) continue;
        std::vector<std::string> g;
        for (size_t i = 0; i < m.size(); ++i) g.push_back(m[i].str());
        want.push_back(std::make_pair(it->first, g));
      }
      icl_core::KeyValueDirectoryIterator<T> it = dir.find(query);
      const std::string ctx = "find(" + mon::q(query) + ") over " + std::to_string(model.size()) + " keys; ";
      size_t rounds = 1 + r.below(3);
      for (size_t round = 0; round < rounds; ++round)
      {
        size_t stop = round + 1 < rounds && r.chance(50) ? r.below(want.size() + 1) : want.size() + 1;
        size_t n = 0;
        while (n < stop && it.next())
        {
          MON_CHECK(n < want.size(), "find-surplus", ctx << "visited " << mon::q(it.key()) << " as entry " << n << " of " << want.size() << "; " << trace);
          MON_CHECK(it.key() == want[n].first, "find-key", ctx << "visited " << mon::q(it.key()) << " instead of " << mon::q(want[n].first) << "; " << trace);
          MON_CHECK(it.value() == model[want[n].first], "find-value", ctx << "wrong value at " << mon::q(it.key()) << "; " << trace);
          for (size_t g = 0; g < want[n].second.size() + 3; ++g)
          {
            std::string e = g < want[n].second.size() ? want[n].second[g] : "";
            MON_CHECK(it.matchGroup(g) == e, "find-group", ctx << "group " << g << " of " << mon::q(it.key()) << " is " << mon::q(it.matchGroup(g)) << " not " << mon::q(e));
          }
          mon::stat("obs.visited");
          ++n;
        }
        MON_CHECK(n == stop || n == want.size(), "find-missing", ctx << "visited only " << n << " of " << want.size() << " entries; " << trace);
        // there is nothing behind the last entry, however often one asks
        if (n < stop) for (size_t more = r.below(4); more > 0; --more)
        {
          MON_CHECK(!it.next(), "find-after-end", ctx << "after the last of " << want.size() << " entries next() gives " << mon::q(it.key()) << "; " << trace);
          mon::stat("obs.asked_after_the_end");
        }
        it.reset();
      }
      if (rounds > 1) mon::stat("obs.rewinds");
      mon::stat("obs.queries");
      mon::state(mon::Hash().add(2).add(query).add(want.size()));
      if (mon::want_sample() && want.size() > 1) mon::sample(ctx + std::to_string(want.size()) + " entries");
    }
  }
}

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t i, Rng& r)
{
  if (i % 2) history<int>(r, "int"); else history<std::string>(r, "string");
}
