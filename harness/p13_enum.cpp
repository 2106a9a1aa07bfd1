// P13: names of enumeration values.
#include "mon.h"
#include "icl_core/EnumHelper.h"

void mon::setup() { }
void mon::teardown() { }
void mon::run_case(uint64_t, Rng& r)
{
  for (int round = 0; round < 6; ++round)
  {
    std::vector<std::string> names;
    size_t n = r.chance(10) ? 0 : r.below(r.chance(10) ? 300 : 12);
    // long names may have most of their letters in common
    const std::string common = r.chance(30) ? r.str("abcXY_:", 0, r.chance(30) ? 300 : 40) : "";
    for (size_t i = 0; i < n; ++i) names.push_back(r.chance(5) ? "" : common + r.str(r.chance(50) ? "ab" : "abcdefgXY_ 12", 1, 8));
    std::string marker = r.chance(50) ? "" : r.str("ab", 1, 3);
    // exact heap copies, so that reading beyond a list or a text is seen
    std::vector<char *> texts;
    std::vector<const char *> *marked = new std::vector<const char *>(), *nulled = new std::vector<const char *>();
    size_t marked_n = n;
    for (size_t i = 0; i < n; ++i)
    {
      texts.push_back(strdup(names[i].c_str()));
      nulled->push_back(texts.back());
      if (names[i] == marker && i < marked_n) marked_n = i;
    }
    for (size_t i = 0; i < marked_n; ++i) marked->push_back(texts[i]);
    texts.push_back(strdup(marker.c_str()));
    marked->push_back(texts.back());
    nulled->push_back(NULL);
    marked->shrink_to_fit();
    nulled->shrink_to_fit();
    for (int ask = 0; ask < 10; ++ask)
    {
      std::string s;
      unsigned k = unsigned(r.below(6));
      if (k <= 2 && n) s = names[r.below(n)];
      else if (k == 3 && n) { s = names[r.below(n)]; if (r.chance(50)) s += "a"; else if (!s.empty()) s.erase(s.size() - 1); }
      else if (k == 4) s = marker;
      else s = (r.chance(30) ? common : "") + r.str("abXY", 0, 4);
      // a text with a zero character in it is none of the names
      const bool zero = k != 4 && r.chance(10);
      if (zero) { s += '\0'; if (r.chance(50)) s += r.str("ab", 1, 3); mon::stat("obs.zero_characters"); }
      if (r.chance(10) && !s.empty() && s[0] != 0x20) s[0] = char(s[0] ^ 0x20);
      std::set<size_t> where;
      for (size_t i = 0; i < n; ++i) if (names[i] == s) where.insert(i);
      for (int form = zero ? 2 : 0; form < 4; ++form)
      {
        const int64_t before = int32_t(r.next());
        int32_t v32 = int32_t(before);
        int64_t v64 = before + (int64_t(1) << 40), b64 = v64;
        bool got;
        size_t limit = form == 1 ? marked_n : n;
        mon::phase("string2Enum form " + std::to_string(form));
        if (form == 0) got = icl_core::string2Enum(s, v32, nulled->data());
        else if (form == 1) got = icl_core::string2Enum(s, v32, marked->data(), marker.c_str());
        else if (form == 2) got = icl_core::string2Enum(s, v32, names);
        else got = icl_core::string2Enum(s, v64, names);
        bool want = !where.empty() && *where.begin() < limit;
        int64_t v = form == 3 ? v64 : v32;
        const std::string ctx = "string2Enum(" + mon::q(s) + ") form " + std::to_string(form) + " over " + std::to_string(limit) + " names";
        MON_CHECK(got == want, "found", ctx << " returned " << got);
        if (got) MON_CHECK(v >= 0 && size_t(v) < limit && where.count(size_t(v)), "index", ctx << " gave index " << v);
        else MON_CHECK(v == (form == 3 ? b64 : before), "untouched", ctx << " changed the target to " << v);
        mon::stat(got ? "obs.found" : "obs.refused");
        mon::state(mon::Hash().add(form).add(got).add(std::min<size_t>(n, 30)).add(where.size()).add(k).add(want ? *where.begin() : 999));
        if (mon::want_sample() && got) mon::sample(ctx + " -> " + std::to_string(v));
      }
    }
    for (size_t i = 0; i < texts.size(); ++i) free(texts[i]);
    delete marked; delete nulled;
  }
}
