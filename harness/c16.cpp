// C16: resolution of language names; with VF_C17, match scores.
#include <cstring>
#include "model.hpp"
#include <unordered_map>
#include <unordered_set>

namespace vf {
typedef tinygettext::Language L;
#ifndef VF_C17
const char* const property_id = "C16";
void harness_init() {}
void harness_done() {}

static bool in_best(const L& got, const LangParts& p, std::string& want) {
  std::set<int> b = ref_best(p.l, p.c, p.m);
  if (b.empty()) { want = "undefined"; return !got; }
  for (int i : b) { want += ref_str(i) + " "; if (got && got.str() == ref_str(i)) return true; }
  return false;
}
static std::string junk(Rng& rng, int max) {
  static const std::vector<std::string> bits = {"_", ".", "@", "-", " ", "UTF-8", "latin", "DE", "de", "\xc3\xa9", "\xff", "0", "\n", "ISO_8859-1", "a", "Z", "=", "/"};
  std::string s;
  for (int n = rng.range(0, max); n > 0; --n) s += rng.pick(bits);
  return s;
}
static std::string free_of(std::string s, const char* bad) { std::string r; for (char c : s) if (!strchr(bad, c)) r += c; return r; }

void run_case(uint64_t index, Rng& rng) {
  if (index < static_cast<uint64_t>(n_langs)) {
    int i = static_cast<int>(index);
    std::string s = ref_str(i);
    describe("known language " + s);
    LangParts p{lang_rows[i].lang, lang_rows[i].country, lang_rows[i].modifier};
    L a = L::from_spec(p.l, p.c, p.m);
    if (!a) { fail("known-undefined", s + " is not known"); return; }
    VF_CHECK(a.str() == s, "known-other", s + " gives " + a.str());
    VF_CHECK(a.get_language() == p.l && a.get_country() == p.c && a.get_modifier() == p.m, "parts", s << " has parts " << a.get_language() << "," << a.get_country() << "," << a.get_modifier());
    VF_CHECK(L::from_env(a.str()) == a, "env-round-trip", s << " through from_env gives " << L::from_env(a.str()).str());
    VF_CHECK(L::from_name(a.str()) == a, "name-round-trip", s << " through from_name gives " << L::from_name(a.str()).str());
    VF_CHECK(L::from_spec(a.get_language(), a.get_country(), a.get_modifier()) == a, "spec-round-trip", s << " through its parts gives " << L::from_spec(a.get_language(), a.get_country(), a.get_modifier()).str());
    VF_CHECK(!a.get_name().empty() && !a.get_localized_name().empty(), "no-name", s << " has no name");
    for (auto& cs : {".UTF-8", ".ISO-8859-15", ".", ".a_B", ".utf8.x"}) {
      std::string t = p.l + (p.c.empty() ? "" : "_" + p.c) + cs + (p.m.empty() ? "" : "@" + p.m);
      VF_CHECK(L::from_env(t) == a, "codeset-matters", t << " gives " << L::from_env(t).str());
    }
    L b = a; L c; c = b;
    VF_CHECK(b == a && c == a && !(c != a), "copy", s << " copies are not equal");
    count("known_languages");
    nontrivial(hash_str(s));
    return;
  }
  if (index < static_cast<uint64_t>(n_langs + n_aliases)) {
    auto& a = alias_rows[index - static_cast<uint64_t>(n_langs)];
    describe(std::string("alias ") + a.alias);
    std::set<int> ok; { LangParts p = ref_split(a.target); ok = ref_best(p.l, p.c, p.m); }
    for (int k = 0; k < 12; ++k) {
      std::string s = a.alias;
      if (k == 1) s = ascii_upper(s);
      if (k > 1) for (char& c : s) if (rng.chance(50)) { std::string u(1, c); c = ascii_upper(u)[0]; }
      L got = L::from_name(s);
      std::string want; bool good = false;
      for (int i : ok) { want += ref_str(i) + " "; if (got.str() == ref_str(i)) good = true; }
      if (!good) { fail("alias", "from_name(" + quote(s) + ") gives " + quote(got.str()) + " expected " + want); return; }
      count("aliases_resolved");
    }
    nontrivial(hash_str(std::string("alias") + a.alias));
    return;
  }
  // what the program's own environment says does not matter
  if (rng.chance(10)) {
    static const char* const vars[] = {"LANGUAGE", "LANG", "LC_ALL", "LC_MESSAGES", "LC_CTYPE"};
    for (auto& v : vars) if (rng.chance(50)) setenv(v, rng.chance(20) ? "C" : rng.chance(20) ? "" : (ref_str(static_cast<int>(rng.below(static_cast<uint32_t>(n_langs)))) + (rng.chance(50) ? ".UTF-8" : ":fr:de")).c_str(), 1); else unsetenv(v);
    count("other_environments");
  }
  std::string s;
  LangParts p;
  bool grammatical = false;
  static const std::vector<std::string> known_elsewhere = {
    "iw", "in", "ji", "mo", "jw", "sh", "no", "tl", "POSIX", "C", "c", "posix", "C.UTF-8", "POSIX.UTF-8", "default", "system", "auto", "none", "en", "eng", "deu", "ger", "fra", "fre", "zho", "chi", "english_us", "chinese_simplified",
    "zh_Hans", "zh_Hant", "zh-Hans", "zh_CHS", "zh_HANS", "sr_Latn", "sr_Cyrl", "sr_LATN_RS", "en_UK", "en_USA", "en_GBR", "de_DEU", "pt_BRA", "es_419", "es_001", "sr_YU", "sr_CS", "zh_TWN", "en_U", "de_D", "nb", "nn", "nb_NO", "nn_NO",
    "i-klingon", "x-pig", "tlh", "root", "und", "mul", "zxx", "mis", "de:fr", "de;q=0.8", "de,en", "cn", "jp", "kr", "cz", "dk", "gr", "tw", "br", "us", "uk", "gb", "en-US", "de-AT", "deu_DE", "fil", "fil_PH", "he", "id", "yi", "ro"};
  bool elsewhere = false;
  int k = static_cast<int>(rng.below(100));
  if (k < 70 && rng.chance(12)) {
    // every code of two letters in turn, and names that mean something to others
    if (rng.chance(50)) { uint32_t c = static_cast<uint32_t>(index % 676); s += static_cast<char>('a' + c / 26); s += static_cast<char>('a' + c % 26); if (rng.chance(40)) s += "_" + std::string(lang_rows[rng.below(static_cast<uint32_t>(n_langs))].country); }
    else s = rng.pick(known_elsewhere);
    if (rng.chance(15)) s += ".UTF-8";
    if (rng.chance(10)) s += "@euro";
    if (rng.chance(10)) s = ascii_upper(s);
    p = ref_split(s);
    elsewhere = true;
    count("names_known_elsewhere");
  } else if (k < 70) {
    int r = static_cast<int>(rng.below(static_cast<uint32_t>(n_langs))), r2 = static_cast<int>(rng.below(static_cast<uint32_t>(n_langs)));
    p.l = rng.chance(88) ? std::string(lang_rows[r].lang) : rng.chance(30) ? "xx" : rng.chance(50) ? free_of(vary(rng, lang_rows[r].lang), "_.@") : free_of(junk(rng, 3), "_.@");
    p.c = rng.chance(60) ? lang_rows[r].country : rng.chance(60) ? lang_rows[r2].country : rng.chance(30) ? "ZZ" : rng.chance(40) ? free_of(vary(rng, lang_rows[r].country), ".@") : rng.chance(40) ? std::string(lang_rows[r].country) + static_cast<char>(rng.range('A', 'Z')) : free_of(junk(rng, 3), ".@");
    p.m = rng.chance(60) ? lang_rows[r].modifier : rng.chance(60) ? std::string(rng.chance(50) ? "latin" : lang_rows[r2].modifier) : rng.chance(35) ? "euro" : rng.chance(50) ? vary(rng, lang_rows[r].modifier) : junk(rng, 3);
    std::string cs = rng.chance(50) ? "" : rng.chance(60) ? ".UTF-8" : "." + free_of(junk(rng, 3), "@");
    s = p.l;
    if (!p.c.empty()) s += "_" + p.c; else if (rng.chance(5)) s += "_";
    s += cs;
    if (rng.chance(15)) {       // an underscore and a real country where it means nothing
      std::vector<std::string> cc;
      for (int i = 0; i < n_langs; ++i) if (p.l == lang_rows[i].lang && *lang_rows[i].country) cc.push_back(lang_rows[i].country);
      std::string x = cc.empty() ? "DE" : rng.pick(cc);
      if (rng.chance(50)) { if (cs.empty()) cs = ".x"; cs += "_" + x; s = p.l + (p.c.empty() ? "" : "_" + p.c) + cs; }
      else p.m += "_" + x;
      count("underscore_elsewhere");
    }
    if (!p.m.empty()) s += "@" + p.m; else if (rng.chance(5)) s += "@";
    grammatical = true;
  } else if (k < 85) {
    s = junk(rng, 8);
    p = ref_split(s);
  } else if (k < 95) {
    // random bytes, also longer ones and NUL
    for (int n = rng.range(0, rng.chance(5) ? 3000 : 20); n > 0; --n) s += static_cast<char>(rng.below(256));
  } else {
    s = alias_rows[rng.below(static_cast<uint32_t>(n_aliases))].alias;
    if (rng.chance(40)) s = vary(rng, s);
    else if (rng.chance(60)) s.insert(rng.chance(50) ? rng.below(static_cast<uint32_t>(s.size() + 1)) : rng.chance(70) ? s.size() : 0, 1, " \t\n\rx_.@\v,/"[rng.below(11)]);
    else s.erase(rng.below(static_cast<uint32_t>(s.size())), 1);
    p = ref_split(s);
  }
  (void)elsewhere;
  describe("name " + quote(s));
  if (index % 1000 == 0) sample(quote(s));
  L got = L::from_env(s);
  L named = L::from_name(s);
  (void)got.str(); (void)named.str(); (void)got.get_name(); (void)named.get_localized_name();
  count("names_resolved");
  if (s.find('\0') != std::string::npos) { count("names_with_nul"); return; }     // only has to be safe
  if (k >= 85 && k < 95) p = ref_split(s);
  std::string want;
  if (!in_best(got, p, want)) fail(grammatical ? "from-env" : "from-env-odd", "from_env(" + quote(s) + ") gives " + quote(got.str()) + " expected " + want);
  want.clear();
  if (!in_best(L::from_spec(p.l, p.c, p.m), p, want)) fail("from-spec", "from_spec(" + quote(p.l) + "," + quote(p.c) + "," + quote(p.m) + ") gives " + quote(L::from_spec(p.l, p.c, p.m).str()) + " expected " + want);
  std::string low = ascii_lower(s);
  const char* target = nullptr;
  for (auto& a : alias_rows) if (low == a.alias) target = a.target;
  LangParts np = target ? ref_split(target) : p;
  want.clear();
  if (!in_best(named, np, want)) fail("from-name", "from_name(" + quote(s) + ") gives " + quote(named.str()) + " expected " + want);
  if (got) { count("resolved"); if (got.get_country() != p.c || got.get_modifier() != p.m) count("resolved_to_another_variant"); }
  else count("undefined");
  nontrivial(hash_str(s));
}
#else
const char* const property_id = "C17";
static std::vector<L> all;
static std::set<int> scores[3][3];
void harness_init() {
  for (int i = 0; i < n_langs; ++i) {
    L l = real_lang(i);
    if (l.str() != ref_str(i)) l = L::from_env(ref_str(i));
    if (l.str() != ref_str(i)) l = L::from_name(ref_str(i));
    all.push_back(l);
  }
  all.push_back(L());
}
void harness_done() {}
static int cat(const std::string& a, const std::string& b) { return a == b ? 0 : a.empty() || b.empty() ? 1 : 2; }
static const char* catname[] = {"equal", "unspecified", "different"};

void run_case(uint64_t index, Rng& rng) {
  // one language against all others; then random selections
  size_t i = index % all.size();
  const L& a = all[i];
  describe("language " + a.str() + " against all others");
  if (index % 300 == 0) sample("language " + a.str() + " against all " + std::to_string(all.size()));
  // the exact match is the best one: every known language must be found under its own parts
  if (i < static_cast<size_t>(n_langs) && a.str() != ref_str(static_cast<int>(i))) fail("exact-match-not-best", "no way to name " + ref_str(static_cast<int>(i)) + " gives it, the best match is said to be " + quote(a.str()));
  std::string rec;
  std::map<int, std::pair<int, int>> local[3];      // modifier category -> country category -> min,max score
  int seen[3][3] = {{0}};
  L copy = a;
  for (size_t j = 0; j < all.size(); ++j) {
    const L& b = all[(j + index / all.size()) % all.size()];
    int s = L::match(a, b), r = L::match(b, a);
    std::string who = a.str() + " / " + b.str() + ": ";
    bool same_code = a.get_language() == b.get_language();
    int c = cat(a.get_country(), b.get_country()), m = cat(a.get_modifier(), b.get_modifier());
    count("pairs");
    if (s != r) fail("asymmetric", who + std::to_string(s) + " and reversed " + std::to_string(r));
    if ((s == 0) != !same_code) fail("zero", who + "score " + std::to_string(s));
    if (s < 0 || s > 9) fail("range", who + "score " + std::to_string(s));
    if (same_code && (s == 9) != (c == 0 && m == 0)) fail("nine", who + "score " + std::to_string(s) + " country " + catname[c] + " modifier " + catname[m]);
    if (s > L::match(a, a)) fail("better-than-itself", who + "score " + std::to_string(s) + " itself " + std::to_string(L::match(a, a)));
    // equality, ordering, hash
    bool eq = a == b, lt = a < b, gt = b < a;
    if ((a != b) == eq) fail("inequality", who + "== and != agree");
    if (eq + lt + gt != 1) fail("ordering", who + "equal " + std::to_string(eq) + " less " + std::to_string(lt) + " greater " + std::to_string(gt));
    if (eq != (a.str() == b.str())) fail("equality", who + "equality does not follow the string form");
    if (eq && tinygettext::Language_hash()(a) != tinygettext::Language_hash()(b)) fail("hash", who + "equal but different hashes");
    if (tinygettext::Language_hash()(a) != tinygettext::Language_hash()(copy) || !(copy == a) || copy < a || a < copy) fail("copy", who + "a copy differs");
    if (same_code) {
      count("pairs_of_one_code");
      ++seen[c][m];
      scores[c][m].insert(s);
      rec += static_cast<char>('0' + s);
    }
  }
  // monotone: all scores seen so far, by category
  for (int m = 0; m < 3; ++m)
    for (int c = 0; c + 1 < 3; ++c)
      for (int d = c + 1; d < 3; ++d) {
        if (!scores[c][m].empty() && !scores[d][m].empty() && *scores[c][m].begin() <= *scores[d][m].rbegin())
          fail("country-order", std::string("modifier ") + catname[m] + ": country " + catname[c] + " scores " + std::to_string(*scores[c][m].begin()) + ", " + catname[d] + " scores " + std::to_string(*scores[d][m].rbegin()));
        if (!scores[m][c].empty() && !scores[m][d].empty() && *scores[m][c].begin() <= *scores[m][d].rbegin())
          fail("modifier-order", std::string("country ") + catname[m] + ": modifier " + catname[c] + " scores " + std::to_string(*scores[m][c].begin()) + ", " + catname[d] + " scores " + std::to_string(*scores[m][d].rbegin()));
      }
  for (int c = 0; c < 3; ++c) for (int m = 0; m < 3; ++m) if (seen[c][m]) count(std::string("country_") + catname[c] + "_modifier_" + catname[m], static_cast<uint64_t>(seen[c][m]));
  // containers agree with equality
  std::set<L> os; std::unordered_set<L, tinygettext::Language_hash> us; std::set<std::string> names;
  for (int k = 0; k < 40; ++k) {
    const L& b = all[rng.below(static_cast<uint32_t>(all.size()))];
    L route = !b ? b : rng.chance(50) ? L::from_env(b.str()) : L::from_spec(b.get_language(), b.get_country(), b.get_modifier());
    os.insert(route); us.insert(route); names.insert(b.str());
    const L& x = all[rng.below(static_cast<uint32_t>(all.size()))]; const L& y = all[rng.below(static_cast<uint32_t>(all.size()))];
    if (b < x && x < y && !(b < y)) fail("not-transitive", b.str() + " < " + x.str() + " < " + y.str());
    if (b == x && x == y && !(b == y)) fail("not-transitive", b.str() + " == " + x.str() + " == " + y.str());
  }
  if (os.size() != names.size() || us.size() != names.size()) fail("containers", "set " + std::to_string(os.size()) + " unordered_set " + std::to_string(us.size()) + " names " + std::to_string(names.size()));
  count("containers_compared");
  nontrivial(hash_str(a.str() + "/" + rec + "/" + std::to_string(index / all.size())));
}
#endif
} // namespace vf
