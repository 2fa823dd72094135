// C13: choice of the catalog of each directory; with VF_C14, the list of languages.
#include "mgr.hpp"

namespace vf {
#ifdef VF_C14
const char* const property_id = "C14";
#else
const char* const property_id = "C13";
#endif
void harness_init() { default_step_budget = 200000000; }
void harness_done() {}

static std::string random_name(Rng& rng, int li) {
  // mostly names around the requested language
  std::string l = lang_rows[li].lang, c, mod;
  int k = static_cast<int>(rng.below(100));
  if (k < 60) {
    std::vector<int> same;
    for (int i = 0; i < n_langs; ++i) if (l == lang_rows[i].lang) same.push_back(i);
    int r = rng.pick(same);
    c = lang_rows[r].country; mod = lang_rows[r].modifier;
    if (rng.chance(15)) c = rng.chance(50) ? "" : "ZZ";
    if (rng.chance(15)) mod = rng.chance(50) ? "" : "strange";
  } else if (k < 80) {
    int r = static_cast<int>(rng.below(static_cast<uint32_t>(n_langs)));
    l = lang_rows[r].lang; c = lang_rows[r].country; mod = lang_rows[r].modifier;
  } else {
    static const std::vector<std::string> odd = {
      ".po", "po", "x.po", "README", "messages.pot", "xx.po", "xx_YY.po", "Makefile", "a", "", "ab", "deu.po", "de.mo", "de.po~", "de.PO", "po.", "..po", "d.po", "de", "fr", "tlh", "DE.po", "De.po",
      "german.po", "C.po", "POSIX.po", "0.po", "-.po", "de-AT.po", "\xc3\xa9.po", "po.po", ".po.po", "_.po", "@.po", "_DE.po", "@latin.po", ".UTF-8.po"};
    std::string o = rng.pick(odd);
    if (rng.chance(25)) o = l + (rng.chance(50) && *lang_rows[li].country ? std::string("_") + lang_rows[li].country : "") + (rng.chance(30) ? ".po.bak" : rng.chance(30) ? ".pot" : rng.chance(50) ? ".mo" : rng.chance(50) ? "po" : "");
    return o;
  }
  if (rng.chance(25)) c = ascii_lower(c);
  else if (rng.chance(10) && c.size() == 2) c = c.substr(0, 1) + ascii_lower(c.substr(1));
  std::string n = l;
  if (!c.empty()) n += "_" + c;
  if (rng.chance(25)) { static const std::vector<std::string> cs = {".UTF-8", ".utf8", ".ISO-8859-1", ".eucJP", ".", ".po", ".1"}; n += rng.pick(cs); if (rng.chance(12)) for (int k = rng.range(10, 230); k > 0; --k) n += "abcXYZ0189-"[rng.below(11)]; }
  if (!mod.empty()) n += "@" + mod;
  return n + ".po";
}

void run_case(uint64_t index, Rng& rng) {
  LogScope log;
  auto data = std::make_shared<MemData>();
  int li = index % 2 ? static_cast<int>((index / 2) % static_cast<uint64_t>(n_langs)) : static_cast<int>(rng.below(static_cast<uint32_t>(n_langs)));
  // half of the cases: languages with many variants
  if (rng.chance(40)) { static const std::vector<std::string> v = {"de_AT", "pt_BR", "ca_ES@valencia", "ca@valencia", "sr@latin", "sr", "en_US@piglatin", "en_US", "en@quot", "zh_TW", "uz@cyrillic", "be@latin", "es_MX", "nl_NL", "de"}; int r = ref_from_env(rng.pick(v)); if (r >= 0) li = r; }
  std::string lang = ref_str(li);
  int ndirs = rng.sized(1, 4, 40, 10);
  std::vector<std::string> dirs;
  for (int i = 0; i < ndirs; ++i) {
    std::string d = rng.chance(10) ? "de_DE.po" + std::to_string(i) : "dir" + std::to_string(i);
    dirs.push_back(d);
    auto& files = data->dirs[d];
    std::set<std::string> seen;
    for (int f = ndirs > 4 ? rng.range(0, 12) : rng.sized(0, 12, 600, 10); f > 0; --f) {
      std::string n = random_name(rng, li);
      if (n.empty() || !seen.insert(n).second) continue;
      LangParts p = ref_split(ref_file_lang(n));
      if (ends_with_po(n) && ref_best(p.l, p.c, p.m).size() > 1) { count("ambiguous_names_skipped"); continue; }
      std::string body = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\nmsgid \"file:" + d + "/" + n + "\"\nmsgstr \"yes\"\n\nmsgid \"which:" + d + "\"\nmsgstr \"" + n + "\"\n\nmsgid \"shared\"\nmsgstr \"" + d + "/" + n + "\"\n";
      files.emplace_back(n, body);
    }
    if (rng.rarely(ndirs > 4 ? 1 : 5)) {      // among a lot of other files
      int others = rng.sized(20, 300, 40000, 500);
      static const std::vector<std::string> tail = {".png", "", ".mo", ".pot", ".txt", ".po~", ".po.bak"};
      std::string t = rng.pick(tail), stem = rng.chance(50) ? "img" : rng.chance(50) ? "." : "msg_";
      for (int f = 0; f < others; ++f) files.emplace_back(stem + std::to_string(f) + t, "msgid \"file:" + d + "/other\"\nmsgstr \"yes\"\n");
      count("crowded_directories");
    }
    rng.shuffle(files);
  }
  std::string desc = "language " + lang + "\n";
  for (auto& x : data->dirs) { desc += x.first + ":"; for (auto& f : x.second) desc += " " + quote(f.first); desc += "\n"; }
  describe(desc);
  if (index % 1000 == 0) sample(desc);
  tinygettext::DictionaryManager m(std::unique_ptr<tinygettext::FileSystem>(new MemFS(data)));
  for (auto& d : dirs) m.add_directory(d);
  tinygettext::Language L = real_lang(li);
  if (L.str() != lang) { fail("language-unknown", "from_spec gives " + quote(L.str()) + " for " + lang); return; }
#ifndef VF_C14
  for (auto& x : data->dirs)
    for (auto& f : x.second) {
      std::string want = ref_file_lang(f.first);
      bool late = f.first.find('_') != std::string::npos && f.first.find_first_of(".@") < f.first.find('_');
      if (late) continue;
      std::string got = m.convertFilename2Language(f.first);
      if (got != want) fail("file-name-conversion", "convertFilename2Language(" + quote(f.first) + ") = " + quote(got) + " expected " + quote(want));
      count("file_names_converted");
    }
  tinygettext::Dictionary& d = m.get_dictionary(L);
  Msgs got = dump(d);
  int ties = 0;
  for (auto& dir : dirs) {
    int best = 0; std::set<std::string> ok;
    for (auto& f : data->dirs[dir]) {
      int r = ref_file(f.first);
      int s = r < 0 ? 0 : ref_match(li, r);
      if (s > best) { best = s; ok.clear(); }
      if (s && s == best) ok.insert(f.first);
    }
    std::set<std::string> used;
    for (auto& g : got) { std::string p = "file:" + dir + "/"; if (g.first.id.compare(0, p.size(), p) == 0) used.insert(g.first.id.substr(p.size())); }
    std::string us; for (auto& u : used) us += quote(u) + " ";
    std::string os; for (auto& u : ok) os += quote(u) + " ";
    if (ok.empty()) { count("directories_without_match"); if (!used.empty()) fail("foreign-file-used", "directory " + dir + " contributed " + us + "although nothing matches " + lang); continue; }
    count("directories_with_match");
    if (ok.size() > 1) ++ties;
    if (used.empty()) { fail("no-file-used", "directory " + dir + " contributed nothing to " + lang + ", best files " + os); continue; }
    if (used.size() > 1) fail("several-files-used", "directory " + dir + " contributed " + us + "to " + lang);
    for (auto& u : used) if (!ok.count(u)) fail("not-the-best-file", "directory " + dir + " contributed " + u + " to " + lang + ", best files " + os);
    std::string w = d.translate("which:" + dir);
    if (!used.count(w)) fail("lookup-other-file", "lookup in directory " + dir + " gives " + quote(w) + " used " + us);
    if (best < 9) count("inexact_matches");
    count("candidates_per_directory", data->dirs[dir].size());
  }
  if (ties) count("ties");
  nontrivial(hash_str(desc));
#else
  std::set<int> want;
  for (auto& x : data->dirs) for (auto& f : x.second) { int r = ref_file(f.first); if (r >= 0) want.insert(r); }
  std::set<std::string> ws, gs;
  for (int w : want) ws.insert(ref_str(w));
  std::set<tinygettext::Language> got = m.get_languages();
  for (auto& g : got) {
    if (!g) fail("undefined-language-listed", "get_languages contains an undefined language");
    else if (!gs.insert(g.str()).second) fail("listed-twice", g.str() + " is listed twice");
  }
  for (auto& w : ws) if (!gs.count(w)) fail("language-missing", w + " is not listed");
  for (auto& g : gs) if (!ws.count(g)) fail("language-invented", g + " is listed but no file denotes it");
  count("languages_listed", gs.size());
  count("lists");
  for (auto& g : got) {
    if (!g) continue;
    bool by_set = rng.chance(50);
    if (by_set) m.set_language(g);
    tinygettext::Dictionary& d = by_set ? m.get_dictionary() : m.get_dictionary(g);
    std::string from;
    bool found = false;
    Msgs ms = dump(d);
    for (auto& e : ms) {
      if (e.first.id.compare(0, 5, "file:") != 0) continue;
      from += e.first.id + " ";
      size_t sl = e.first.id.find('/');
      int r = ref_file(e.first.id.substr(sl + 1));
      if (r >= 0 && ref_str(r) == g.str()) found = true;
    }
    if (!found) fail("listed-language-unusable", "the dictionary of listed language " + g.str() + " was loaded from " + from);
    count("listed_languages_loaded");
  }
  if (m.get_languages() != got) fail("list-unstable", "get_languages changed after loading dictionaries");
  // the list must also follow the search path
  if (!dirs.empty() && rng.chance(50)) {
    std::string gone = rng.pick(dirs);
    m.remove_directory(gone);
    std::set<std::string> w2, g2;
    for (auto& x : data->dirs) if (x.first != gone) for (auto& f : x.second) { int r = ref_file(f.first); if (r >= 0) w2.insert(ref_str(r)); }
    for (auto& g : m.get_languages()) g2.insert(g.str());
    g2.erase("");
    if (w2 != g2) fail("list-after-removal", "after removing " + gone + " the list has " + std::to_string(g2.size()) + " languages, expected " + std::to_string(w2.size()));
    count("lists_after_removal");
  }
  if (!want.empty()) nontrivial(hash_str(desc));
#endif
}
} // namespace vf
