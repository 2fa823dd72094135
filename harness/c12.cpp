// C12: priority of the directories on the search path.
#include "mgr.hpp"
#include <deque>

namespace vf {
const char* const property_id = "C12";
void harness_init() { default_step_budget = 2000000000; }
void harness_done() {}

void run_case(uint64_t index, Rng& rng) {
  LogScope log;
  auto data = std::make_shared<MemData>();
  int li = static_cast<int>(rng.below(static_cast<uint32_t>(n_langs)));
  if (rng.chance(50)) li = ref_from_env(rng.pick(some_langs()));
  std::string lang = ref_str(li), base = lang_rows[li].lang;
  std::string rule = plural_rules[rng.below(n_plural_rules)];
  std::vector<int> variants;
  for (int i = 0; i < n_langs; ++i) if (base == lang_rows[i].lang) variants.push_back(i);
  int ndirs = rng.range(rng.chance(80) ? 2 : 1, rng.chance(10) ? 9 : 5);
  if (rng.rarely(10)) ndirs = rng.sized(5, 9, 600, 1000);
  std::vector<std::string> dirs;
  bool mixed = rng.chance(12);
  if (mixed) count("mixed_kinds");
  std::map<std::string, std::vector<Entry>> content;     // directory -> messages of its matching catalog
  for (int i = 0; i < ndirs; ++i) {
    std::string d = "dir" + std::to_string(i);
    if (i && rng.chance(10)) d = dirs.back() + "/sub";
    if (i && ndirs < 20 && rng.chance(10)) {      // names that are almost the same
      std::string near = rng.chance(40) ? ascii_upper(rng.pick(dirs)) : vary(rng, rng.pick(dirs));
      if (!near.empty() && near.back() != '/') { d = near; count("similar_directory_names"); }
    }
    while (std::find(dirs.begin(), dirs.end(), d) != dirs.end()) d += "x";
    dirs.push_back(d);
    auto& files = data->dirs[d];
    if (rng.chance(90)) {
      CatOpt o; o.tag = d; o.mixed = mixed; o.untranslated = 20; o.max_messages = 14; o.ids = 4;
      content[d] = random_entries(rng, o);
      bool header = rng.chance(85);
      // the catalog need not be an exact match, and worse ones may lie beside it
      int r = rng.chance(50) ? li : rng.pick(variants);
      files.emplace_back(ref_str(r) + ".po", render(rng, content[d], "UTF-8", rule, header));
      if (r != li) count("inexact_catalogs");
      for (int w : variants)
        if (ref_match(li, w) < ref_match(li, r) && rng.chance(25)) {
          CatOpt ow; ow.tag = d + "-worse";
          files.emplace_back(ref_str(w) + ".po", render(rng, random_entries(rng, ow), "UTF-8", rule));
        }
    }
    if (rng.chance(40)) { CatOpt o; o.tag = d + "-other"; files.emplace_back(std::string(base == "fr" ? "de" : "fr") + ".po", render(rng, random_entries(rng, o), "UTF-8", "")); }
    rng.shuffle(files);
  }
  std::string hist = show_fs(*data) + "language " + lang + "\n";
  describe(hist);
  std::deque<std::string> path;
  tinygettext::DictionaryManager m(std::unique_ptr<tinygettext::FileSystem>(new MemFS(data)));
  uint64_t h = hash_str(hist);
  int n = rng.range(ndirs, ndirs + (opt.thorough ? 40 : 12));
  bool overlap = false;
  for (int s = 0; s < n && !case_failed(); ++s) {
    int k = static_cast<int>(rng.below(100));
    if (s < ndirs && (rng.chance(70) || (ndirs > 20 && !rng.rarely(30)))) k = 0;        // most directories are added early
    if (k < 50) {
      std::string d = s < ndirs && rng.chance(60) ? dirs[static_cast<size_t>(s)] : rng.pick(dirs); bool prec = rng.chance(40);
      hist += "add_directory " + d + (prec ? " precedence\n" : "\n"); describe(hist);
      if (prec) m.add_directory(d, true); else if (rng.chance(50)) m.add_directory(d, false); else m.add_directory(d);
      if (std::find(path.begin(), path.end(), d) == path.end()) { if (prec) path.push_front(d); else path.push_back(d); }
      else count("directories_added_again");
      if (prec) count("additions_with_precedence");
    } else if (k < 65) {
      std::string d = rng.pick(dirs);
      hist += "remove_directory " + d + "\n"; describe(hist);
      m.remove_directory(d);
      auto it = std::find(path.begin(), path.end(), d);
      if (it != path.end()) { path.erase(it); count("directories_removed"); }
    }
    if (k >= 65 || s == n - 1) {
      hist += "get_dictionary\n"; describe(hist);
      RefDict want;
      std::map<MsgKey, bool> plural;
      for (auto p = path.rbegin(); p != path.rend(); ++p)
        for (auto& e : content[*p]) { Strs v; if (e.stored(v)) { if (want.msgs.count(e.key())) { overlap = true; count("messages_in_several_directories"); } want.msgs[e.key()] = v; plural[e.key()] = e.plural; } }
      tinygettext::Dictionary& d = m.get_dictionary(real_lang(li));
      Msgs got = dump(d);
      // further forms of a losing plural entry may stay behind a winning singular one
      if (mixed) for (auto& g : got) if (want.msgs.count(g.first) && !plural[g.first] && g.second.size() > 1) g.second.resize(1);
      std::string df = diff(want.msgs, got);
      if (!df.empty()) {
        std::string ps; for (auto& x : path) ps += x + " ";
        fail("priority-" + diff_key(want.msgs, got), "search path " + ps + ": " + df);
      }
      for (auto& e : want.msgs) {
        if (plural[e.first]) {
          bool known = false;
          for (auto& f : e.second) if (lookup_plural(d, e.first, "s", 1) == f || f.empty()) known = true;
          if (!known && lookup_plural(d, e.first, "s", 1) != e.first.id) fail("priority-plural-lookup", show(e.first) + " plural lookup gives " + quote(lookup_plural(d, e.first, "s", 1)) + " which is no form of the winning catalog");
        } else if (lookup(d, e.first) != e.second[0]) fail("priority-lookup", show(e.first) + " gives " + quote(lookup(d, e.first)) + " expected " + quote(e.second[0]));
      }
      count("dictionaries_compared");
      count("messages_compared", want.msgs.size());
    }
  }
  for (auto& s : hist) h = (h ^ static_cast<unsigned char>(s)) * 1099511628211ull;
  if (overlap) nontrivial(h);
  if (index % 1000 == 0) sample(hist);
}
} // namespace vf
