// C11: histories of reconfigurations and requests on one manager.
#include "mgr.hpp"
#include <deque>

namespace vf {
const char* const property_id = "C11";
void harness_init() { default_step_budget = 400000000; }
void harness_done() {}

typedef tinygettext::Dictionary Dict;
typedef tinygettext::DictionaryManager Mgr;

struct Held { Dict* d; Sig sig; };

void run_case(uint64_t index, Rng& rng) {
  LogScope log;
  static const std::vector<std::string> charsets = {"UTF-8", "ISO-8859-1", "UTF-16LE", "ASCII"};
  auto data = std::make_shared<MemData>();
  int ndirs = rng.range(1, 4);
  std::vector<std::string> pool;
  { std::vector<std::string> all = some_langs(); size_t at = rng.below(static_cast<uint32_t>(all.size())); for (int i = 0; i < 6; ++i) pool.push_back(all[(at + static_cast<size_t>(i)) % all.size()]); }
  bool wide = rng.rarely(4);           // a long search path
  bool crowd = !wide && rng.rarely(6);          // many languages of one manager
  if (crowd) {
    pool.clear();
    for (int i = 0; i < n_langs; ++i) if (lang_of(ref_str(i)).str() == ref_str(i)) pool.push_back(ref_str(i));
    rng.shuffle(pool);
    pool.resize(static_cast<size_t>(rng.range(40, static_cast<int>(pool.size()))));
    ndirs = rng.range(1, 2);
    count("crowds_of_languages");
  }
  std::vector<std::string> dirs;
  for (int i = 0; i < ndirs; ++i) {
    std::string d = rng.chance(10) ? std::string("/x y/d") + std::to_string(i) : "d" + std::to_string(i);
    dirs.push_back(d);
    auto& v = data->dirs[d];
    std::set<std::string> names;
    for (int f = crowd ? rng.range(10, 40) : rng.range(0, 5); f > 0; --f) {
      std::string n = rng.pick(pool) + ".po";
      if (!names.insert(n).second) continue;
      CatOpt o; o.tag = d + "/" + n; o.fuzzy = 25; o.latin = true;
      o.charset = rng.chance(50) ? "UTF-8" : "ISO-8859-1";
      if (rng.chance(70)) o.rule = plural_rules[rng.below(n_plural_rules)];
      v.emplace_back(n, render(rng, random_entries(rng, o), o.charset, o.rule));
    }
    if (rng.chance(30)) v.emplace_back("README", "no catalog");
    rng.shuffle(v);
  }
  std::string charset = rng.pick(charsets);
  std::deque<std::string> path;
  bool fuzzy = true;
  std::string current;
  std::string hist = show_fs(*data) + "charset " + charset + "\n";
  describe(hist);
  std::unique_ptr<Mgr> m(new Mgr(std::unique_ptr<tinygettext::FileSystem>(new MemFS(data)), charset));
  std::map<std::string, Held> held;           // language -> object handed out since the last reconfiguration
  uint64_t h = hash_str(hist);
  auto note = [&](const std::string& s) { hist += s + "\n"; h = hash_str(s, h); describe(hist); };
  if (wide) {
    for (int i = rng.range(30, 400); i > 0; --i) {
      std::string d = "empty" + std::to_string(i);
      data->dirs[d];
      m->add_directory(d);
      path.push_back(d);
    }
    hist += "and " + std::to_string(path.size()) + " directories without catalogs\n";
    count("long_search_paths");
  }
  auto fresh = [&](const std::string& lang) {
    Mgr f(std::unique_ptr<tinygettext::FileSystem>(new MemFS(data)), charset);
    for (auto& d : path) f.add_directory(d);
    if (!fuzzy) f.set_use_fuzzy(false);
    if (lang.empty()) return signature(f.get_dictionary());
    return signature(f.get_dictionary(lang_of(lang)));
  };
  bool all_now = false;
  auto check_held = [&](const std::string& why) {
    if (crowd && !all_now && !rng.rarely(25)) return;
    for (auto& x : held) {
      Sig s = signature(*x.second.d);
      if (!(s == x.second.sig)) { fail("dictionary-changed", "dictionary of " + x.first + " changed after " + why + ": " + x.second.sig.first_difference(s)); return; }
      count("held_dictionaries_rechecked");
    }
  };
  auto judge = [&](const std::string& lang, Dict& d, const std::string& how) {
    Sig got = signature(d);
    Sig want = fresh(lang);
    count("dictionaries_compared_with_fresh_manager");
    if (!(got == want)) { fail("stale", how + " of " + lang + " differs from a new manager: " + want.first_difference(got)); return; }
    if (!got.msgs.empty()) count("nonempty_dictionaries");
    auto it = held.find(lang);
    if (it == held.end()) held[lang] = Held{&d, got};
    else {
      count("repeated_requests");
      if (it->second.d != &d) fail("other-object", how + " of " + lang + " returned another object without a reconfiguration");
    }
  };
  int steps_n = opt.thorough ? rng.sized(5, 60, 600, 10) : rng.sized(4, 25, 250, 10);
  if (crowd) steps_n = rng.range(150, 350);
  bool reconfigured_with_held = false;
  for (int s = 0; s < steps_n && !case_failed(); ++s) {
    int k = static_cast<int>(rng.below(100));
    bool reconf = false;
    if (crowd && (k < 34 || k >= 93) && !rng.rarely(20)) k = 70;
    if (k < 14) {
      std::string d = rng.pick(dirs); bool prec = rng.chance(40);
      note("add_directory " + d + (prec ? " precedence" : ""));
      bool by_default = !prec && rng.chance(50);
      if (by_default) m->add_directory(d); else m->add_directory(d, prec);
      // what changes nothing leaves the dictionaries handed out as they are
      if (std::find(path.begin(), path.end(), d) == path.end()) { if (prec) path.push_front(d); else path.push_back(d); reconf = true; }
      else { count("directories_added_again"); check_held("adding a directory again"); }
    } else if (k < 22) {
      std::string d = rng.pick(dirs);
      note("remove_directory " + d);
      m->remove_directory(d);
      auto it = std::find(path.begin(), path.end(), d);
      if (it != path.end()) { path.erase(it); reconf = true; }
      else { count("unknown_directories_removed"); check_held("removing a directory that is not on the path"); }
    } else if (k < 28) {
      charset = rng.pick(charsets);
      note("set_charset " + charset);
      m->set_charset(charset);
      reconf = true;
    } else if (k < 34) {
      fuzzy = rng.chance(50);
      note(std::string("set_use_fuzzy ") + (fuzzy ? "true" : "false"));
      m->set_use_fuzzy(fuzzy);
      if (m->get_use_fuzzy() != fuzzy) fail("fuzzy-getter", "get_use_fuzzy does not return what was set");
      reconf = true;
    } else if (k < 48) {
      current = rng.chance(12) ? "" : rng.pick(pool);
      note("set_language " + (current.empty() ? "undefined" : current));
      m->set_language(current.empty() ? tinygettext::Language() : lang_of(current));
      if (m->get_language().str() != current) fail("language-getter", "get_language gives " + m->get_language().str() + " after setting " + current);
      count("language_changes");
      check_held("set_language");
    } else if (k < 68) {
      note("get_dictionary()");
      Dict& d = m->get_dictionary();
      if (current.empty()) {
        count("requests_without_language");
        Sig got = signature(d);
        if (!got.msgs.empty()) fail("no-language-not-empty", "without a language the dictionary has " + std::to_string(got.msgs.size()) + " messages");
        for (auto& id : {"id0", "id3", "", "some text"})
          if (d.translate(id) != id || d.translate_ctxt("c0", id) != id || d.translate_plural(id, "p", 1) != id || d.translate_plural(id, "p", 7) != "p" || d.translate_ctxt_plural("c0", id, "p", 2) != "p")
            fail("no-language-lookup", "without a language a lookup of " + quote(id) + " is not the identity");
      } else judge(current, d, "get_dictionary()");
      check_held("get_dictionary()");
    } else if (k < 93) {
      std::string l = rng.pick(pool);
      note("get_dictionary " + l);
      judge(l, m->get_dictionary(lang_of(l)), "get_dictionary");
      check_held("get_dictionary(" + l + ")");
    } else {
      note("get_languages");
      std::set<tinygettext::Language> a = m->get_languages();
      Mgr f(std::unique_ptr<tinygettext::FileSystem>(new MemFS(data)), charset);
      for (auto& d : path) f.add_directory(d);
      if (a != f.get_languages()) fail("stale-languages", "get_languages differs from a new manager");
      count("language_lists_compared");
      check_held("get_languages");
    }
    if (reconf) { if (!held.empty()) reconfigured_with_held = true; held.clear(); count("reconfigurations"); }
  }
  all_now = true;
  if (!case_failed()) check_held("the whole history");
  if (!case_failed() && !current.empty()) judge(current, m->get_dictionary(), "final get_dictionary()");
  if (reconfigured_with_held) { count("histories_reconfigured_after_use"); nontrivial(h); }
  if (index % 1000 == 0) sample(hist);
  m.reset();
}
} // namespace vf
