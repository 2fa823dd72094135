// C22: the fuzzy policy of a manager decides about fuzzy entries only.
#include "mgr.hpp"
#include <tinygettext/po_parser.hpp>
#include <deque>

namespace vf {
const char* const property_id = "C22";
void harness_init() { default_step_budget = 400000000; }
void harness_done() {}
using namespace tinygettext;

struct Item { Entry e; bool damaged = false; Text expect_tail; };
struct Cat { std::vector<Item> items; std::string charset, rule, bytes; };

static Cat make_cat(Rng& rng, const std::string& tag, std::map<std::string, uint64_t>& seen) {
  Cat c;
  c.charset = rng.chance(50) ? "UTF-8" : "ISO-8859-1";
  if (rng.chance(70)) c.rule = plural_rules[rng.below(n_plural_rules)];
  PoWriter w(rng, random_layout(rng));
  Entry h = header_entry(rng, c.charset, c.rule);
  h.fuzzy = rng.chance(50);
  if (h.fuzzy) seen["fuzzy_headers"]++;
  w.put_entry(h);
  w.put_separator();
  int fuzzy = rng.pick(std::vector<int>{10, 50, 50, 90, 100});
  int n = rng.sized(0, 9, 150, 10);
  for (int i = 0; i < n; ++i) {
    Item it;
    Entry& e = it.e;
    e.id = units("id" + std::to_string(rng.below(5)));
    e.has_ctxt = rng.chance(45);
    if (e.has_ctxt) e.ctxt = units(rng.chance(50) ? "c0" : "fuzzy");
    e.plural = kind_plural(e.key());
    e.id2 = units(join(e.id) + "s");
    e.fuzzy = rng.chance(fuzzy);
    bool empty = rng.chance(12);
    int forms = e.plural ? rng.range(1, 4) : 1;
    for (int f = 0; f < forms; ++f) {
      Text t = empty ? Text() : units(tag + "." + std::to_string(i) + ":" + std::to_string(f));
      if (!empty && rng.chance(40)) t.push_back(c.charset == "UTF-8" ? "\xc3\xa4" : "\xe4");
      if (!empty && e.plural && f && rng.chance(15)) t.clear();
      e.strs.emplace_back(f, t);
    }
    int k = static_cast<int>(rng.below(100));
    if (k < 8) {                 // an entry that is dropped for another reason, fuzzy or not
      it.damaged = true;
      if (e.fuzzy) w.put_fuzzy_flag();
      if (rng.chance(50)) { w.put_line("msgid \"" + join(e.id)); w.put_line("msgstr \"lost\""); }
      else { w.put_line("msgid \"" + join(e.id) + "\""); w.put_line("msgtxt \"lost\""); }
      w.put_blank();
      seen["damaged_entries"]++;
    } else if (k < 14) {
      e.obsolete = true; it.damaged = true;
      w.put_entry(e);
      w.put_blank();
      seen["obsolete_entries"]++;
    } else if (k < 18) {         // a flag that belongs to no entry
      it.damaged = true;
      w.put_line("#, fuzzy");
      w.put_blank();
      seen["detached_flags"]++;
    } else {
      if (e.fuzzy && rng.chance(25)) {   // flag lines before and after other comments
        w.put_line("#, c-format");
        w.put_comment(false);
        seen["several_flag_lines"]++;
      }
      w.put_entry(e);
      w.put_separator();
      if (e.fuzzy && !empty) { seen[e.plural ? (e.has_ctxt ? "fuzzy_plural_with_context" : "fuzzy_plural") : (e.has_ctxt ? "fuzzy_with_context" : "fuzzy_singular")]++; }
    }
    // what the loader stores, in UTF-8
    for (auto& s : e.strs) for (auto& u : s.second) if (u == "\xe4") u = "\xc3\xa4";
    c.items.push_back(it);
  }
  c.bytes = w.finish();
  return c;
}

static void apply(RefDict& ref, const Cat& c, bool policy) {
  for (auto& it : c.items) {
    if (it.damaged || (it.e.fuzzy && !policy)) continue;
    Strs s;
    if (!it.e.stored(s)) continue;
    if (it.e.plural) ref.add(it.e.key(), s); else ref.add(it.e.key(), s[0]);
  }
}

void run_case(uint64_t index, Rng& rng) {
  LogScope log;
  std::map<std::string, uint64_t> seen;
  auto data = std::make_shared<MemData>();
  std::map<std::string, std::map<std::string, Cat>> cats;       // directory, language
  std::vector<std::string> dirs;
  static const std::vector<std::string> langs = {"de", "fr", "de_AT"};
  for (int i = rng.range(1, 3); i > 0; --i) {
    std::string d = "d" + std::to_string(i);
    dirs.push_back(d);
    data->dirs[d];
    for (auto& l : {"de", "fr"}) {
      if (rng.chance(15)) continue;
      Cat c = make_cat(rng, d + l, seen);
      // the only catalog of its language, not always of the region asked for
      static const std::vector<std::string> de = {"de_AT", "de_CH", "de_DE"}, fr = {"fr_CA", "fr_CH", "fr_FR"};
      std::string file = rng.chance(60) ? std::string(l) : rng.pick(l[0] == 'd' ? de : fr);
      if (file != l) seen["catalogs_of_regions"]++;
      data->dirs[d].emplace_back(file + ".po", c.bytes);
      cats[d][l] = c;
    }
  }
  std::string hist = show_fs(*data, 3000);
  describe(hist);
  DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(data)), "UTF-8");
  bool policy = true;
  std::deque<std::string> path;
  VF_CHECK(m.get_use_fuzzy(), "default", "the fuzzy policy is off in a new manager");
  for (auto& d : dirs) { m.add_directory(d); path.push_back(d); }
  auto expected = [&](const std::string& lang, bool pol, std::string& rule) {
    RefDict ref;
    std::string l = lang.substr(0, 2);
    rule.clear();
    for (auto p = path.rbegin(); p != path.rend(); ++p) {
      auto c = cats[*p].find(l);
      if (c == cats[*p].end()) continue;
      apply(ref, c->second, pol);
      if (rule.empty()) rule = c->second.rule;
    }
    return ref;
  };
  auto judge = [&](const std::string& lang, Dictionary& d, const std::string& how) {
    std::string rule;
    RefDict ref = expected(lang, policy, rule);
    Msgs got = dump(d);
    std::string x = diff(ref.msgs, got);
    if (!x.empty()) { fail(std::string(policy ? "on-" : "off-") + diff_key(ref.msgs, got), how + ", policy " + (policy ? "on" : "off") + ": " + x + "\nlog: " + log.err_text()); return; }
    std::string want = "none";
    if (!rule.empty()) { PluralForms p = PluralForms::from_string(rule); Dictionary t; t.set_plural_forms(p); want = plural_sig(t); }
    if (plural_sig(d) != want) fail("header-lost", how + ", policy " + (policy ? "on" : "off") + ": the plural rule of the header is " + plural_sig(d) + " instead of " + want);
    for (auto& k : ref.msgs) if (!kind_plural(k.first) && lookup(d, k.first) != k.second[0]) fail("lookup", how + ": " + show(k.first) + " gives " + quote(lookup(d, k.first)));
    std::string r2;
    RefDict other = expected(lang, !policy, r2);
    count(policy ? "requests_with_policy_on" : "requests_with_policy_off");
    if (!(other.msgs == ref.msgs)) count("requests_where_the_policy_matters");
    if (!policy && !ref.msgs.empty()) count("other_entries_kept_with_policy_off");
  };
  int n = rng.range(3, 12);
  bool changed = false;
  for (int i = 0; i < n && !case_failed(); ++i) {
    int k = static_cast<int>(rng.below(10));
    if (k < 3) {
      bool to = rng.chance(55) ? !policy : policy;
      if (to != policy) changed = true;
      policy = to;
      hist += std::string("set_use_fuzzy ") + (policy ? "true\n" : "false\n");
      m.set_use_fuzzy(policy);
      count("policy_changes");
    } else if (k < 4) {
      std::string d = rng.pick(dirs);
      hist += "remove and add " + d + "\n";
      m.remove_directory(d); m.add_directory(d);
      path.erase(std::find(path.begin(), path.end(), d)); path.push_back(d);
    } else if (k < 6) {
      std::string l = rng.pick(langs);
      hist += "set_language " + l + ", get_dictionary()\n";
      describe(hist);
      m.set_language(lang_of(l));
      judge(l, m.get_dictionary(), "get_dictionary()");
    } else {
      std::string l = rng.pick(langs);
      hist += "get_dictionary " + l + "\n";
      describe(hist);
      judge(l, m.get_dictionary(lang_of(l)), "get_dictionary(" + l + ")");
    }
    describe(hist);
    VF_CHECK(m.get_use_fuzzy() == policy, "getter", "get_use_fuzzy() is not what was set last");
  }
  // a second manager is not affected, nor is a catalog loaded directly
  if (!case_failed() && rng.chance(30)) {
    bool keep = policy;
    DictionaryManager m2(std::unique_ptr<FileSystem>(new MemFS(data)), "UTF-8");
    for (auto& d : path) m2.add_directory(d);
    policy = true;
    judge("de", m2.get_dictionary(Language::from_spec("de")), "another manager");
    policy = keep;
    for (auto& d : cats) for (auto& c : d.second) {
      Dictionary dict;
      auto in = make_stream(c.second.bytes);
      POParser::parse("x.po", *in, dict);
      RefDict ref; apply(ref, c.second, true);
      std::string x = diff(ref.msgs, dump(dict));
      if (!x.empty()) fail("direct-load", "loading a catalog directly: " + x);
    }
    count("second_managers");
  }
  if (changed) count("histories_with_changes");
  for (auto& s : seen) count(s.first, s.second);
  nontrivial(hash_str(hist));
  if (index % 1500 == 0) sample(hist);
}
} // namespace vf
