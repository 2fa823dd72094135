// C09: fallback chains.
#include "pogen.hpp"
#include <tinygettext/dictionary_manager.hpp>

namespace vf {
const char* const property_id = "C09";
void harness_init() { default_step_budget = 600000000; }
void harness_done() {}

static void compare(const tinygettext::Dictionary& d, const RefDict& ref, const MsgKey& k, Rng& rng, const char* where) {
  std::string want = ref.translate(k), got = lookup(d, k);
  bool own = ref.msgs.count(k);
  if (got != want) fail(std::string(where) + (own ? "-overridden" : k.has_ctxt ? "-ctxt" : "-plain"), show(k) + " gave " + quote(got) + " expected " + quote(want));
  for (int i = 0; i < 3; ++i) {
    int n = i == 0 ? 1 : i == 1 ? 2 : rng.range(0, 130);
    want = ref.translate_plural(k, k.id + "s", n); got = lookup_plural(d, k, k.id + "s", n);
    if (got != want) fail(std::string(where) + (own ? "-plural-overridden" : k.has_ctxt ? "-ctxt-plural" : "-plural"), show(k) + " n=" + std::to_string(n) + " gave " + quote(got) + " expected " + quote(want));
  }
  count("lookups", 4);
  if (!own && want != k.id && want != k.id + "s") count("answered_by_fallback");
  if (own && ref.fallback && ref.fallback->msgs.count(k)) count("own_wins");
}

void run_case(uint64_t index, Rng& rng) {
  LogScope log;
  if (index % 2 == 0) {
    // chains of dictionaries
    int len = rng.sized(1, 5, 60, 60);
    std::vector<std::unique_ptr<tinygettext::Dictionary>> d;
    std::vector<RefDict> ref(static_cast<size_t>(len));
    std::string desc;
    int version = 0;
    auto add_one = [&](int i) {
      tinygettext::Dictionary& to = *d[static_cast<size_t>(i)];
      RefDict& r = ref[static_cast<size_t>(i)];
      MsgKey k{rng.chance(50), "", "id" + std::to_string(rng.below(4))};
      if (k.has_ctxt) k.ctxt = "c" + std::to_string(rng.below(2));
      std::string tag = "d" + std::to_string(i) + (version ? "v" + std::to_string(version) : "");
      if (rng.chance(40) || (r.msgs.count(k) && r.msgs[k].size() != 1)) {
        Strs v; for (int f = rng.range(1, 6); f > 0; --f) v.push_back(rng.chance(10) ? "" : tag + "f" + std::to_string(f));
        if (k.has_ctxt) to.add_translation(k.ctxt, k.id, k.id + "s", v); else to.add_translation(k.id, k.id + "s", v);
        r.add(k, v);
      } else {
        if (k.has_ctxt) to.add_translation(k.ctxt, k.id, tag); else to.add_translation(k.id, tag);
        r.add(k, tag);
      }
    };
    for (int i = 0; i < len; ++i) {
      d.emplace_back(new tinygettext::Dictionary);
      RefDict& r = ref[static_cast<size_t>(i)];
      if (rng.chance(70)) { std::string rule = plural_rules[rng.below(n_plural_rules)]; d.back()->set_plural_forms(tinygettext::PluralForms::from_string(rule)); r.rule.reset(new PluralExpr(rule)); desc += "dict " + std::to_string(i) + " " + rule + "\n"; }
      for (int m = rng.range(0, 8); m > 0; --m) add_one(i);
      desc += "dict " + std::to_string(i) + ":\n" + show(r.msgs);
    }
    for (int i = 0; i + 1 < len; ++i) { d[static_cast<size_t>(i)]->addFallback(d[static_cast<size_t>(i) + 1].get()); ref[static_cast<size_t>(i)].fallback = &ref[static_cast<size_t>(i) + 1]; }
    describe(desc);
    if (index % 1000 == 0) sample(desc);
    // afterwards the chain goes on living: additions anywhere, other fallbacks
    for (int round = rng.chance(40) ? 0 : rng.range(1, 3); round >= 0 && !case_failed(); --round) {
    if (version++) {
      for (int m = rng.range(0, 4); m > 0; --m) add_one(static_cast<int>(rng.below(static_cast<uint32_t>(len))));
      if (len > 1 && rng.chance(50)) {          // only forward, so that no cycle arises
        int i = rng.range(0, len - 2), to = rng.range(i + 1, len - 1);
        d[static_cast<size_t>(i)]->addFallback(d[static_cast<size_t>(to)].get());
        ref[static_cast<size_t>(i)].fallback = &ref[static_cast<size_t>(to)];
        count("fallbacks_replaced");
        desc += "dict " + std::to_string(i) + " now falls back to " + std::to_string(to) + "\n";
      }
      if (rng.chance(20)) {
        int i = static_cast<int>(rng.below(static_cast<uint32_t>(len)));
        std::string rule = plural_rules[rng.below(n_plural_rules)];
        d[static_cast<size_t>(i)]->set_plural_forms(tinygettext::PluralForms::from_string(rule));
        ref[static_cast<size_t>(i)].rule.reset(new PluralExpr(rule));
        desc += "dict " + std::to_string(i) + " now " + rule + "\n";
      }
      for (int i = 0; i < len; ++i) desc += "dict " + std::to_string(i) + " now:\n" + show(ref[static_cast<size_t>(i)].msgs);
      describe(desc);
      count("chains_changed");
    }
    for (int i = 0; i < len; ++i)
      for (int a = 0; a < 5; ++a) {
        compare(*d[static_cast<size_t>(i)], ref[static_cast<size_t>(i)], MsgKey{false, "", "id" + std::to_string(a)}, rng, "chain");
        for (int c = 0; c < 3; ++c) compare(*d[static_cast<size_t>(i)], ref[static_cast<size_t>(i)], MsgKey{true, "c" + std::to_string(c), "id" + std::to_string(a)}, rng, "chain");
      }
    }
    count("chains");
    nontrivial(hash_str(desc));
    return;
  }
  if (index % 4 == 3) {
    // many variants of one language, from one manager, in any order
    static std::vector<std::vector<int>> families;
    if (families.empty()) {
      std::map<std::string, std::vector<int>> by;
      for (int i = 0; i < n_langs; ++i) by[lang_rows[i].lang].push_back(i);
      for (auto& f : by) if (f.second.size() > 1) families.push_back(f.second);
    }
    std::vector<int> fam = rng.pick(families);
    auto data = std::make_shared<MemData>();
    std::map<int, RefDict> cat;
    std::string rule = plural_rules[rng.below(n_plural_rules)], desc;
    int share = rng.range(10, 95);
    for (int v : fam) {
      if (!rng.chance(share)) continue;
      RefDict& r = cat[v];
      r.rule.reset(new PluralExpr(rule));
      PoWriter w(rng, random_layout(rng));
      w.put_entry(header_entry(rng, "UTF-8", rule));
      w.put_separator();
      for (int m = rng.range(0, 5); m > 0; --m) {
        Entry e;
        e.id = units("id" + std::to_string(rng.below(4)));
        e.has_ctxt = rng.chance(30);
        if (e.has_ctxt) e.ctxt = units("c0");
        if (r.msgs.count(e.key())) continue;
        e.plural = (join(e.id).back() + e.has_ctxt) % 2;
        e.id2 = units(join(e.id) + "s");
        for (int f = 0; f < (e.plural ? 6 : 1); ++f) e.strs.emplace_back(f, units(ref_str(v) + "/" + std::to_string(f)));
        Strs s; e.stored(s); r.add(e.key(), s);
        w.put_entry(e); w.put_separator();
      }
      data->dirs["d0"].emplace_back(ref_str(v) + ".po", w.finish());
    }
    data->dirs["d0"];
    rng.shuffle(data->dirs["d0"]);
    auto best = [&](int v) { int at = -1, s = 0; bool tie = false; for (auto& c : cat) { int m = ref_match(v, c.first); if (m > s) { s = m; at = c.first; tie = false; } else if (m && m == s) tie = true; } return tie ? -2 : at; };
    int base = -1;
    for (int v : fam) if (!*lang_rows[v].country && !*lang_rows[v].modifier) base = v;
    tinygettext::DictionaryManager m(std::unique_ptr<tinygettext::FileSystem>(new MemFS(data)));
    m.add_directory("d0");
    for (auto& f : data->dirs["d0"]) desc += f.first + ": " + quote(f.second, 1500) + "\n";
    for (int k = rng.range(2, 12); k > 0 && !case_failed(); --k) {
      int v = rng.pick(fam);
      desc += "request " + ref_str(v) + "\n"; describe(desc);
      bool by_set = rng.chance(40);
      if (by_set) m.set_language(real_lang(v));
      tinygettext::Dictionary& d = by_set ? m.get_dictionary() : m.get_dictionary(real_lang(v));
      int own = best(v), under = base < 0 ? -1 : best(base);
      if (own == -2 || under == -2) { count("ambiguous_variants_skipped"); continue; }
      RefDict o, b;
      if (own >= 0) { o.msgs = cat[own].msgs; o.rule = cat[own].rule; }
      if (under >= 0) { b.msgs = cat[under].msgs; b.rule = cat[under].rule; }
      if (*lang_rows[v].country) o.fallback = &b;
      else if (*lang_rows[v].modifier) continue;          // (whether a mere modifier falls back is left open)
      reset_steps(20000000);
      for (int a = 0; a < 5; ++a) { compare(d, o, MsgKey{false, "", "id" + std::to_string(a)}, rng, "variants"); compare(d, o, MsgKey{true, "c0", "id" + std::to_string(a)}, rng, "variants"); }
      count("variants_of_one_manager");
    }
    nontrivial(hash_str(desc));
    return;
  }
  // manager over base and regional catalogs of every known language
  int li = static_cast<int>((index / 2) % static_cast<uint64_t>(n_langs));
  std::string base = lang_rows[li].lang, name = ref_str(li);
  bool regional = *lang_rows[li].country != 0;
  auto data = std::make_shared<MemData>();
  RefDict rb, rr;
  auto catalog = [&](const std::string& tag, RefDict& r, const std::string& rule) {
    PoWriter w(rng, random_layout(rng));
    w.put_entry(header_entry(rng, "UTF-8", rule));
    w.put_separator();
    if (!rule.empty()) r.rule.reset(new PluralExpr(rule));
    for (int m = rng.range(1, 7); m > 0; --m) {
      Entry e;
      e.id = units("id" + std::to_string(rng.below(4)));
      e.has_ctxt = rng.chance(50);
      if (e.has_ctxt) e.ctxt = units("c" + std::to_string(rng.below(2)));
      if (r.msgs.count(e.key())) continue;
      e.plural = (join(e.id).back() + (e.has_ctxt ? join(e.ctxt).back() : 0)) % 2;   // one kind per message
      e.id2 = units(join(e.id) + "s");
      for (int f = 0; f < (e.plural ? 6 : 1); ++f) e.strs.emplace_back(f, units(tag + std::to_string(f)));
      Strs s; e.stored(s);
      r.add(e.key(), s);
      w.put_entry(e); w.put_separator();
    }
    return w.finish();
  };
  std::string rule = plural_rules[rng.below(n_plural_rules)];
  bool have_base = rng.chance(85), have_reg = rng.chance(85);
  std::string desc = "language " + name + (have_base ? " base" : "") + (have_reg ? " regional" : "") + "\n";
  bool two_dirs = rng.chance(40);
  RefDict dummy;
  if (have_base) data->dirs["d0"].emplace_back(base + ".po", catalog("base", rb, rule));
  if (have_reg && name != base) data->dirs[two_dirs ? "d1" : "d0"].emplace_back(name + ".po", catalog("region", rr, rule));
  for (auto& x : data->dirs) { rng.shuffle(x.second); for (auto& f : x.second) desc += x.first + "/" + f.first + ": " + quote(f.second, 4000) + "\n"; }
  describe(desc);
  tinygettext::DictionaryManager m(std::unique_ptr<tinygettext::FileSystem>(new MemFS(data)));
  m.add_directory("d0"); m.add_directory("d1");
  tinygettext::Language lang = real_lang(li);
  if (lang.str() != name) { fail("language-unknown", "from_spec gives " + lang.str() + " for " + name); return; }
  if (rng.chance(30)) m.get_dictionary(tinygettext::Language::from_spec(base));     // base first
  bool by_set = rng.chance(40);
  if (by_set) m.set_language(lang);
  tinygettext::Dictionary& d = by_set ? m.get_dictionary() : m.get_dictionary(lang);
  // expected: own dictionary = what its directories give, then the base language
  RefDict own, basedict;
  int own_score_base = ref_match(lang_rows[li].lang, lang_rows[li].country, lang_rows[li].modifier, base, "", "");
  (void)own_score_base;
  auto load = [&](RefDict& into, const RefDict& from) { for (auto& e : from.msgs) into.msgs[e.first] = e.second; if (!into.rule) into.rule = from.rule; };
  // lower priority directories are loaded first
  auto overlay = [&](RefDict& into, bool want_region_first) {
    if (two_dirs) {
      if (have_reg && name != base) load(into, rr);
      if (have_base) load(into, rb);
    } else {
      bool reg = have_reg && name != base;
      if (want_region_first ? reg : (!have_base && reg)) load(into, rr);
      else if (have_base) load(into, rb);
    }
  };
  overlay(own, true);
  overlay(basedict, false);
  if (regional) own.fallback = &basedict;
  reset_steps(20000000);
  for (int a = 0; a < 5; ++a) {
    compare(d, own, MsgKey{false, "", "id" + std::to_string(a)}, rng, "manager");
    for (int c = 0; c < 3; ++c) compare(d, own, MsgKey{true, "c" + std::to_string(c), "id" + std::to_string(a)}, rng, "manager");
  }
  count("languages_managed");
  if (regional) count("regional_languages");
  nontrivial(hash_str(desc));
}
} // namespace vf
