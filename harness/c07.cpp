// C07: lookups reflect exactly what was added.  C10: enumeration.
#include "hostile.hpp"
#include <tinygettext/po_parser.hpp>

namespace vf {
#ifdef VF_C10
const char* const property_id = "C10";
#else
const char* const property_id = "C07";
#endif
void harness_init() { default_step_budget = 1000000000; }
void harness_done() {}

static std::vector<std::string> alphabet(Rng& rng) {
  static const std::vector<std::string> small = {"", "a", "b", "A", "a ", " a", "ab", std::string("a\0b", 3), std::string("\0", 1), "\x04", "a\x04" "b", "b\x04" "a", "\n", "msgid", "a\n", "\xff", "\xc3\xa4", "id0", "0", "(null)"};
  std::vector<std::string> v;
  int n = rng.range(2, 6);
  for (int i = 0; i < n; ++i) v.push_back(rng.pick(small));
  if (rng.chance(10)) {
    std::string l(static_cast<size_t>(rng.chance(50) ? rng.range(5, 300) : rng.range(100, 20000)), 'x');
    v.push_back(l);
    // long ones that differ in one place only
    while (rng.chance(60)) { std::string o = l; size_t at = rng.chance(30) ? o.size() - 1 : rng.chance(30) ? 0 : rng.below(static_cast<uint32_t>(o.size())); if (rng.chance(70)) o[at] = static_cast<char>(rng.below(256)); else if (rng.chance(50)) o.erase(at, 1); else o.insert(at, 1, 'x'); v.push_back(o); }
  }
  return v;
}

void run_case(uint64_t index, Rng& rng) {
  using tinygettext::Dictionary;
  LogScope log;
  std::vector<std::string> ids, ctxts;
  bool many = index % 40 == 7;
  int n_ids = many ? rng.sized(1, 400, 8000, 60) : 0, n_ctxts = many ? rng.sized(1, 40, 3000, 120) : 0;
  if (many) { for (int i = 0; i < n_ids; ++i) ids.push_back("key" + std::to_string(i)); for (int i = 0; i < n_ctxts; ++i) ctxts.push_back("c" + std::to_string(i)); }
  else { ids = alphabet(rng); ctxts = alphabet(rng); if (rng.chance(40)) ctxts.push_back(""); if (rng.chance(30)) ctxts.push_back(rng.pick(ids)); }
  std::unique_ptr<Dictionary> dict(new Dictionary(rng.chance(80) ? "UTF-8" : "ISO-8859-1"));
  std::unique_ptr<Dictionary> fb;
  RefDict ref, fbref;
  std::string hist;
  auto note = [&](const std::string& t) { if (hist.empty()) describe(""); hist += t; describe_more(t); };
  std::set<MsgKey> was_plural;
  // a singular addition to a plural message decides about its first form only
  bool mixed = rng.chance(15);
  std::set<MsgKey> blurred;
  auto trim = [&](Msgs m) { for (auto& k : blurred) if (m.count(k) && m[k].size() > 1) m[k].resize(1); return m; };
  std::string rule;
  if (rng.chance(50)) { rule = plural_rules[rng.below(n_plural_rules)]; dict->set_plural_forms(tinygettext::PluralForms::from_string(rule)); ref.rule.reset(new PluralExpr(rule)); note("rule " + rule + "\n"); }
#ifdef VF_C10
  if (rng.chance(40)) {      // a fallback must not show up in the enumeration
    fb.reset(new Dictionary);
    fb->add_translation("from the fallback", "x");
    fb->add_translation("ctx fb", "from the fallback", "x");
    fb->add_translation(rng.pick(ids), "fallback text");
    dict->addFallback(fb.get());
    note("with fallback\n");
  }
#endif
  int ops = many ? rng.range(300, 1500) + (rng.chance(70) ? 3 * std::max(n_ids, n_ctxts) : 0) : rng.sized(1, 40, 600, 8);
  // mostly short texts that are easy to tell apart, sometimes odd ones
  auto text = [&](const std::string& id) -> std::string {
    if (rng.chance(90)) return "t" + std::to_string(rng.below(50));
    static const std::vector<std::string> odd = {" ", "\n", "a", "id0", std::string("\0", 1), std::string("x\0y", 3), "\xff", "(null)", "%s", "\"", "t1 ", "\x04"};
    return rng.chance(15) ? id : rng.chance(10) ? id + "s" : rng.chance(5) ? std::string(static_cast<size_t>(rng.sized(1, 300, 50000, 100)), 'y') : rng.pick(odd);
  };
  uint64_t adds = 0, looks = 0, conflicts = 0;
  int ctxt_share = many ? rng.range(5, 95) : 50;
  auto random_key = [&]() { MsgKey k; k.has_ctxt = rng.chance(ctxt_share); if (k.has_ctxt) k.ctxt = rng.pick(ctxts); k.id = rng.pick(ids); return k; };
  auto check_one = [&](const MsgKey& k) {
    int n = rng.chance(50) ? rng.range(0, 3) : static_cast<int>(rng.below(2000000));
    if (rng.chance(3)) n = -1;
    std::string id2 = rng.chance(50) ? k.id + "s" : rng.pick(ids);
    std::string want = ref.translate(k), got = lookup(*dict, k);
    if (fb && (!ref.msgs.count(k) || ref.msgs[k].empty())) return;      // C09's business
    VF_CHECK(got == want, ref.msgs.count(k) ? "wrong-translation" : "miss-not-identity", "lookup of " << show(k) << " gave " << quote(got, 300) << " expected " << quote(want, 300));
    if (blurred.count(k)) { looks += 1; lookup_plural(*dict, k, id2, n); return; }
    if (n >= 0 || !ref.rule) {
      want = ref.translate_plural(k, id2, n); got = lookup_plural(*dict, k, id2, n);
      VF_CHECK(got == want, ref.msgs.count(k) ? "wrong-plural" : "plural-miss", "plural lookup of " << show(k) << "/" << quote(id2, 100) << " n=" << n << " gave " << quote(got, 300) << " expected " << quote(want, 300));
    }
    looks += 2;
  };
  for (int i = 0; i < ops; ++i) {
    int op = static_cast<int>(rng.below(100));
    if (op < 45) {
      MsgKey k = random_key();
      bool plural = (!mixed && was_plural.count(k)) || rng.chance(40);
      if (ref.msgs.count(k)) ++conflicts;
      if (plural) {
        Strs v;
        for (int f = rng.chance(2) ? rng.range(6, 40) : rng.range(rng.chance(10) ? 0 : 1, 6); f > 0; --f) v.push_back(rng.chance(15) ? "" : text(k.id));
        was_plural.insert(k);
        note("add " + show(k) + " = " + show(v) + "\n");
        if (k.has_ctxt) dict->add_translation(k.ctxt, k.id, k.id + "s", v); else dict->add_translation(k.id, k.id + "s", v);
        ref.add(k, v);
        blurred.erase(k);
      } else {
        std::string t = rng.chance(8) ? "" : text(k.id);
        note("add " + show(k) + " = " + quote(t) + "\n");
        if (k.has_ctxt) dict->add_translation(k.ctxt, k.id, t); else dict->add_translation(k.id, t);
        if (was_plural.count(k)) { blurred.insert(k); count("singular_over_plural"); }
        ref.add(k, t);
      }
      ++adds;
#ifdef VF_C10
    } else if (op < 52) {
      // a catalog loaded in between
      PoWriter w(rng, random_layout(rng));
      for (int e = rng.range(1, 4); e > 0; --e) {
        Entry en; en.id = units("po" + std::to_string(rng.below(5))); en.has_ctxt = rng.chance(40); if (en.has_ctxt) en.ctxt = units("pc" + std::to_string(rng.below(2)));
        en.fuzzy = rng.chance(10); en.obsolete = rng.chance(10);
        en.strs.emplace_back(0, random_utf8(rng, 5, false));
        w.put_entry(en); w.put_separator();
        Strs s;
        if (!en.obsolete && en.stored(s)) ref.add(en.key(), s[0]);
      }
      std::string po = w.finish();
      if (dict->get_charset() != "UTF-8") continue;   // (in which case nothing above was loaded)
      note("load " + quote(po, 3000) + "\n");
      auto in = make_stream(po);
      tinygettext::POParser::parse("x.po", *in, *dict);
      count("catalog_loads");
#endif
    } else check_one(random_key());
    if (case_failed()) return;
#ifdef VF_C10
    if (dict->get_charset() == "UTF-8" && (rng.rarely(many ? std::max(1, 10000 / ops) : 200) || i + 1 == ops)) {
#else
    if (i + 1 == ops) {
#endif
      bool dup = false;
      Msgs got = trim(dump(*dict, &dup)), want = trim(ref.msgs);
      VF_CHECK(!dup, "listed-twice", "the enumeration lists a message twice");
      std::string d = diff(want, got);
      if (!d.empty()) fail("enumeration-" + diff_key(want, got), d);
      size_t visits = 0, plain = 0;
      dict->foreach([&](const std::string&, const std::vector<std::string>&) { ++visits; ++plain; });
      dict->foreach_ctxt([&](const std::string&, const std::string&, const std::vector<std::string>&) { ++visits; });
      size_t want_plain = 0;
      for (auto& e : ref.msgs) if (!e.first.has_ctxt) ++want_plain;
      VF_CHECK(visits == ref.msgs.size() && plain == want_plain, "visit-count", visits << " visits (" << plain << " without context) for " << ref.msgs.size() << " messages (" << want_plain << ")");
      // what a visitor keeps in itself comes back with it
      struct Keeper { size_t n = 0; uint64_t sum = 0; void operator()(const std::string& a, const Strs& v) { ++n; sum += hash_str(a) ^ v.size(); } void operator()(const std::string& c, const std::string& a, const Strs& v) { ++n; sum += hash_str(a + "/" + c) ^ v.size(); } };
      Keeper k1 = dict->foreach(Keeper()), k2 = dict->foreach_ctxt(Keeper());
      uint64_t s1 = 0, s2 = 0;
      for (auto& e : got) if (e.first.has_ctxt) s2 += hash_str(e.first.id + "/" + e.first.ctxt); else s1 += hash_str(e.first.id);
      (void)s1; (void)s2;
      VF_CHECK(k1.n == want_plain && k1.n + k2.n == visits, "visitor-state", "the visitors that were returned have seen " << k1.n << " and " << k2.n << " of " << visits << " messages");
      count("enumerations");
      count("messages_enumerated", visits);
    }
  }
#ifndef VF_C10
  // every key of the alphabet, present or not, and once more: lookups change nothing
  Msgs before = dump(*dict);
  if (!many) {
    for (int round = 0; round < 2; ++round)
      for (auto& id : ids) { check_one(MsgKey{false, "", id}); for (auto& c : ctxts) check_one(MsgKey{true, c, id}); }
  } else for (int i = 0; i < 500; ++i) check_one(random_key());
  std::string d = diff(before, dump(*dict));
  VF_CHECK(d.empty(), "lookup-changed-dictionary", d);
#endif
  count("additions", adds);
  count("lookups", looks);
  count("overwritten", conflicts);
  if (index % 1000 == 11) sample(hist.substr(0, 700));
  if (adds) nontrivial(hash_str(hist));
}
} // namespace vf
