// C08: plural lookups end to end.
#include "pogen.hpp"
#include <tinygettext/po_parser.hpp>
#include <climits>

namespace vf {
const char* const property_id = "C08";
void harness_init() { default_step_budget = 1000000000; }
void harness_done() {}

void run_case(uint64_t index, Rng& rng) {
  unsigned which = static_cast<unsigned>(index % (n_plural_rules + 1));
  std::string rule = which < n_plural_rules ? plural_rules[which] : "";
  std::string header = rule;
  if (!rule.empty() && rng.chance(60)) { header.clear(); for (char c : rule) { header += c; if (c == ';' || c == ':') if (&c != &rule.back() && rng.chance(80)) header += ' '; if (rng.chance(5) && header.size() > 14) header += ' '; } }
  RefDict ref;
  if (!rule.empty()) ref.rule.reset(new PluralExpr(rule));
  else if (rng.chance(30)) header = "Plural-Forms: nplurals=9; plural=n;";       // unrecognised: no rule
  Layout lay = random_layout(rng);
  std::vector<Entry> es;
  int n = rng.sized(1, 6, 60, 10);
  for (int i = 0; i < n; ++i) {
    Entry e;
    e.id = units("item" + std::to_string(rng.below(4)));
    e.id2 = units(join(e.id) + "s");
    e.has_ctxt = rng.chance(40);
    if (e.has_ctxt) e.ctxt = rng.chance(20) ? Text() : units("ctx" + std::to_string(rng.below(2)));
    e.plural = rng.chance(85);
    for (auto& o : es) if (o.key() == e.key()) e.plural = o.plural;
    if (e.plural) {
      int forms = rng.chance(60) && ref.rule ? static_cast<int>(ref.rule->nplurals) : rng.range(1, 6);
      bool gaps = rng.chance(12);
      for (int f = 0; f < forms; ++f) if (!gaps || f + 1 == forms || rng.chance(60)) e.strs.emplace_back(f, rng.chance(15) ? Text() : units("form" + std::to_string(f) + "-" + std::to_string(i)));
      if (rng.chance(15)) rng.shuffle(e.strs);
    } else e.strs.emplace_back(0, units("only" + std::to_string(i)));
    es.push_back(e);
  }
  PoWriter w(rng, lay);
  w.put_entry(header_entry(rng, "UTF-8", header));
  w.put_separator();
  for (auto& e : es) {
    w.put_entry(e);
    w.put_separator();
    Strs s;
    if (e.stored(s)) { if (e.plural) ref.add(e.key(), s); else ref.add(e.key(), s[0]); }
  }
  std::string po = w.finish();
  describe("rule " + rule + "\ncatalog " + quote(po, 20000) + "\nstored:\n" + show(ref.msgs));
  if (index % 1000 == 13) sample(quote(po, 600));
  LogScope log;
  tinygettext::Dictionary dict;
  { auto in = make_stream(po); tinygettext::POParser::parse("p.po", *in, dict); }
  std::vector<int> counts;
  for (int c = 0; c < 25; ++c) counts.push_back(c);
  for (int c = 95; c < 125; ++c) counts.push_back(c);
  for (int k = 0; k < 15; ++k) counts.push_back(static_cast<int>(rng.next() % 2147483648ull));
  if (rng.chance(25)) { int from = static_cast<int>(rng.next() % 2147480000ull); if (rng.chance(60)) from %= rng.chance(50) ? 1000 : 100000; for (int c = 0; c < 100; ++c) counts.push_back(from + c); count("count_windows"); }
  counts.push_back(INT_MAX); counts.push_back(1000000); counts.push_back(1000001);
  std::vector<MsgKey> keys;
  for (auto& e : es) keys.push_back(e.key());
  keys.push_back(MsgKey{false, "", "missing"});
  keys.push_back(MsgKey{true, "ctx0", "missing"});
  keys.push_back(MsgKey{true, "noctx", "item0"});
  for (auto& k : keys) {
    auto stored = ref.msgs.find(k);
    for (int c : counts) {
      log.clear();
      std::string want = ref.translate_plural(k, k.id + "s", c), got = lookup_plural(dict, k, k.id + "s", c);
      uint64_t form = ref.rule ? static_cast<uint64_t>(ref.rule->eval(c)) : 0;
      if (got != want) fail(stored == ref.msgs.end() ? "missing-message" : form >= stored->second.size() ? "missing-form" : stored->second[form].empty() ? "empty-form" : ref.rule ? "wrong-form" : "no-rule",
           "count " + std::to_string(c) + " of " + show(k) + " gave " + quote(got, 200) + " expected " + quote(want, 200) + " (form " + std::to_string(form) + ")");
      if (stored != ref.msgs.end()) {
        if (form >= stored->second.size()) { VF_CHECK(!log.err.empty(), "missing-form-unreported", "no error for form " << form << " of " << show(k)); count("missing_forms"); }
        else { VF_CHECK(log.err.empty(), "error-for-stored-form", log.err_text()); count(stored->second[form].empty() ? "empty_forms" : "stored_forms"); if (k.has_ctxt) count("with_context"); }
      }
    }
  }
  if (rule.empty()) count("without_rule");
  nontrivial(hash_str(po));
}
} // namespace vf
