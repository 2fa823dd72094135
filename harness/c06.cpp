// C06: plural rules mean what their header says.
#include "pogen.hpp"
#include <tinygettext/plural_forms.hpp>
#include <tinygettext/po_parser.hpp>
#include <climits>

namespace vf {
const char* const property_id = "C06";
void harness_init() { default_step_budget = 1000000000; }
void harness_done() {}

static std::string spaced(Rng& rng, const std::string& rule) {
  static const std::vector<std::string> ws = {" ", "  ", "\t", "\r", "\v", "\f", " \t "};
  int style = rng.range(0, 3);
  std::string r;
  if (style == 0) return rule;
  if (style == 1) {   // the usual spelling
    for (size_t i = 0; i < rule.size(); ++i) { r += rule[i]; if (rule[i] == ':' && i == 12) r += ' '; if (rule[i] == ';' && i + 1 < rule.size()) r += ' '; }
    return r;
  }
  for (size_t i = 0; i < rule.size(); ++i) {
    r += rule[i];
    // keep the field name itself in one piece
    if (i >= 12 && rng.chance(style == 2 ? 8 : 40)) r += rng.pick(ws);
  }
  return r;
}

static void judge(const tinygettext::PluralForms& pf, const PluralExpr& ref, const std::string& header, Rng& rng) {
  VF_CHECK(pf.get_nplural() == ref.nplurals, "nplurals", "header declares " << ref.nplurals << " forms, " << pf.get_nplural() << " reported: " << header);
  auto at = [&](int n) {
    unsigned g = pf.get_plural(n);
    int64_t w = ref.eval(n);
    if (static_cast<int64_t>(g) != w) fail("form-index", "count " + std::to_string(n) + " gives form " + std::to_string(g) + " but the expression has value " + std::to_string(w) + ": " + header);
  };
  for (int n = 0; n <= 250; ++n) at(n);
  for (int k = 0; k < 40; ++k) at(static_cast<int>(rng.next() % 2147483648ull));
  for (int p = 1000; p <= 1000000000 && p > 0; p *= 10) { for (int d = -12; d <= 125; d += rng.range(1, 9)) at(p + d); if (p == 1000000000) break; }
  for (int d = 0; d < 120; ++d) at(INT_MAX - d);
  // negative counts only have to be harmless
  unsigned sink = pf.get_plural(-1) + pf.get_plural(INT_MIN) + pf.get_plural(-11) + pf.get_plural(-100);
  if (sink == 123456789) count("unlikely");
  count("counts_evaluated", 251 + 40 + 120);
}

void run_case(uint64_t index, Rng& rng) {
  using tinygettext::PluralForms;
  LogScope log;
  unsigned which = static_cast<unsigned>(index % n_plural_rules);
  std::string rule = plural_rules[which];
  int kind = static_cast<int>((index / n_plural_rules) % 4);
  if (index < n_plural_rules) { sample(rule); }
  if (kind == 0) {           // a supported rule must be recognised
    std::string h = spaced(rng, rule);
    describe("from_string " + quote(h));
    PluralForms pf = PluralForms::from_string(h);
    VF_CHECK(static_cast<bool>(pf), "rule-not-recognised", h);
    PluralExpr ref(rule);
    if (!ref.ok) harness_error("cannot evaluate " + rule);
    if (pf) judge(pf, ref, h, rng);
    count("supported_rules");
    nontrivial(hash_str(h));
  } else if (kind == 1) {    // any other header, if recognised, must mean what it says
    std::string h = rule;
    for (int m = rng.range(1, 3); m > 0; --m) {
      size_t p = 13 + rng.below(static_cast<uint32_t>(h.size() - 13));
      static const std::string alphabet = "n0123456789%=!<>&|?:();plurals ";
      switch (rng.below(5)) {
        case 0: h[p] = alphabet[rng.below(static_cast<uint32_t>(alphabet.size()))]; break;
        case 1: h.erase(p, rng.range(1, 3)); break;
        case 2: h.insert(p, 1, alphabet[rng.below(static_cast<uint32_t>(alphabet.size()))]); break;
        case 3: { std::string o = plural_rules[rng.below(n_plural_rules)]; h = h.substr(0, h.find("plural=")) + o.substr(o.find("plural=")); break; }
        case 4: { size_t q = h.find("nplurals="); if (q != std::string::npos && q + 9 < h.size()) h[q + 9] = static_cast<char>('0' + rng.below(10)); break; }
      }
      if (h.size() < 20) break;
    }
    describe("from_string " + quote(h));
    PluralForms pf = PluralForms::from_string(h);
    if (pf) {
      PluralExpr ref(h);
      if (ref.ok) judge(pf, ref, h, rng);
      else fail("nonsense-recognised", "recognised although it is not a plural rule: " + h);
      count("mutants_recognised");
    } else { VF_CHECK(pf.get_nplural() == 0 && pf.get_plural(1) == 0 && pf.get_plural(5) == 0, "unrecognised-not-neutral", h); count("mutants_rejected"); }
    nontrivial(hash_str(h));
  } else {                   // placement in headers and stickiness over several catalogs
    tinygettext::Dictionary dict;
    std::shared_ptr<PluralExpr> inforce;
    std::string inforce_text;
    std::string desc;
    int n = rng.sized(1, 4, 40, 10);
    for (int c = 0; c < n; ++c) {
      int what = rng.range(0, 5);   // 0 none, 1 unknown, else supported
      std::string r = c == 0 && what > 1 ? rule : plural_rules[rng.below(n_plural_rules)];
      std::string line = what == 0 ? "" : what == 1 ? (rng.chance(50) ? "Plural-Forms: nplurals=INTEGER; plural=EXPRESSION;" : "Plural-Forms: nplurals=7; plural=n;") : spaced(rng, r);
      Layout lay = random_layout(rng);
      PoWriter w(rng, lay);
      Entry h = header_entry(rng, rng.chance(70) ? "UTF-8" : "", line);
      if (rng.chance(4)) {                       // a crowded header
        std::string t = join(h.strs[0].second), extra;
        for (int k = rng.sized(1, 20, 800, 600); k > 0; --k) extra += "X-Field-" + std::to_string(k) + ": " + std::string(static_cast<size_t>(rng.sized(0, 60, 30000, 20)), 'v') + "\n";
        if (rng.chance(70)) t = extra + t; else t += extra;
        h.strs[0].second = units(t);
        count("crowded_headers");
      }
      bool last_without_nl = false;
      if (!line.empty() && rng.chance(25)) {   // rule as the very last line, without newline
        std::string t = join(h.strs[0].second);
        size_t p = t.find("\n" + line + "\n");
        if (t.compare(0, line.size() + 1, line + "\n") == 0) t.erase(0, line.size() + 1); else if (p != std::string::npos) t.erase(p + 1, line.size() + 1);
        h.strs[0].second = units(t + line);
        last_without_nl = true;
        count("rule_on_unterminated_last_line");
      }
      w.put_entry(h);
      w.put_separator();
      Entry e; e.id = units("apple"); e.plural = true; e.id2 = units("apples");
      e.strs.emplace_back(0, units("A")); e.strs.emplace_back(1, units("B"));
      if (rng.chance(50)) w.put_entry(e);
      std::string po = w.finish();
      desc += "catalog " + std::to_string(c) + ": " + quote(po, 8000) + "\n";
      describe(desc);
      LogScope l2;
      { auto in = make_stream(po); tinygettext::POParser::parse("h.po", *in, dict); }
      bool warned = false;
      for (auto& m : l2.warn) if (m.find("h.po:") != std::string::npos && m.find("Plural-Forms") != std::string::npos && m.find("no Plural-Forms") == std::string::npos) warned = true;
      if (what == 1) { VF_CHECK(warned, "unknown-rule-unreported", "no warning about " << line); count("unknown_rules"); }
      if (what > 1) {
        count("rules_in_headers");
        if (!inforce) { inforce.reset(new PluralExpr(r)); inforce_text = r; }
        else if (PluralForms::from_string(r) != PluralForms::from_string(inforce_text)) { VF_CHECK(warned, "conflicting-rule-unreported", "no warning about " << line << " while " << inforce_text << " is in force"); count("conflicting_rules"); }
      }
      VF_CHECK(static_cast<bool>(dict.get_plural_forms()) == static_cast<bool>(inforce), inforce ? (last_without_nl ? "rule-lost-at-header-end" : "rule-lost") : "rule-invented", "after catalog " << c << " the dictionary " << (inforce ? "has no rule" : "has a rule") << ", expected " << inforce_text);
      if (inforce && dict.get_plural_forms()) judge(dict.get_plural_forms(), *inforce, "in force: " + inforce_text, rng);
    }
    nontrivial(hash_str(desc));
  }
}
} // namespace vf
