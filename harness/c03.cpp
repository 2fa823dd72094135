// C03: damaged entries are reported and do not damage their neighbours.
#include "pogen.hpp"
#include <tinygettext/po_parser.hpp>

namespace vf {
const char* const property_id = "C03";
void harness_init() { default_step_budget = 8000000000ull; }   // for writing catalogs; the library has budgets of its own
void harness_done() {}

struct Bad {
  std::vector<std::string> lines;
  std::string kind;
  MsgKey key;           // message it would have contributed
  bool may_contribute;  // damage comes after the complete entry
};

static std::string q(const std::string& s) { return "\"" + s + "\""; }

static Bad make_bad(Rng& rng, const std::string& id, bool big5) {
  Bad b;
  b.may_contribute = false;
  b.key = MsgKey{false, "", id};
  std::string ctx;
  if (rng.chance(20)) { ctx = "bc" + std::to_string(rng.below(3)); b.key.has_ctxt = true; b.key.ctxt = ctx; }
  auto pre = [&]() { if (!ctx.empty()) b.lines.push_back("msgctxt " + q(ctx)); };
  auto good_id = [&]() {
    pre();
    if (rng.chance(25)) { b.lines.push_back("msgid \"\""); b.lines.push_back(q(id)); } else b.lines.push_back("msgid " + q(id));
  };
  std::string val = "bad value";
  static const std::vector<std::string> junk = {"foo bar", "x", "msgfoo \"a\"", "\"stray string\"", "= = =", "msg", "[main]", "translation = 5", ":", "-- end", "\\", "\xc3\xa4\xc3\xb6", "Msgid \"x\"", "  msgid \"indented\"", "msgstr", "\xff\xfe\x01"};
  static const std::vector<std::string> untermi = {"\"abc", "\"", "\"abc\\\"", "\"abc\\", "\"\\\\\\", "\"abc\\n", "\"a\"b\\"};
  auto unterm = [&]() { return untermi[rng.below(6)]; };
  switch (rng.below(big5 ? 30 : 29)) {
    case 0: b.kind = "junk"; b.lines.push_back(rng.pick(junk)); break;
    case 1: b.kind = "junk-lines"; for (int n = rng.range(2, 5); n > 0; --n) b.lines.push_back(rng.pick(junk)); break;
    case 2: b.kind = "msgid-unquoted"; pre(); b.lines.push_back("msgid " + id); b.lines.push_back("msgstr " + q(val)); break;
    case 3: b.kind = "msgid-unterminated"; pre(); b.lines.push_back("msgid " + unterm()); b.lines.push_back("msgstr " + q(val)); break;
    case 4: b.kind = "msgid-continuation-unterminated"; pre(); b.lines.push_back("msgid " + q(id)); b.lines.push_back(unterm()); b.lines.push_back("msgstr " + q(val)); break;
    case 5: b.kind = "msgstr-unterminated"; good_id(); b.lines.push_back("msgstr " + unterm()); break;
    case 6: b.kind = "msgstr-continuation-unterminated"; good_id(); b.lines.push_back("msgstr \"\""); b.lines.push_back("\"first\\n\""); b.lines.push_back(unterm()); if (rng.chance(50)) b.lines.push_back("\"last\""); break;
    case 7: b.kind = "msgstr-missing"; good_id(); break;
    case 8: b.kind = "msgctxt-only"; b.lines.push_back("msgctxt " + q("bc9")); b.key = MsgKey{true, "bc9", id}; break;
    case 9: b.kind = "msgctxt-without-msgid"; b.lines.push_back("msgctxt " + q("bc9")); b.lines.push_back("msgstr " + q(val)); b.key = MsgKey{true, "bc9", ""}; break;
    case 10: b.kind = "plural-without-msgstr"; good_id(); b.lines.push_back("msgid_plural \"many\""); break;
    case 11: b.kind = "plural-with-plain-msgstr"; good_id(); b.lines.push_back("msgid_plural \"many\""); b.lines.push_back("msgstr " + q(val)); break;
    case 12: b.kind = "plural-index-bad"; good_id(); b.lines.push_back("msgid_plural \"many\""); b.lines.push_back(std::string("msgstr[") + (rng.chance(50) ? "x" : rng.chance(50) ? "10" : "") + "] " + q(val)); break;
    case 13: b.kind = "plural-second-unterminated"; good_id(); b.lines.push_back("msgid_plural \"many\""); b.lines.push_back("msgstr[0] " + q(val)); b.lines.push_back("msgstr[1] " + unterm()); if (rng.chance(50)) b.lines.push_back("msgstr[2] " + q(val)); break;
    case 14: b.kind = "plural-trailing-junk"; good_id(); b.lines.push_back("msgid_plural \"many\""); b.lines.push_back("msgstr[0] " + q(val)); b.lines.push_back(rng.chance(50) ? "junk" : "msgstr[1 " + q(val)); break;
    case 15: b.kind = "trailing-junk"; good_id(); b.lines.push_back("msgstr " + q(val)); b.lines.push_back(rng.chance(50) ? "junk" : "msgfoo " + q(val)); b.may_contribute = true; break;
    case 16: b.kind = "entry-without-separator"; good_id(); b.lines.push_back("msgstr " + q(val)); b.lines.push_back("msgid " + q(id + "-second")); b.lines.push_back("msgstr " + q(val)); b.may_contribute = true; break;
    case 17: b.kind = "bare-msgid"; b.lines.push_back(rng.chance(50) ? "msgid" : "msgid "); b.lines.push_back("msgstr " + q(val)); break;
    case 18: b.kind = "bare-msgstr"; good_id(); b.lines.push_back(rng.chance(50) ? "msgstr" : "msgstr "); break;
    case 19: b.kind = "msgid-plural-unterminated"; good_id(); b.lines.push_back("msgid_plural " + unterm()); b.lines.push_back("msgstr[0] " + q(val)); break;
    case 20: b.kind = "msgstr-before-msgid"; b.lines.push_back("msgstr " + q(val)); b.lines.push_back("msgid " + q(id)); break;
    case 21: b.kind = "msgctxt-unterminated"; b.lines.push_back("msgctxt " + unterm()); b.lines.push_back("msgid " + q(id)); b.lines.push_back("msgstr " + q(val)); break;
    case 22: b.kind = "repeated-msgid"; good_id(); b.lines.push_back("msgid " + q(id)); b.lines.push_back("msgstr " + q(val)); break;
    case 23: b.kind = "plural-unterminated-first"; good_id(); b.lines.push_back("msgid_plural \"many\""); b.lines.push_back("msgstr[0] " + unterm()); break;
    case 24: b.kind = "continuation-in-keyword-gap"; good_id(); b.lines.push_back("garbage"); b.lines.push_back("msgstr " + q(val)); break;
    case 25: case 26: case 27: case 28: {
      // a complete entry, broken in one of its lines
      struct Line { std::string key, text; };
      std::vector<Line> all;
      auto put = [&](const std::string& key, const std::string& text) {
        if (rng.chance(30)) { all.push_back({key, ""}); all.push_back({"", text}); while (rng.chance(30)) all.push_back({"", ""}); }
        else all.push_back({key, text});
      };
      if (!ctx.empty()) put("msgctxt", ctx);
      put("msgid", id);
      int forms = rng.chance(40) ? rng.range(1, 4) : 0;
      if (forms) { put("msgid_plural", "many"); for (int f = 0; f < forms; ++f) put("msgstr[" + std::to_string(f) + "]", val); }
      else put("msgstr", val);
      size_t at = rng.below(static_cast<uint32_t>(all.size()));
      std::string how;
      for (size_t i = 0; i < all.size(); ++i) {
        std::string key = all[i].key, gap = key.empty() ? "" : " ", open = "\"", close = "\"";
        if (i == at) {
          if (key.empty() || rng.chance(25)) { how = "closing-quote"; close = ""; }
          else if (rng.chance(30)) { how = "opening-quote"; open = all[i].text.empty() ? "x" : ""; }
          else if (rng.chance(40)) { how = "word-before-string"; gap = std::string(rng.chance(60) ? " " : "") + rng.pick(Strs{"x", "foo ", "=", ": ", "'", "\\", "_ ", "msgid ", "#", "0"}); }
          else if (key.size() > 6 && key[6] == '[' && rng.chance(60)) {
            how = "index";
            if (rng.chance(50)) key[8] = ")}^[\\_a0 \""[rng.below(10)]; else key[7] = "x-/:; Aa"[rng.below(8)];
          }
          else {
            how = "keyword";
            if (rng.chance(30)) key.pop_back(); else if (rng.chance(30)) key[0] = 'M'; else if (rng.chance(40)) key += rng.chance(50) ? 's' : '_'; else key.insert(0, 1, rng.chance(50) ? 'x' : ' ');
          }
        }
        b.lines.push_back(key + gap + open + all[i].text + close);
      }
      b.kind = "broken-" + how;
      break;
    }
    case 29: b.kind = "big5-incomplete"; good_id(); b.lines.push_back("msgstr \"abc\xa4"); break;
  }
  if (rng.chance(15)) b.lines.insert(b.lines.begin(), rng.chance(50) ? "#: a.c:1" : "# note");
  return b;
}

void run_case(uint64_t index, Rng& rng) {
  Layout lay = random_layout(rng);
  if (lay.wild > 40) lay.wild = 40;
  bool big5 = rng.chance(15);
  std::string charset = big5 ? "BIG5" : "UTF-8";
  PoWriter w(rng, lay);
  RefDict ref;
  std::set<MsgKey> optional, forbidden;
  struct Range { int from, to; std::string kind; bool seen; };
  std::vector<Range> bad;
  if (big5 || rng.chance(80)) { w.put_entry(header_entry(rng, charset, rng.chance(40) ? "Plural-Forms: nplurals=2; plural=(n != 1);" : "")); w.put_separator(); }
  int blocks = rng.sized(1, 10, 1500, 15);
  int nbad = 0, good_after_bad = 0;
  bool all_good = rng.chance(12);
  std::vector<int> good_lines;
  for (int i = 0; i < blocks; ++i) {
    bool is_bad = !all_good && rng.chance(45);
    if (is_bad) {
      Bad b = make_bad(rng, "bad" + std::to_string(i), big5);
      int from = w.line;
      for (auto& l : b.lines) w.put_line(l);
      // an entry that stops too early is noticed at the blank line that ends it
      static const std::set<std::string> too_short = {"msgstr-missing", "msgctxt-only", "plural-without-msgstr"};
      int to = w.line - (too_short.count(b.kind) ? 0 : 1);
      bad.push_back({from, to, b.kind, false});
      (b.may_contribute ? optional : forbidden).insert(b.key);
      count("damage_" + b.kind);
      ++nbad;
    } else {
      Entry e;
      e.id = units("good" + std::to_string(i));
      e.has_ctxt = rng.chance(25);
      if (e.has_ctxt) e.ctxt = units("c" + std::to_string(rng.below(3)));
      e.plural = rng.chance(35);
      auto text = [&]() { return big5 ? units("text" + std::to_string(rng.below(100)) + (rng.chance(30) ? "\n" : "")) : random_utf8(rng, 10); };
      if (e.plural) { e.id2 = text(); for (int f = 0; f < 2; ++f) e.strs.emplace_back(f, text()); }
      else e.strs.emplace_back(0, text());
      Strs s;
      if (e.stored(s)) { if (e.plural) ref.add(e.key(), s); else ref.add(e.key(), s[0]); }
      w.put_entry(e);
      if (nbad) ++good_after_bad;
    }
    if (i + 1 < blocks) {
      w.put_blank();         // always a real blank line
      while (w.wild() && rng.chance(30)) w.put_blank();
      if (rng.rarely(blocks > 20 ? 0 : 1)) {     // line numbers of every magnitude
        for (int k = rng.sized(1, 300, 150000, 1000); k > 0; --k) w.put_line(rng.chance(70) ? "" : "# filler");
        w.put_blank();
        count("far_down");
      }
    }
  }
  std::string po = w.finish();
  std::string name = "dir/cat" + std::to_string(rng.below(10)) + ".po";
  std::string d = "catalog: " + quote(po, 50000) + "\ndamaged:";
  for (auto& b : bad) d += " " + b.kind + "@" + std::to_string(b.from) + "-" + std::to_string(b.to);
  describe(d + "\nexpected:\n" + show(ref.msgs));
  if (index % 1000 == 1) sample(quote(po, 500));

  LogScope log;
  tinygettext::Dictionary dict("UTF-8");
  { auto in = make_stream(po); reset_steps(200000 + 4000 * po.size()); tinygettext::POParser::parse(name, *in, dict); }
  reset_steps(60000000 + 8000 * po.size());
  Msgs got = dump(dict);
  for (auto& e : ref.msgs) {
    auto g = got.find(e.first);
    if (g == got.end()) fail("good-entry-lost", "well-formed " + show(e.first) + " is missing; log: " + log.err_text());
    else if (g->second != e.second) fail("good-entry-altered", "well-formed " + show(e.first) + " expected " + show(e.second) + " got " + show(g->second));
  }
  for (auto& k : forbidden) VF_CHECK(!got.count(k), "damaged-entry-loaded", "damaged entry contributed " << show(k) << " -> " << show(got[k]));
  for (auto& g : got) {
    if (ref.msgs.count(g.first) || forbidden.count(g.first)) continue;
    if (optional.count(g.first)) { VF_CHECK(g.second == Strs{"bad value"}, "damaged-entry-altered", show(g.first) << " -> " << show(g.second)); continue; }
    fail("message-invented", "unexpected " + show(g.first) + " -> " + show(g.second));
  }
  // error log
  for (auto& e : log.err) {
    size_t p = e.find(name + ":");
    if (p == std::string::npos) { fail("error-without-name", "error log entry does not name the catalog: " + e); continue; }
    int line = atoi(e.c_str() + p + name.size() + 1);
    bool inside = false;
    for (auto& b : bad) if (line >= b.from && line <= b.to) { b.seen = true; inside = true; }
    if (!inside) fail(nbad ? "error-outside-damage" : "error-on-clean-catalog", "reported line " + std::to_string(line) + " is not in a damaged entry: " + e);
    count("errors_reported");
  }
  for (auto& b : bad) VF_CHECK(b.seen, "damage-unreported", "no error reported for " << b.kind << " in lines " << b.from << "-" << b.to << "; log: " << log.err_text());
  count("damaged_entries", static_cast<uint64_t>(nbad));
  count("good_entries_after_damage", static_cast<uint64_t>(good_after_bad));
  if (!nbad) count("clean_catalogs");
  nontrivial(hash_str(po));
}
} // namespace vf
