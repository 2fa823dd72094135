// C02: lossless loading in every legal layout.
#include "pogen.hpp"
#include <tinygettext/po_parser.hpp>

namespace vf {
const char* const property_id = "C02";
void harness_init() { default_step_budget = 8000000000ull; }   // for writing catalogs; the library has budgets of its own
void harness_done() {}

static Text make_id(Rng& rng, std::vector<Text>& seen) {
  if (!seen.empty() && rng.chance(25)) return rng.pick(seen);
  Text t = random_utf8(rng, 12);
  if (join(t).empty()) t = word(rng, "w", 30);
  seen.push_back(t);
  return t;
}

void run_case(uint64_t index, Rng& rng) {
  Layout lay = random_layout(rng);
  std::vector<Entry> entries;
  std::map<MsgKey, bool> kind;
  std::vector<Text> ids, ctxts;
  ctxts.push_back(Text());
  if (rng.chance(80)) entries.push_back(header_entry(rng, rng.chance(80) ? (rng.chance(50) ? "UTF-8" : "utf-8") : rng.chance(50) ? "CHARSET" : "",
                                                    rng.chance(50) ? "Plural-Forms: nplurals=2; plural=(n != 1);" : ""));
  int n = rng.chance(3) ? rng.range(100, 300) : rng.sized(0, 12, 4000, 2);
  for (int i = 0; i < n; ++i) {
    Entry e;
    e.id = make_id(rng, ids);
    e.has_ctxt = rng.chance(35);
    if (e.has_ctxt) e.ctxt = make_id(rng, ctxts);
    auto k = kind.find(e.key());
    e.plural = k != kind.end() ? k->second : rng.chance(35);
    e.obsolete = rng.chance(8);
    if (!e.obsolete) kind[e.key()] = e.plural;
    e.fuzzy = rng.chance(10);
    if (e.plural) {
      e.id2 = random_utf8(rng, 10);
      std::vector<int> idx;
      int forms = rng.chance(10) ? 10 : rng.range(1, 4);
      for (int f = 0; f < forms; ++f) if (forms == 1 || !rng.chance(8)) idx.push_back(f);
      if (idx.empty()) idx.push_back(rng.range(0, 9));
      if (rng.chance(15)) rng.shuffle(idx);
      for (int f : idx) e.strs.emplace_back(f, rng.chance(10) ? Text() : random_utf8(rng, 20));
    } else e.strs.emplace_back(0, rng.chance(8) ? Text() : random_utf8(rng, 25));
    entries.push_back(e);
  }
  RefDict ref;
  PoWriter w(rng, lay);
  while (w.wild() && rng.chance(30)) w.put_blank();
  if (w.wild() && rng.chance(20)) w.put_comment();
  bool ended_with_entry = false;
  for (size_t i = 0; i < entries.size(); ++i) {
    const Entry& e = entries[i];
    w.put_entry(e);
    if (i + 1 < entries.size() || rng.chance(50)) w.put_separator();
    else ended_with_entry = true;
    Strs s;
    if (e.obsolete || e.id.empty()) continue;
    if (e.stored(s)) { if (e.plural) ref.add(e.key(), s); else ref.add(e.key(), s[0]); }
  }
  if (!ended_with_entry && w.wild() && rng.chance(15)) w.put_comment();
  std::string po = w.finish();
  size_t chunk = rng.chance(30) ? 1 : rng.chance(30) ? static_cast<size_t>(rng.range(2, 64)) : 1 << 16;
  describe("chunk " + std::to_string(chunk) + "\ncatalog: " + quote(po, 50000) + "\nexpected:\n" + show(ref.msgs));
  if (index % 1000 == 0) sample(quote(po, 500));

  LogScope log;
  tinygettext::Dictionary dict("UTF-8");
  { auto in = make_stream(po, chunk); reset_steps(200000 + 4000 * po.size()); tinygettext::POParser::parse("cat.po", *in, dict); }
  reset_steps(60000000 + 8000 * po.size());
  bool dup = false;
  Msgs got = dump(dict, &dup);
  VF_CHECK(!dup, "duplicate-in-enumeration", "enumeration lists a message twice");
  std::string d = diff(ref.msgs, got);
  if (!d.empty()) fail("entry-" + diff_key(ref.msgs, got), d + "\nlog: " + log.err_text());
  VF_CHECK(log.err.empty(), "error-on-well-formed", "error reported for a well-formed catalog: " << log.err_text());
  for (auto& e : ref.msgs)
    VF_CHECK(lookup(dict, e.first) == e.second[0], "lookup-differs", show(e.first) << " returned " << quote(lookup(dict, e.first)));
  count("messages_compared", ref.msgs.size());
  count("catalog_bytes", po.size());
  if (!ref.msgs.empty()) nontrivial(hash_str(po));
  if (lay.crlf) count("layout_crlf");
  if (lay.bom) count("layout_bom");
  if (!lay.final_newline) count("layout_no_final_newline");
  if (lay.wild) count("layout_unusual");
  if (chunk == 1) count("stream_byte_by_byte");
}
} // namespace vf
