// C04: translations arrive in the dictionary's charset.
#include "cs.hpp"
#include <tinygettext/po_parser.hpp>
#include <cstring>

namespace vf {
const char* const property_id = "C04";
static std::vector<int> sources;
void harness_init() {
  default_step_budget = 8000000000ull;   // for writing catalogs; the library has budgets of its own
  for (int i = 0; i < n_cs; ++i) { std::string n = cs_tables[i].name; if (n.compare(0, 4, "UTF-") != 0 || n == "UTF-8") sources.push_back(i); }
}
void harness_done() {}

struct Conv { Text src; std::string dst; bool bad = false; };

static Conv make_text(Rng& rng, int a, int b, int max_len, bool allow_bad) {
  Conv c;
  auto& common = cs_common(a, b);
  bool big5 = !strcmp(cs_tables[a].name, "BIG5");
  int len = rng.chance(5) ? rng.range(50, 400) : rng.sized(1, max_len, 40000, 3);
  int bad_at = -1;
  std::string bad;
  if (allow_bad) {
    std::vector<std::string> v;
    for (auto& x : bad_bytes) if (!strcmp(x.cs, cs_tables[a].name)) v.push_back(x.bytes);
    if (!v.empty()) { bad = rng.pick(v); bad_at = rng.range(0, len); }
    if (!strcmp(cs_tables[a].name, "UTF-8") && rng.chance(30)) { bad = rng.chance(50) ? "\xe2\x82" : "\xf0\x9f\x98"; bad_at = len; }   // cut short
  }
  bool hot = rng.chance(50);
  for (int i = 0; i <= len; ++i) {
    if (i == bad_at) { c.src.push_back(bad); c.bad = true; }
    if (i == len) break;
    const std::pair<const CsChar*, const CsChar*>* p;
    int tries = 0;
    do {
      // prefer characters beyond ASCII, and Big5 characters ending in a backslash
      p = &common[hot ? rng.below(static_cast<uint32_t>(common.size())) : common.size() - 1 - rng.below(static_cast<uint32_t>(std::max<size_t>(1, common.size() / 2)))];
      ++tries;
    } while (tries < 100 && !big5 && !clean_bytes(*p->first));
    if (!big5 && !clean_bytes(*p->first)) continue;
    if (big5 && hot && rng.chance(30)) {
      static const unsigned tricky[] = {0x529f, 0x8a31, 0x84cb, 0x9910, 0x5fc3};
      unsigned cp = tricky[rng.below(5)];
      const CsChar *x = cs_find(a, cp), *y = cs_find(b, cp);
      if (x && y) { c.src.push_back(cs_bytes(x)); if (!c.bad) c.dst += cs_bytes(y); count("big5_trail_candidates"); continue; }
    }
    c.src.push_back(cs_bytes(p->first));
    if (!c.bad) c.dst += cs_bytes(p->second);
  }
  return c;
}

void run_case(uint64_t index, Rng& rng) {
  int a = rng.chance(25) ? 0 : rng.chance(15) ? n_cs - 1 : rng.pick(sources);
  int b = rng.chance(40) ? 0 : static_cast<int>(rng.below(static_cast<uint32_t>(n_cs)));
  if (cs_direct(a, b)) b = 0;
  std::string from = random_case(rng, cs_tables[a].name), to = random_case(rng, cs_tables[b].name);
  if (rng.chance(15)) { from = random_case(rng, random_alias(rng, cs_tables[a].name)); count("other_charset_names"); }
  if (rng.chance(15)) { to = random_case(rng, random_alias(rng, cs_tables[b].name)); count("other_charset_names"); }
  bool same = a == b;
  Layout lay = random_layout(rng);
  lay.comments = rng.chance(50);
  if (a != 0) lay.bom = false;
  PoWriter w(rng, lay);
  enum { normal, missing, placeholder, no_header, unsupported_src, unsupported_dst } mode = normal;
  if (a == 0 && rng.chance(30)) mode = rng.chance(40) ? missing : rng.chance(50) ? placeholder : no_header;
  else if (rng.chance(8)) mode = rng.chance(50) ? unsupported_src : unsupported_dst;
  if (mode == unsupported_src) from = rng.chance(50) ? "NO-SUCH-CHARSET" : "UTF-9";
  if (mode == unsupported_dst) to = rng.chance(50) ? "no-such-charset" : "LATIN-99";
  std::string hdr = mode == missing ? "" : mode == placeholder ? random_case(rng, "CHARSET") : from;
  if (mode != no_header) { w.put_entry(header_entry(rng, hdr, rng.chance(40) ? "Plural-Forms: nplurals=2; plural=(n != 1);" : "")); w.put_separator(); }
  RefDict ref;
  int n = rng.sized(1, 8, 300, 10), bad = 0;
  for (int i = 0; i < n; ++i) {
    Entry e;
    e.id = units("id" + std::to_string(i));
    e.has_ctxt = rng.chance(25);
    if (e.has_ctxt) e.ctxt = units(rng.chance(30) ? "" : "ctx");
    e.plural = rng.chance(30);
    e.id2 = units("ids");
    Strs dst;
    int forms = e.plural ? rng.sized(1, 3, 10, 150) : 1;
    for (int f = 0; f < forms; ++f) {
      Conv c = make_text(rng, a, b, 15, !same && rng.chance(12));
      e.strs.emplace_back(f, c.src);
      dst.push_back(c.dst);
      if (c.bad) ++bad;
    }
    w.put_entry(e);
    w.put_separator();
    Strs s;
    if (e.stored(s)) { if (e.plural) ref.add(e.key(), dst); else ref.add(e.key(), dst[0]); }
  }
  std::string po = w.finish();
  describe("from " + from + " to " + to + " mode " + std::to_string(mode) + " invalid strings " + std::to_string(bad) + "\ncatalog: " + quote(po, 50000) + "\nexpected:\n" + show(ref.msgs));
  if (index % 1000 == 3) sample(from + " -> " + to + ": " + quote(po, 400));
  LogScope log;
  tinygettext::Dictionary dict(to);
  bool thrown = false;
  try { auto in = make_stream(po); reset_steps(500000 + 8000 * po.size()); tinygettext::POParser::parse("x.po", *in, dict); }
  catch (std::exception& e) { thrown = true; VF_CHECK(*e.what(), "empty-exception", "no text"); }
  reset_steps(60000000 + 8000 * po.size());
  Msgs got = dump(dict);
  VF_CHECK(dict.get_charset() == to, "charset-name", "get_charset() is " << dict.get_charset());
  if (mode == unsupported_src || mode == unsupported_dst) {
    VF_CHECK(thrown, "unsupported-not-reported", "no exception for an unsupported charset");
    VF_CHECK(got.empty(), "wrongly-encoded", "strings returned although the charset cannot be converted:\n" << show(got));
    count("unsupported_pairs");
    nontrivial(hash_str(from + ">" + to));
    return;
  }
  VF_CHECK(!thrown, "exception-for-supported-pair", "exception for " << from << " -> " << to);
  std::string d = diff(ref.msgs, got);
  if (!d.empty()) fail("text-" + diff_key(ref.msgs, got) + (bad ? "-near-invalid" : mode == normal ? "" : "-default-charset"), d + "\nlog: " + log.err_text());
  if (bad) {
    VF_CHECK(log.err.size() >= static_cast<size_t>(bad), "invalid-not-reported", bad << " invalid strings, " << log.err.size() << " error messages");
    count("invalid_strings", static_cast<uint64_t>(bad));
  } else VF_CHECK(log.err.empty(), "error-on-valid-text", log.err_text());
  count("strings_compared", ref.msgs.size());
  if (mode != normal) count("default_charset");
  if (same) count("same_charset");
  if (!strcmp(cs_tables[a].name, "BIG5")) count("big5_catalogs");
  nontrivial(hash_str(std::to_string(a) + ":" + std::to_string(b) + ":" + std::to_string(hash_str(po) % 64)));
}
} // namespace vf
