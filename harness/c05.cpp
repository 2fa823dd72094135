// C05: the converter is total and free of history.
#include "cs.hpp"
#include <tinygettext/iconv.hpp>
#include <cerrno>
#include <cstring>

namespace vf {
const char* const property_id = "C05";
void harness_init() { default_step_budget = 1000000000; }
void harness_done() {}

// a complete conversion with raw iconv and as much room as it wants; for an
// invalid text of the part up to the invalid sequence (as it comes, or
// converted by itself)
static std::string raw(const std::string& from, const std::string& to, const std::string& text, bool* whole, size_t* consumed) {
  iconv_t cd = ::iconv_open(ascii_upper(to).c_str(), ascii_upper(from).c_str());
  if (cd == reinterpret_cast<iconv_t>(-1)) harness_error("iconv_open");
  std::string out(text.size() * 16 + 256, '\0');
  char* in = const_cast<char*>(text.data());
  size_t inleft = text.size();
  char* o = &out[0];
  size_t oleft = out.size();
  size_t r = ::iconv(cd, &in, &inleft, &o, &oleft);
  *consumed = text.size() - inleft;
  *whole = r != static_cast<size_t>(-1);
  ::iconv(cd, nullptr, nullptr, &o, &oleft);
  ::iconv_close(cd);
  out.resize(out.size() - oleft);
  return out;
}

static std::string random_text(Rng& rng, const std::string& from, bool* clean) {
  *clean = true;
  int t = -1;
  for (int i = 0; i < n_cs; ++i) if (ascii_upper(from) == cs_tables[i].name) t = i;
  std::string s;
  int len = rng.chance(10) ? 0 : rng.chance(6) ? rng.range(500, 6000) : rng.sized(1, 40, 300000, 4);
  if (rng.chance(20) && len) len = 1;
  if (t >= 0) {
    int style = rng.range(0, 2);
    for (int i = 0; i < len; ++i) {
      unsigned n = cs_tables[t].n;
      unsigned k = style == 0 ? rng.below(n) : style == 1 ? rng.below(std::min(n, 95u)) : n - 1 - rng.below(std::min(n, 300u));
      s += cs_bytes(&cs_tables[t].chars[k]);
    }
  } else for (int i = 0; i < len; ++i) s += static_cast<char>(rng.range(32, 126));
  if (rng.chance(15)) {
    *clean = false;
    size_t p = rng.below(static_cast<uint32_t>(s.size() + 1));
    switch (rng.below(4)) {
      case 0: s.insert(p, "\xff"); break;
      case 1: s.insert(p, 1, static_cast<char>(rng.range(128, 255))); break;
      case 2: if (!s.empty()) s.pop_back(); break;
      case 3: for (int i = rng.range(1, 20); i > 0; --i) s += static_cast<char>(rng.below(256)); break;
    }
  }
  return s;
}

static const std::vector<std::string> froms = {
  "UTF-8", "UTF-8", "UTF-8", "utf-8", "ISO-8859-1", "ISO-8859-15", "KOI8-R", "BIG5", "EUC-JP", "SHIFT_JIS", "GBK", "GB18030", "EUC-KR", "ASCII", "CP1252", "UTF-16LE", "UTF-32BE", "UTF-7", "ISO-2022-JP", "TIS-620", "CP949", "cp1251"};
static const std::vector<std::string> tos = {
  "UTF-8", "utf-8", "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32", "UTF-32LE", "UCS-4", "UTF-7", "ISO-2022-JP", "ISO-2022-KR", "EUC-JP", "EUC-JISX0213", "SHIFT_JISX0213", "BIG5-HKSCS", "TCVN5712-1", "CP1258", "BIG5", "GB18030", "ISO-8859-1", "ISO-8859-15", "ASCII", "ASCII//TRANSLIT", "ISO-8859-1//TRANSLIT", "KOI8-U", "CP1252"};
static const std::vector<std::string> nonsense = {"NO-SUCH", "UTF-9", "", "???", "iso-8859-99", "X Y"};

void run_case(uint64_t index, Rng& rng) {
  LogScope log;
  std::string hist;
  std::unique_ptr<tinygettext::IConv> conv;
  std::string from, to;
  std::pair<std::string, std::string> last;
  bool set = false, usable = false;
  int ops = rng.sized(2, 14, 400, 10);
  uint64_t sig = 0;
  bool interesting = false;
  if (rng.chance(50)) { conv.reset(new tinygettext::IConv); hist += "IConv();\n"; usable = true; }
  for (int i = 0; i < ops; ++i) {
    if (!conv || rng.chance(25) || !set) {
      if (conv && !set && rng.chance(20)) {
        // never configured: text passes through
        bool c; std::string t = random_text(rng, "UTF-8", &c);
        hist += "convert(" + quote(t, 300) + ") [no charsets set]\n"; describe(hist);
        VF_CHECK(conv->convert(t) == t, "unset-not-identity", "a converter without charsets changed the text");
        count("identity_conversions");
        continue;
      }
      std::string f = rng.pick(froms), t = rng.pick(tos);
      if (rng.chance(12)) (rng.chance(50) ? f : t) = rng.pick(nonsense);
      if (rng.chance(12)) t = random_case(rng, f);
      if (!last.first.empty() && rng.chance(25)) { f = last.first; t = last.second; count("repeated_selections"); }   // the same pair again
      if (rng.chance(20)) { f = ascii_upper(f); t = ascii_upper(t); }
      last = {f, t};
      hist += std::string(conv ? "set_charsets(" : "IConv(") + f + ", " + t + ");\n"; describe(hist);
      bool same = ascii_upper(f) == ascii_upper(t);
      iconv_t probe = ::iconv_open(ascii_upper(t).c_str(), ascii_upper(f).c_str());
      bool ok = probe != reinterpret_cast<iconv_t>(-1);
      if (ok) ::iconv_close(probe);
      bool thrown = false;
      try {
        if (conv) conv->set_charsets(f, t); else conv.reset(new tinygettext::IConv(f, t));
      } catch (std::exception& e) { thrown = true; VF_CHECK(*e.what(), "empty-exception", "exception without text"); }
      catch (...) { fail("non-standard-exception", "set_charsets threw a non-standard exception"); return; }
      if (same) VF_CHECK(!thrown, "exception-for-equal-charsets", "set_charsets threw for equal charsets");
      else VF_CHECK(thrown == !ok, ok ? "exception-for-supported" : "no-exception-for-unsupported", f << " -> " << t << (thrown ? " threw" : " did not throw"));
      if (case_failed()) return;
      set = true;
      if (thrown) { usable = false; count("unsupported_selections"); }
      else { usable = true; from = f; to = t; count("selections"); }
      sig = hash_str(f + ">" + t, sig ? sig : 1469598103934665603ull);
      continue;
    }
    if (!usable) {
      // after a failed selection the converter is like one without charsets, until the next selection
      bool c; std::string t = random_text(rng, "UTF-8", &c);
      hist += "convert(" + quote(t, 300) + ") [after failed selection]\n"; describe(hist);
      std::string g = conv->convert(t);
      VF_CHECK(g == t, "changed-after-failed-selection", "after a failed selection of charsets the text was changed to " << quote(g, 300));
      count("conversions_after_failure");
      continue;
    }
    bool clean;
    std::string text = random_text(rng, from, &clean);
    hist += "convert(" + quote(text, 2000) + ") [" + from + "->" + to + "]\n"; describe(hist);
    size_t errs = log.err.size();
    std::string got = conv->convert(text);
    bool reported = log.err.size() > errs;
    count("conversions");
    if (ascii_upper(from) == ascii_upper(to)) { VF_CHECK(got == text, "identity-changed", "equal charsets but the text changed"); continue; }
    std::string fresh;
    { tinygettext::IConv f(from, to); fresh = f.convert(text); }
    VF_CHECK(got == fresh, "history-dependent", "got " << quote(got, 500) << " but a fresh converter gives " << quote(fresh, 500));
    bool whole;
    size_t used;
    std::string want = raw(from, to, text, &whole, &used);
    if (got != want && !whole) { bool w2; size_t u2; want = raw(from, to, text.substr(0, used), &w2, &u2); }
    if (got != want) fail(whole ? "incomplete-text" : "invalid-prefix", "got " + quote(got, 600) + " expected " + quote(want, 600));
    VF_CHECK(whole || reported, "invalid-not-reported", "invalid text was not reported");
    VF_CHECK(!whole || !reported, "valid-reported", "a valid text was reported as invalid");
    if (!whole) count("invalid_texts");
    if (got.size() > 4 * text.size()) { count("expanding_conversions"); interesting = true; }
    // independent tables
    int a = -1, b = -1;
    for (int k = 0; k < n_cs; ++k) { if (ascii_upper(from) == cs_tables[k].name) a = k; if (ascii_upper(to) == cs_tables[k].name) b = k; }
    if (a >= 0 && b >= 0) {
      std::string t2, w2;
      auto& common = cs_common(a, b);
      for (int k = rng.range(1, 20); k > 0; --k) { auto& p = common[rng.below(static_cast<uint32_t>(common.size()))]; t2 += cs_bytes(p.first); w2 += cs_bytes(p.second); }
      hist += "convert(" + quote(t2, 500) + ")\n"; describe(hist);
      std::string g2 = conv->convert(t2);
      VF_CHECK(g2 == w2, "wrong-text", from << "->" << to << " got " << quote(g2, 500) << " expected " << quote(w2, 500));
      count("table_conversions");
    }
    interesting = true;
  }
  if (index % 1000 == 5) sample(hist.substr(0, 800));
  if (interesting) nontrivial(sig ^ hash_str(hist));
}
} // namespace vf
