// Hostile catalogs: mutated, truncated and invented bytes.
#ifndef VF_HOSTILE_HPP
#define VF_HOSTILE_HPP
#include "pogen.hpp"
namespace vf {

inline const std::vector<std::string>& hostile_charsets() {
  static const std::vector<std::string> v = {
    "UTF-8", "utf-8", "UTF8", "BIG5", "Big5", "ISO-8859-1", "iso-8859-15", "CP1252", "KOI8-R", "ASCII", "US-ASCII", "EUC-JP", "SHIFT_JIS", "GBK", "GB18030", "EUC-KR",
    "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32", "UCS-4", "UTF-7", "ISO-2022-JP", "ISO-2022-KR", "BIG5-HKSCS", "TIS-620", "CHARSET", "NONSENSE", "", " UTF-8", "UTF-8 ", "UTF-8\r", "x", "///", "UTF-8//IGNORE", "ASCII//TRANSLIT"};
  return v;
}
inline const std::vector<std::string>& hostile_dict_charsets() {
  static const std::vector<std::string> v = {"UTF-8", "UTF-8", "UTF-8", "utf-8", "ISO-8859-1", "UTF-16", "UTF-32", "UTF-32LE", "UTF-7", "ISO-2022-JP", "BIG5", "ASCII//TRANSLIT", "EUC-JP", "NONSENSE", "", "GB18030"};
  return v;
}
inline const std::vector<std::string>& tokens() {
  static const std::vector<std::string> v = {
    "msgid", "msgid_plural", "msgstr", "msgstr[", "msgstr[0]", "msgstr[1]", "msgstr[9]", "msgstr[10]", "msgstr[a]", "msgctxt", "msgid \"\"\nmsgstr \"\"\n", "\"", "\"\"", " \"", "\"\n", "\n", "\n\n", "\r\n", "\r", " ", "\t",
    "#", "#,", "#, fuzzy", "#~", "# ", "#:", "\\", "\\n", "\\\"", "\\\\", "\\x", "\xef\xbb\xbf", "\x81", "\xfe", "\xa5\x5c", "\xff", "\xc3", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x1b$B", "\x1b(B", "+AGE-", "~{",
    "Content-Type: text/plain; charset=", "Content-Type:", "Plural-Forms: nplurals=2; plural=(n != 1);\\n", "Plural-Forms:", "Plural-Forms: nplurals=6; plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5\\n", "a", "b", "msgid \"a\"\n", "msgstr \"b\"\n", "msgctxt \"c\"\n", "msgid_plural \"as\"\n", "msgstr[0] \"x\"\n", "msgstr[1] \"y\"\n"};
  return v;
}
inline std::string with_nul(Rng& rng) { return std::string(static_cast<size_t>(rng.range(1, 4)), rng.chance(50) ? '\0' : '\xff'); }

// a plausible catalog
inline std::string seed_catalog(Rng& rng, int max_entries, const std::string& charset) {
  PoWriter w(rng, random_layout(rng));
  std::string rule = plural_rules[rng.below(n_plural_rules)];
  if (rng.chance(85)) { w.put_entry(header_entry(rng, charset, rng.chance(60) ? rule : "")); w.put_separator(); }
  for (int n = rng.range(0, max_entries); n > 0; --n) {
    Entry e;
    e.id = random_utf8(rng, 8);
    e.has_ctxt = rng.chance(30);
    if (e.has_ctxt) e.ctxt = random_utf8(rng, 5);
    e.plural = rng.chance(40);
    e.fuzzy = rng.chance(10);
    e.obsolete = rng.chance(5);
    if (e.plural) {
      e.id2 = random_utf8(rng, 8);
      for (int f = rng.range(0, 4); f >= 0; --f) e.strs.emplace_back(rng.range(0, 9), random_utf8(rng, 12));
    } else e.strs.emplace_back(0, random_utf8(rng, 16));
    w.put_entry(e);
    w.put_separator();
  }
  return w.finish();
}

inline std::string odd_layout_catalog(Rng& rng);
inline std::string hostile_catalog(Rng& rng) {
  std::string cs = rng.pick(hostile_charsets());
  std::string s;
  int kind = static_cast<int>(rng.below(10));
  if (kind < 6) {
    s = rng.chance(15) ? odd_layout_catalog(rng) : seed_catalog(rng, 8, cs);
    int ops = rng.range(0, 6);
    for (int i = 0; i < ops && !s.empty(); ++i) {
      size_t p = rng.below(static_cast<uint32_t>(s.size()));
      switch (rng.below(9)) {
        case 0: s[p] = static_cast<char>(rng.below(256)); break;
        case 1: s.erase(p, rng.below(5) + 1); break;
        case 2: s.insert(p, rng.pick(tokens())); break;
        case 3: s.resize(p); break;                                   // truncation
        case 4: { size_t q = s.find('\n', p); if (q != std::string::npos) s.erase(q, 1); break; }
        case 5: s.insert(p, with_nul(rng)); break;
        case 6: { size_t q = rng.below(static_cast<uint32_t>(s.size())); size_t n = rng.below(60); s.insert(p, s.substr(q, n)); break; }
        case 7: { size_t q = s.find('"', p); if (q != std::string::npos) s.erase(q, 1); break; }
        case 8: { size_t q = s.find('\n', p); if (q != std::string::npos && q > 1) s.insert(q > 0 ? q - 1 : 0, rng.chance(50) ? "\\" : "\xa4"); break; }
      }
    }
  } else if (kind < 9) {
    if (rng.chance(50)) s = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=" + cs + "\\n\"\n\n";
    for (int n = rng.range(0, 40); n > 0; --n) s += rng.pick(tokens());
  } else {
    for (int n = rng.range(0, 200); n > 0; --n) s += static_cast<char>(rng.below(256));
  }
  if (rng.chance(20)) while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
  return s;
}

// a plausible catalog whose white space, quotes and line ends are anything
inline std::string odd_layout_catalog(Rng& rng) {
  static const std::vector<std::string> gap = {" ", " ", " ", "", "\t", "  ", "\n", " \n", "\r\n", "\n\n", "\n \t", " x ", "\n# c\n", "\f", "\v ", "\n#, fuzzy\n", "\xc2\xa0"};
  static const std::vector<std::string> tail = {"\n", "\n", "\n", "\n", " \n", "\t\n", "\r\n", "\n\n", " # c\n", " trailing\n", "\"\n", "", ";\n", "\n#\n", "\n\t\n", "\f\n"};
  static const std::vector<std::string> bodies = {"\"v\"", "\"\"", "\"a\" \"b\"", "\"a\"\n\"b\"", "\"a\"\n  \"b\"", "\"\"\n\"a\"", "\"a", "a\"", "a", "'a'", "\"a\\\"", "\"a\\\\\"", "\"\\n\"", "\"a\"\n\n\"b\"", "\"a\"\n# c\n\"b\"", "\"\\q\"", "\"\t\"", "\"\xc3\xa4\"", "\"\xff\""};
  std::string s;
  if (rng.chance(60)) s = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\nPlural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n";
  int odd = rng.range(3, 40);
  auto put = [&](const std::string& keyword, const std::string& usual) {
    s += keyword;
    s += rng.chance(odd) ? rng.pick(gap) : std::string(" ");
    s += rng.chance(odd) ? rng.pick(bodies) : "\"" + usual + "\"";
    s += rng.chance(odd) ? rng.pick(tail) : std::string("\n");
  };
  for (int n = rng.range(1, 6); n > 0; --n) {
    if (rng.chance(20)) s += rng.chance(50) ? "# c\n" : "#, fuzzy\n";
    if (rng.chance(30)) put("msgctxt", "c" + std::to_string(rng.below(2)));
    put("msgid", "m" + std::to_string(rng.below(4)));
    if (rng.chance(40)) { put("msgid_plural", "ms"); for (int f = 0; f < rng.range(1, 3); ++f) put("msgstr[" + std::to_string(f) + "]", "f" + std::to_string(f)); }
    else put("msgstr", "t" + std::to_string(n));
    if (!rng.chance(odd / 2)) s += "\n";
  }
  if (rng.chance(15)) while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
  return s;
}

} // namespace vf
#endif
