// Helpers over the charset tables.
#ifndef VF_CS_HPP
#define VF_CS_HPP
#include "pogen.hpp"
#include <cstring>
namespace vf {
static const int n_cs = static_cast<int>(sizeof cs_tables / sizeof *cs_tables);
inline bool clean_bytes(const CsChar& c) {
  if (c.len == 1) return true;
  for (int i = 0; i < c.len; ++i) if (c.bytes[i] == 0x22 || c.bytes[i] == 0x5c || c.bytes[i] == 0x0a || c.bytes[i] == 0) return false;
  return true;
}
inline const CsChar* cs_find(int t, unsigned cp) {   // tables keep pool order; small enough to index once
  static std::vector<std::map<unsigned, const CsChar*>> idx;
  if (idx.empty()) { idx.resize(static_cast<size_t>(n_cs)); for (int i = 0; i < n_cs; ++i) for (unsigned j = 0; j < cs_tables[i].n; ++j) idx[static_cast<size_t>(i)][cs_tables[i].chars[j].cp] = &cs_tables[i].chars[j]; }
  auto i = idx[static_cast<size_t>(t)].find(cp);
  return i == idx[static_cast<size_t>(t)].end() ? nullptr : i->second;
}
inline std::string cs_bytes(const CsChar* c) { return std::string(c->bytes, c->len); }
// glibc converts these pairs directly, with mappings of its own
inline bool cs_direct(int a, int b) {
  auto is = [](int t, const char* n) { return !strcmp(cs_tables[t].name, n); };
  return a != b && ((is(a, "GB2312") && (is(b, "BIG5") || is(b, "GBK"))) || (is(b, "GB2312") && (is(a, "BIG5") || is(a, "GBK"))));
}
// characters both charsets have
inline const std::vector<std::pair<const CsChar*, const CsChar*>>& cs_common(int a, int b) {
  static std::map<std::pair<int, int>, std::vector<std::pair<const CsChar*, const CsChar*>>> memo;
  auto& v = memo[{a, b}];
  bool direct = cs_direct(a, b);
  if (v.empty()) for (unsigned j = 0; j < cs_tables[a].n; ++j) if (!direct || cs_tables[a].chars[j].cp < 0x80) if (const CsChar* o = cs_find(b, cs_tables[a].chars[j].cp)) v.emplace_back(&cs_tables[a].chars[j], o);
  return v;
}
inline std::string random_case(Rng& rng, std::string s) {
  int k = rng.range(0, 2);
  if (k == 0) return s;
  for (char& c : s) if (k == 1 || rng.chance(50)) { if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); }
  return s;
}
// another name of the same charset (all known to glibc)
inline std::string random_alias(Rng& rng, const std::string& name) {
  static const std::map<std::string, std::vector<std::string>> other = {
    {"UTF-8", {"UTF8", "ISO-10646/UTF8", "ISO-10646/UTF-8", "ISO-IR-193"}}, {"ISO-8859-1", {"LATIN1", "ISO8859-1", "L1", "ISO_8859-1", "CP819", "ISO_8859-1:1987", "CSISOLATIN1"}}, {"ISO-8859-2", {"LATIN2", "ISO8859-2", "ISO_8859-2"}}, {"ISO-8859-5", {"CYRILLIC", "ISO8859-5", "CSISOLATINCYRILLIC", "ISO_8859-5:1988"}}, {"ISO-8859-6", {"CSISOLATINARABIC", "ISO_8859-6:1987", "ECMA-114"}}, {"ISO-8859-14", {"ISO_8859-14:1998", "ISO-CELTIC"}}, {"ISO-8859-16", {"ISO_8859-16:2001"}}, {"ISO-8859-10", {"ISO_8859-10:1992"}}, {"CP862", {"CSPC862LATINHEBREW", "IBM862"}}, {"ISO-8859-7", {"GREEK", "ISO8859-7"}},
    {"ISO-8859-8", {"HEBREW", "ISO8859-8", "CSISOLATINHEBREW"}}, {"ISO-8859-9", {"LATIN5", "ISO8859-9"}}, {"ISO-8859-15", {"LATIN-9", "ISO8859-15", "ISO_8859-15"}}, {"CP1250", {"WINDOWS-1250", "MS-EE"}}, {"CP1251", {"WINDOWS-1251", "MS-CYRL"}},
    {"CP1252", {"WINDOWS-1252", "MS-ANSI"}}, {"CP1253", {"WINDOWS-1253"}}, {"CP1254", {"WINDOWS-1254"}}, {"CP1256", {"WINDOWS-1256"}}, {"CP1257", {"WINDOWS-1257"}}, {"CP437", {"IBM437", "437", "CSPC8CODEPAGE437"}}, {"CP850", {"IBM850", "850", "CSPC850MULTILINGUAL"}}, {"CP866", {"IBM866"}},
    {"TIS-620", {"TIS620"}}, {"MACINTOSH", {"MAC"}}, {"ASCII", {"US-ASCII", "ANSI_X3.4-1968", "ISO646-US"}}, {"EUC-JP", {"EUCJP", "UJIS", "CSEUCPKDFMTJAPANESE"}}, {"SHIFT_JIS", {"SJIS", "SHIFT-JIS", "MS_KANJI"}}, {"EUC-KR", {"EUCKR"}}, {"CP949", {"UHC"}},
    {"GB2312", {"EUC-CN", "EUCCN"}}, {"GBK", {"CP936"}}, {"UTF-16LE", {"UTF16LE"}}, {"UTF-16BE", {"UTF16BE"}}, {"KOI8-R", {"KOI8R"}}};
  auto it = other.find(name);
  return it == other.end() ? name : rng.pick(it->second);
}
struct BadBytes { const char* cs; const char* bytes; };
// byte sequences that are invalid in a charset (checked against glibc)
static const BadBytes bad_bytes[] = {
  {"UTF-8", "\xff"}, {"UTF-8", "\xc0\xaf"}, {"UTF-8", "\xed\xa0\x80"}, {"UTF-8", "\xf5\x80\x80\x80"}, {"UTF-8", "\x80"}, {"UTF-8", "\xfe\xfe"},
  {"ASCII", "\x80"}, {"ASCII", "\xe4"}, {"EUC-JP", "\xff"}, {"EUC-KR", "\xff"}, {"GB2312", "\xff"}, {"SHIFT_JIS", "\xff"}, {"GBK", "\xff"}, {"GB18030", "\xff"}, {"CP949", "\xff"}, {"BIG5", "\xff"},
  {"ISO-8859-3", "\xa5"}, {"ISO-8859-7", "\xff"}, {"ISO-8859-8", "\xbf"}, {"CP1252", "\x81"}, {"CP1253", "\xd2"}, {"CP1257", "\xa1"}, {"TIS-620", "\xff"}, {"CP1250", "\x81"}, {"CP1254", "\x81"},
};
} // namespace vf
#endif
