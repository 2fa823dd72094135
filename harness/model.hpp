// Reference models: dictionary, languages, search path.
#ifndef VF_MODEL_HPP
#define VF_MODEL_HPP
#include "common.hpp"
#include "langtable.hpp"
#include "pluralref.hpp"
#include <tinygettext/dictionary.hpp>
#include <tinygettext/language.hpp>
#include <algorithm>

namespace vf {

typedef std::vector<std::string> Strs;
struct MsgKey {
  bool has_ctxt; std::string ctxt, id;
  bool operator<(const MsgKey& o) const { return std::tie(has_ctxt, ctxt, id) < std::tie(o.has_ctxt, o.ctxt, o.id); }
  bool operator==(const MsgKey& o) const { return has_ctxt == o.has_ctxt && ctxt == o.ctxt && id == o.id; }
};
typedef std::map<MsgKey, Strs> Msgs;

inline std::string show(const MsgKey& k) { return (k.has_ctxt ? "ctxt " + quote(k.ctxt) + " " : std::string()) + "id " + quote(k.id); }
inline std::string show(const Strs& v) { std::string r = "["; for (auto& s : v) r += quote(s, 300) + ","; return r + "]"; }
inline std::string show(const Msgs& m) { std::string r; for (auto& e : m) r += "  " + show(e.first) + " -> " + show(e.second) + "\n"; return r; }

// ---------------------------------------------------------------- dictionary
struct RefDict {
  Msgs msgs;
  std::set<std::string> contexts;
  std::shared_ptr<PluralExpr> rule;      // null: always form 0
  const RefDict* fallback = nullptr;

  void add(const MsgKey& k, const std::string& s) {
    Strs& v = msgs[k];
    if (v.empty()) v.push_back(s); else v[0] = s;
  }
  void add(const MsgKey& k, const Strs& s) { msgs[k] = s; }
  std::string translate(const MsgKey& k) const {
    auto i = msgs.find(k);
    if (i != msgs.end() && !i->second.empty()) return i->second[0];
    return fallback ? fallback->translate(k) : k.id;
  }
  std::string translate_plural(const MsgKey& k, const std::string& id2, int n) const {
    auto i = msgs.find(k);
    if (i == msgs.end()) {
      if (fallback) return fallback->translate_plural(k, id2, n);
      return n == 1 ? k.id : id2;
    }
    uint64_t idx = rule ? static_cast<uint64_t>(rule->eval(n)) : 0;
    if (idx >= i->second.size()) return k.id;
    if (!i->second[idx].empty()) return i->second[idx];
    return n == 1 ? k.id : id2;
  }
};

inline Msgs dump(tinygettext::Dictionary& d, bool* dup = nullptr) {
  Msgs m;
  d.foreach([&](const std::string& id, const std::vector<std::string>& v) {
    if (!m.emplace(MsgKey{false, "", id}, v).second && dup) *dup = true;
  });
  d.foreach_ctxt([&](const std::string& c, const std::string& id, const std::vector<std::string>& v) {
    if (!m.emplace(MsgKey{true, c, id}, v).second && dup) *dup = true;
  });
  return m;
}
inline std::string lookup(const tinygettext::Dictionary& d, const MsgKey& k) {
  return k.has_ctxt ? d.translate_ctxt(k.ctxt, k.id) : d.translate(k.id);
}
inline std::string lookup_plural(const tinygettext::Dictionary& d, const MsgKey& k, const std::string& id2, int n) {
  return k.has_ctxt ? d.translate_ctxt_plural(k.ctxt, k.id, id2, n) : d.translate_plural(k.id, id2, n);
}
// first difference between two message tables, "" if equal
inline std::string diff(const Msgs& expect, const Msgs& got) {
  for (auto& e : expect) {
    auto g = got.find(e.first);
    if (g == got.end()) return "missing " + show(e.first) + " expected " + show(e.second);
    if (g->second != e.second) return "wrong " + show(e.first) + " expected " + show(e.second) + " got " + show(g->second);
  }
  for (auto& g : got) if (!expect.count(g.first)) return "unexpected " + show(g.first) + " -> " + show(g.second);
  return "";
}
inline std::string diff_key(const Msgs& expect, const Msgs& got) {
  for (auto& e : expect) { auto g = got.find(e.first); if (g == got.end()) return "lost"; if (g->second != e.second) return "altered"; }
  for (auto& g : got) if (!expect.count(g.first)) return "invented";
  return "";
}

// ---------------------------------------------------------------- languages
static const int n_langs = static_cast<int>(sizeof lang_rows / sizeof *lang_rows);
static const int n_aliases = static_cast<int>(sizeof alias_rows / sizeof *alias_rows);

// score of (language, country, modifier) against another
inline int ref_match(const std::string& l1, const std::string& c1, const std::string& m1,
                     const std::string& l2, const std::string& c2, const std::string& m2) {
  if (l1 != l2) return 0;
  static const int tbl[3][3] = {{9, 8, 5}, {7, 6, 3}, {4, 2, 1}};
  int c = c1 == c2 ? 0 : (c1.empty() || c2.empty()) ? 1 : 2;
  int m = m1 == m2 ? 0 : (m1.empty() || m2.empty()) ? 1 : 2;
  return tbl[c][m];
}
inline int ref_match(int a, int b) {
  return ref_match(lang_rows[a].lang, lang_rows[a].country, lang_rows[a].modifier, lang_rows[b].lang, lang_rows[b].country, lang_rows[b].modifier);
}
// index into lang_rows or -1
inline int ref_from_spec(const std::string& l, const std::string& c, const std::string& m) {
  int best = -1, score = 0;
  for (int i = 0; i < n_langs; ++i) {
    int s = ref_match(lang_rows[i].lang, lang_rows[i].country, lang_rows[i].modifier, l, c, m);
    if (s > score) { score = s; best = i; }
  }
  return best;
}
// all rows with the best score
inline std::set<int> ref_best(const std::string& l, const std::string& c, const std::string& m) {
  std::set<int> r; int score = 0;
  for (int i = 0; i < n_langs; ++i) {
    int s = ref_match(lang_rows[i].lang, lang_rows[i].country, lang_rows[i].modifier, l, c, m);
    if (s > score) { score = s; r.clear(); }
    if (s && s == score) r.insert(i);
  }
  return r;
}
struct LangParts { std::string l, c, m; };
// language[_COUNTRY][.codeset][@modifier]
inline LangParts ref_split(const std::string& s) {
  LangParts p;
  size_t at = s.find('@');
  std::string head = s.substr(0, at);
  if (at != std::string::npos) p.m = s.substr(at + 1);
  head = head.substr(0, head.find('.'));
  size_t us = head.find('_');
  p.l = head.substr(0, us);
  if (us != std::string::npos) p.c = head.substr(us + 1);
  return p;
}
inline int ref_from_env(const std::string& s) { LangParts p = ref_split(s); return ref_from_spec(p.l, p.c, p.m); }
inline std::string ref_str(int i) {
  if (i < 0) return "";
  std::string r = lang_rows[i].lang;
  if (*lang_rows[i].country) r += std::string("_") + lang_rows[i].country;
  if (*lang_rows[i].modifier) r += std::string("@") + lang_rows[i].modifier;
  return r;
}
inline std::string ascii_lower(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
inline std::string ascii_upper(std::string s) { for (char& c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return s; }
inline int ref_from_name(const std::string& s) {
  std::string l = ascii_lower(s);
  for (auto& a : alias_rows) if (l == a.alias) return ref_from_env(a.target);
  return ref_from_env(s);
}
inline bool ends_with_po(const std::string& f) { return f.size() >= 3 && f.compare(f.size() - 3, 3, ".po") == 0; }
// file name -> language part with upper-case country
inline std::string ref_file_lang(const std::string& f) {
  std::string s = ends_with_po(f) ? f.substr(0, f.size() - 3) : f;
  size_t us = s.find('_');
  if (us != std::string::npos)
    for (size_t i = us + 1; i < s.size(); ++i) {
      if (s[i] >= 'a' && s[i] <= 'z') s[i] = static_cast<char>(s[i] - 32);
      else if (!(s[i] >= 'A' && s[i] <= 'Z')) break;
    }
  return s;
}
inline int ref_file(const std::string& f) { return ends_with_po(f) ? ref_from_env(ref_file_lang(f)) : -1; }

inline tinygettext::Language real_lang(int i) {
  return tinygettext::Language::from_spec(lang_rows[i].lang, lang_rows[i].country, lang_rows[i].modifier);
}

} // namespace vf
#endif
