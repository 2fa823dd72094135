// Helpers of the harnesses that drive DictionaryManager.
#ifndef VF_MGR_HPP
#define VF_MGR_HPP
#include "pogen.hpp"
#include <tinygettext/dictionary_manager.hpp>
#include <tinygettext/plural_forms.hpp>

namespace vf {

struct CatOpt {
  std::string tag;            // every translation starts with it
  std::string rule;           // Plural-Forms header or ""
  std::string charset = "UTF-8";
  int max_messages = 8, ids = 6, ctxts = 2;
  int fuzzy = 0;              // percentage
  int untranslated = 0;       // percentage
  bool mixed = false;         // a message may be plural here and singular there
  bool latin = false;         // add characters outside ASCII
};

// a message is plural or not by its key alone
inline bool kind_plural(const MsgKey& k) { return (hash_str(k.id + "/" + k.ctxt + (k.has_ctxt ? "c" : "-")) >> 7) & 1; }

// random entries, no key twice
inline std::vector<Entry> random_entries(Rng& rng, const CatOpt& o) {
  std::vector<Entry> r;
  std::set<MsgKey> seen;
  for (int m = rng.range(0, o.max_messages); m > 0; --m) {
    Entry e;
    e.id = units("id" + std::to_string(rng.below(static_cast<uint32_t>(o.ids))));
    e.has_ctxt = rng.chance(40);
    if (e.has_ctxt) e.ctxt = units("c" + std::to_string(rng.below(static_cast<uint32_t>(o.ctxts))));
    if (!seen.insert(e.key()).second) continue;
    e.plural = o.mixed ? rng.chance(50) : kind_plural(e.key());
    e.id2 = units(join(e.id) + "s");
    e.fuzzy = rng.chance(o.fuzzy);
    int forms = e.plural ? rng.range(1, 6) : 1;
    bool empty = rng.chance(o.untranslated), own = rng.chance(6);      // translated as itself
    for (int f = 0; f < forms; ++f) {
      Text t = empty ? Text() : units(o.tag + ":" + std::to_string(f));
      if (!empty && f == 0 && own) t = e.id;
      if (!empty && o.latin && rng.chance(50)) t.push_back(o.charset == "UTF-8" ? "\xc3\xa4" : "\xe4");
      e.strs.emplace_back(f, t);
    }
    r.push_back(e);
  }
  return r;
}
inline std::string render(Rng& rng, const std::vector<Entry>& es, const std::string& charset, const std::string& rule, bool header = true) {
  Layout l = random_layout(rng);
  PoWriter w(rng, l);
  if (header) { w.put_entry(header_entry(rng, charset, rule)); w.put_separator(); }
  for (auto& e : es) { w.put_entry(e); w.put_separator(); }
  return w.finish();
}

// everything observable about one dictionary
struct Sig {
  Msgs msgs;
  std::string charset, plural, lookups;
  bool operator==(const Sig& o) const { return msgs == o.msgs && charset == o.charset && plural == o.plural && lookups == o.lookups; }
  std::string first_difference(const Sig& got) const {
    if (charset != got.charset) return "charset " + charset + " vs " + got.charset;
    if (plural != got.plural) return "plural rule " + plural + " vs " + got.plural;
    std::string d = diff(msgs, got.msgs);
    if (!d.empty()) return d;
    if (lookups != got.lookups) {
      size_t i = 0; while (i < lookups.size() && i < got.lookups.size() && lookups[i] == got.lookups[i]) ++i;
      size_t a = lookups.rfind('\n', i); a = a == std::string::npos ? 0 : a + 1;
      return "lookups differ: expected " + quote(lookups.substr(a, 160)) + " got " + quote(got.lookups.substr(a, 160));
    }
    return "";
  }
};
inline std::string plural_sig(const tinygettext::Dictionary& d) {
  tinygettext::PluralForms p = d.get_plural_forms();
  if (!p) return "none";
  std::string r = std::to_string(p.get_nplural()) + ":";
  for (int n = 0; n < 130; ++n) r += static_cast<char>('0' + p.get_plural(n));
  return r;
}
inline Sig signature(tinygettext::Dictionary& d, int ids = 7, int ctxts = 3) {
  Sig s;
  s.msgs = dump(d);
  s.charset = d.get_charset();
  s.plural = plural_sig(d);
  for (int i = 0; i < ids; ++i)
    for (int c = -1; c < ctxts; ++c) {
      MsgKey k{c >= 0, c >= 0 ? "c" + std::to_string(c) : "", "id" + std::to_string(i)};
      s.lookups += show(k) + "=" + lookup(d, k);
      for (int n : {0, 1, 2, 3, 5, 11, 21, 102}) s.lookups += "|" + lookup_plural(d, k, k.id + "s", n);
      s.lookups += "\n";
    }
  return s;
}

// the languages used most by the manager harnesses: every case class of the table
inline const std::vector<std::string>& some_langs() {
  static const std::vector<std::string> v = {"de", "de_AT", "de_CH", "de_DE", "pt", "pt_BR", "pt_PT", "sr", "sr@latin", "ca", "ca_ES", "ca_ES@valencia", "ca@valencia", "en", "en_US", "en_GB", "en_US@piglatin", "zh", "zh_CN", "zh_TW", "uz@cyrillic", "uz", "nb", "nb_NO", "fr", "fr_CA", "be", "be@latin", "ar", "ar_SY"};
  return v;
}
inline tinygettext::Language lang_of(const std::string& s) {
  LangParts p = ref_split(s);
  return tinygettext::Language::from_spec(p.l, p.c, p.m);
}

inline std::string show_fs(const MemData& d, size_t max = 1500) {
  std::string r;
  for (auto& x : d.dirs) { r += "directory " + x.first + ":\n"; for (auto& f : x.second) r += "  " + quote(f.first) + ": " + quote(f.second, max) + "\n"; }
  for (auto& f : d.faults) r += "fault " + f.first + ": " + fault_name(f.second.first) + " " + std::to_string(f.second.second) + "\n";
  return r;
}

} // namespace vf
#endif
