// Writes catalogs: a list of messages laid out in every legal way.
#ifndef VF_POGEN_HPP
#define VF_POGEN_HPP
#include "common.hpp"
#include "model.hpp"
#include "charsets.hpp"

namespace vf {

// A text as a list of characters, each already encoded; an unsupported escape
// sequence (kept verbatim by the loader) is the two bytes '\' and a letter.
typedef std::vector<std::string> Text;
inline std::string join(const Text& t) { std::string r; for (auto& u : t) r += u; return r; }
inline Text units(const std::string& ascii) { Text t; for (char c : ascii) t.push_back(std::string(1, c)); return t; }

struct Entry {
  bool has_ctxt = false, plural = false, fuzzy = false, obsolete = false;
  Text ctxt, id, id2;
  std::vector<std::pair<int, Text>> strs;   // index, text (index 0 for singular)
  MsgKey key() const { return MsgKey{has_ctxt, join(ctxt), join(id)}; }
  // what a lossless loader stores; false if untranslated
  bool stored(Strs& out) const {
    out.clear();
    bool any = false;
    for (auto& s : strs) {
      if (static_cast<size_t>(s.first) >= out.size()) out.resize(static_cast<size_t>(s.first) + 1);
      out[static_cast<size_t>(s.first)] = join(s.second);
      if (!s.second.empty()) any = true;
    }
    return any;
  }
};

struct Layout {
  bool crlf = false, mixed_eol = false, bom = false, final_newline = true;
  int wild = 30;            // percentage of unusual layout choices
  bool comments = true;
  bool far = false;         // some stretches of white space and comments are very long
};

class PoWriter {
public:
  Rng& rng;
  Layout lay;
  std::string out;
  int line = 1;             // number of the line being written next
  PoWriter(Rng& r, const Layout& l) : rng(r), lay(l) { if (l.bom) out += "\xef\xbb\xbf"; }

  void put_line(const std::string& s) {
    out += s;
    out += (lay.mixed_eol ? rng.chance(50) : lay.crlf) ? "\r\n" : "\n";
    ++line;
  }
  bool wild() { return rng.chance(lay.wild); }
  std::string ws() { static const std::vector<std::string> w = {" ", "\t", "  ", " \t ", "\t\t"}; if (lay.far && rng.chance(20)) return std::string(static_cast<size_t>(rng.sized(1, 300, 150000, 1000)), rng.chance(50) ? ' ' : '\t'); return rng.pick(w); }

  std::string escape(const std::string& u) {
    if (u.size() != 1) return u;
    switch (u[0]) {
      case '"': return "\\\"";
      case '\\': return "\\\\";
      case '\n': return "\\n";
      case '\a': return rng.chance(70) ? "\\a" : u;
      case '\b': return rng.chance(70) ? "\\b" : u;
      case '\v': return rng.chance(70) ? "\\v" : u;
      case '\t': return rng.chance(50) ? "\\t" : u;
      case '\r': return rng.chance(80) ? "\\r" : u;
    }
    return u;
  }

  void put_string(const std::string& keyword, const Text& t) {
    std::vector<std::string> segs(1);
    bool split = rng.chance(25) || (wild() && rng.chance(50));
    if (split && rng.chance(50)) segs.push_back("");     // the usual: empty first line
    for (size_t i = 0; i < t.size(); ++i) {
      segs.back() += escape(t[i]);
      if (split && (t[i] == "\n" ? rng.chance(80) : rng.chance(12))) segs.push_back("");
    }
    for (size_t i = 0; i < segs.size(); ++i) {
      std::string l;
      if (i == 0) {
        l = keyword;
        if (wild()) { if (rng.chance(70)) l += ws(); } else l += " ";
      } else if (wild() && rng.chance(40)) l += ws();
      l += "\"" + segs[i] + "\"";
      if (wild() && rng.chance(30)) l += ws();
      put_line(l);
    }
  }

  void put_comment(bool allow_flags = true) {
    static const std::vector<std::string> c = {
      "# translator comment", "#", "#. extracted comment \"quoted\"", "#: src/main.cpp:12 src/fuzzy.cpp:3", "#. this is fuzzy logic",
      "#| msgid \"old fuzzy text\"", "# fuzzy", "#\tmsgid \"nope\"", "#~ msgid \"gone\"", "#: \"", "#  msgstr \"x", "#| msgid_plural \"x\"", "#~| msgid \"a\""};
    static const std::vector<std::string> f = {"#, c-format", "#, no-c-format, range: 0..10", "#,c++-format", "#, python-format, no-wrap", "#, fuzz", "#, c-format, fuz-zy"};
    std::string l = allow_flags && rng.chance(20) ? rng.pick(f) : rng.pick(c);
    if (lay.far && rng.chance(30) && l.size() > 2) for (int k = rng.sized(1, 300, 150000, 1000); k > 0; --k) l += static_cast<char>(rng.range('g', 'z'));
    put_line(l);
  }
  void put_fuzzy_flag() {
    static const std::vector<std::string> f = {"#, fuzzy", "#,fuzzy", "#, c-format, fuzzy", "#, fuzzy, c-format", "#, no-wrap,fuzzy,c-format", "#,  fuzzy"};
    std::string l = rng.pick(f);
    if (lay.far && rng.chance(50)) { std::string more; for (int k = rng.sized(1, 100, 20000, 1000); k > 0; --k) more += " no-wrap,"; l.insert(2, more); }
    int more = rng.chance(15) ? static_cast<int>(rng.below(3)) : 9;
    static const std::vector<std::string> other = {"#, c-format", "#, no-wrap", "#, range: 0..10"};
    if (more == 1) put_line(rng.pick(other));
    put_line(l);
    if (more == 0 || more == 2) { if (more == 2 && lay.comments) put_comment(false); put_line(rng.pick(other)); }
  }

  void put_blank() { put_line(wild() && rng.chance(30) ? ws() : std::string()); }

  // the entry without the separating blank line
  void put_entry(const Entry& e) {
    if (e.obsolete) {
      PoWriter w(rng, Layout());
      Entry x = e; x.obsolete = false; x.fuzzy = false;
      w.lay.comments = false;
      w.put_entry(x);
      if (e.fuzzy) put_line("#, fuzzy");
      size_t a = 0;
      while (a < w.out.size()) { size_t b = w.out.find('\n', a); put_line("#~ " + w.out.substr(a, b - a)); a = b + 1; }
      return;
    }
    if (lay.comments) for (int n = rng.chance(40) ? rng.range(1, 3) : 0; n > 0; --n) put_comment();
    if (e.fuzzy) { put_fuzzy_flag(); if (lay.comments && rng.chance(30)) put_comment(false); }
    if (e.has_ctxt) put_string("msgctxt", e.ctxt);
    put_string("msgid", e.id);
    if (e.plural) {
      put_string("msgid_plural", e.id2);
      for (auto& s : e.strs) put_string("msgstr[" + std::to_string(s.first) + "]", s.second);
    } else put_string("msgstr", e.strs.empty() ? Text() : e.strs[0].second);
  }
  void put_separator() {
    if (lay.comments && wild() && rng.chance(15)) { put_line(rng.chance(50) ? "# comment directly after an entry" : rng.chance(60) ? "#" : "#\tcomment"); if (rng.chance(50)) put_blank(); }
    else put_blank();
    while (wild() && rng.chance(30)) put_blank();
  }

  std::string finish() {
    if (!lay.final_newline) {
      while (!out.empty() && (out.back() == '\n' || out.back() == '\r')) out.pop_back();
    }
    return out;
  }
};

inline Layout random_layout(Rng& rng) {
  Layout l;
  l.crlf = rng.chance(20);
  l.mixed_eol = rng.chance(8);
  l.bom = rng.chance(15);
  l.final_newline = rng.chance(70);
  l.wild = rng.chance(40) ? 0 : rng.range(5, 70);
  if (rng.rarely(3)) { l.far = true; l.wild = rng.range(10, 70); }
  return l;
}

// ---------------------------------------------------------------- texts
inline Text random_utf8(Rng& rng, int max_len, bool unknown_escapes = true) {
  static const std::vector<std::string> specials = {"\n", "\t", "\"", "\\", "\r", "\a", "\b", "\v", "%d", "%s", "#", " ", "msgid", "msgstr", "fuzzy", "\n\n", "[0]", "\xc2\xa0", "\xef\xbb\xbf", "\xe2\x80\xa8", "\xc2\x85", "\x7f", "\x01", "\x1b", "\f", "\x1a", "\x04", "~", "[1]", "\n#", "\n\"", "%%", "\xef\xbf\xbe", "\xf4\x8f\xbf\xbf"};
  static const std::vector<std::string> esc = {"\\q", "\\f", "\\0", "\\x", "\\u", "\\'", "\\ "};
  Text t;
  int len = rng.chance(10) ? 0 : rng.chance(5) ? rng.range(0, max_len * 20) : rng.range(1, max_len);
  int style = rng.range(0, 4);
  if (rng.rarely(3)) {      // a long run of ordinary characters with a few others
    for (int i = rng.sized(100, 1500, 9000, 200); i > 0; --i) t.push_back("x");
    for (int i = rng.range(0, 3); i > 0; --i) {
      static const std::vector<std::string> odd = {std::string("\0", 1), "\x01", "\x7f", "\xc3\xa4", "\xe2\x82\xac", " ", "\t", "\"", "\\", "\n", "'"};
      t[rng.below(static_cast<uint32_t>(t.size()))] = rng.pick(odd);
    }
    return t;
  }
  if (rng.rarely(1)) len = rng.sized(max_len, max_len * 20, 100000, 1000);
  for (int i = 0; i < len; ++i) {
    int k = static_cast<int>(rng.below(100));
    if (k < 12 + style * 5) { const std::string& s = rng.pick(specials); if (static_cast<unsigned char>(s[0]) >= 0x80) t.push_back(s); else for (char c : s) t.push_back(std::string(1, c)); }
    else if (k < 30 + style * 10) { const CsTable& u = cs_tables[0]; const CsChar& c = u.chars[rng.below(u.n)]; t.push_back(std::string(c.bytes, c.len)); }
    else if (unknown_escapes && k == 99 && rng.chance(30)) t.push_back(rng.pick(esc));
    else t.push_back(std::string(1, static_cast<char>(rng.range('a', 'z'))));
  }
  return t;
}

inline Text word(Rng& rng, const char* prefix, int n) {
  return units(prefix + std::to_string(rng.below(static_cast<uint32_t>(n))));
}

// header text; charset and plural may be empty
inline Text random_header(Rng& rng, const std::string& charset, const std::string& plural) {
  std::vector<std::string> l = {"Project-Id-Version: x 1.0\n", "Last-Translator: A \"B\" <c@d>\n", "MIME-Version: 1.0\n", "Content-Transfer-Encoding: 8bit\n", "Language: de\n", "X-Plural-Forms: nplurals=9; plural=8;\n",
                                "X-Content-Type: text/plain; charset=NONSENSE\n"};
  rng.shuffle(l);
  l.resize(rng.below(static_cast<uint32_t>(l.size() + 1)));
  if (!charset.empty()) l.push_back("Content-Type: text/plain; charset=" + charset + "\n");
  if (!plural.empty()) l.push_back(plural + "\n");
  rng.shuffle(l);
  std::string s;
  for (auto& x : l) s += x;
  if (s.empty()) s = "MIME-Version: 1.0\n";
  return units(s);
}
inline Entry header_entry(Rng& rng, const std::string& charset, const std::string& plural) {
  Entry e;
  e.fuzzy = rng.chance(20);
  e.strs.emplace_back(0, random_header(rng, charset, plural));
  return e;
}

} // namespace vf
#endif
