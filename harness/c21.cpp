// C21: the same program under many C locales and C++ global locales.
#include "mgr.hpp"
#include "hostile.hpp"
#include "cs.hpp"
#include <tinygettext/iconv.hpp>
#include <tinygettext/po_parser.hpp>
#include <cerrno>
#include <clocale>
#include <cstring>
#include <iconv.h>
#include <locale>
#include <sys/stat.h>
#include <unistd.h>

extern "C" {
iconv_t __real_iconv_open(const char* to, const char* from);
// the C library itself makes two requests for a target depend on the locale: the empty
// name and transliteration. Programs asking for them are outside of the property.
iconv_t __wrap_iconv_open(const char* to, const char* from) {
  if (!*to || *to == '/' || vf::ascii_upper(to).find("TRANSLIT") != std::string::npos) { errno = EINVAL; return reinterpret_cast<iconv_t>(-1); }
  return __real_iconv_open(to, from);
}
}

namespace vf {
const char* const property_id = "C21";
using namespace tinygettext;

struct Grouping : std::numpunct<char> {
  char do_thousands_sep() const override { return '\''; }
  std::string do_grouping() const override { return "\1"; }
  char do_decimal_point() const override { return ','; }
  std::string do_truename() const override { return "ja"; }
};
struct Config { std::string name, c; std::unique_ptr<std::locale> cpp; };
static std::vector<Config>* g_configs = new std::vector<Config>;
static void select_config(const Config& c) {
  std::locale::global(c.cpp ? *c.cpp : std::locale::classic());       // also sets the C locale
  if (!setlocale(LC_ALL, c.c.c_str())) harness_error("setlocale " + c.c);
  bool first = &c == &(*g_configs)[0];
  for (auto& v : {"LC_ALL", "LC_MESSAGES", "LANG"}) if (first) unsetenv(v); else setenv(v, c.c.c_str(), 1);
  if (first) unsetenv("LANGUAGE"); else setenv("LANGUAGE", "it:tr:de_AT", 1);
}
void harness_init() {
  default_step_budget = 800000000;
  auto add = [](const std::string& name, const std::string& c, std::locale* l) { Config x; x.name = name; x.c = c; x.cpp.reset(l); g_configs->push_back(std::move(x)); };
  add("C", "C", nullptr);
  std::string list = opt.extra["locales"], one;
  std::istringstream in(list);
  while (std::getline(in, one, ',')) {
    add("C locale " + one, one, nullptr);
    if (one.find("tr_TR") == 0 || one.find("de_DE") == 0 || one.find("en_IN") == 0) add("global C++ locale " + one, one, new std::locale(one.c_str()));
  }
  add("global C++ locale with one-digit groups", "C", new std::locale(std::locale::classic(), new Grouping));
  if (g_configs->size() < 8) harness_error("no locales");
  select_config((*g_configs)[0]);
  // the tables must do what this check is about
  for (auto& c : *g_configs)
    if (c.name == "C locale tr_TR.ISO-8859-9") { select_config(c); if (toupper('i') == 'I' || tolower('I') == 'i') harness_error("no Turkish case rules"); }
  select_config((*g_configs)[0]);
}
void harness_done() {}

static std::string spelling(Rng& rng, std::string s) {
  int style = static_cast<int>(rng.below(4));
  for (char& c : s) if (style == 1 || (style == 2 && rng.chance(50))) { if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); else if (style == 2 && c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); } else if (style == 3 && c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
  return s;
}
static const std::vector<std::string>& charsets() {
  static const std::vector<std::string> v = {"UTF-8", "iso-8859-1", "ISO-8859-9", "iso-8859-15", "big5", "Big5", "BIG5", "gb18030", "windows-1254", "WINDOWS-1252", "koi8-r", "tis-620", "shift_jis", "euc-jp", "utf-16le", "US-ASCII", "ascii", "latin1", "iso-ir-100", "NOSUCH-i"};
  return v;
}
static std::string bytes(Rng& rng, int n) { std::string s; for (; n > 0; --n) s += rng.chance(60) ? static_cast<char>(rng.range('a', 'z')) : static_cast<char>(rng.below(256)); return s; }

static void load_sig(std::string& r, const std::string& cat, const std::string& cs) {
  Dictionary d(cs);
  auto in = make_stream(cat, 64);
  try { POParser::parse("x.po", *in, d); } catch (std::exception&) { r += "exception;"; }
  Sig s = signature(d, 5, 2);
  r += show(s.msgs) + s.plural + "\n";
  for (auto& m : s.msgs) for (int n : {1, 2, 1000, 1001, 1002, 12345, 1000001, 2147483647}) r += lookup_plural(d, m.first, m.first.id + "s", n) + ",";
}

// one program, one string per operation. `switches`: change the locale before each operation
static std::vector<std::string> program(uint64_t seed, bool switches, const std::string& root, std::vector<std::string>* trace) {
  Rng rng(seed);
  Rng sw(seed ^ 0x777);
  std::vector<std::string> out;
  LogScope log;
  std::unique_ptr<DictionaryManager> kept;
  std::shared_ptr<MemData> data;
  Dictionary kept_dict;
  IConv conv;
  int n = rng.range(6, 16);
  for (int i = 0; i < n; ++i) {
    if (switches) select_config((*g_configs)[sw.below(static_cast<uint32_t>(g_configs->size()))]);
    std::string r, what;
    switch (rng.below(10)) {
      case 0: {   // names
        std::string nme;
        switch (rng.below(4)) {
          case 0: nme = spelling(rng, alias_rows[rng.below(static_cast<uint32_t>(n_aliases))].alias); break;
          case 1: nme = ref_str(static_cast<int>(rng.below(static_cast<uint32_t>(n_langs)))) ; if (rng.chance(50)) nme += ".iso-8859-9"; break;
          case 2: nme = spelling(rng, ref_str(static_cast<int>(rng.below(static_cast<uint32_t>(n_langs))))); break;
          default: nme = bytes(rng, rng.range(0, 12)); break;
        }
        what = "name " + quote(nme);
        r = Language::from_name(nme).str() + "|" + Language::from_env(nme).str() + "|" + Language::from_spec(nme).str();
        break;
      }
      case 1: {   // plural rules
        std::string rule = plural_rules[rng.below(n_plural_rules)], s;
        for (char c : rule) { if (rng.chance(8)) s += rng.chance(70) ? " \t\n\r\v\f"[rng.below(6)] : static_cast<char>(rng.chance(50) ? 0x85 : 0xa0); s += c; }
        what = "rule " + quote(s);
        PluralForms p = PluralForms::from_string(s);
        r = std::to_string(p.get_nplural());
        for (int k = 0; k < 120; ++k) r += static_cast<char>('0' + p.get_plural(k));
        for (int k = 0; k < 60; ++k) r += static_cast<char>('0' + p.get_plural(k < 20 ? 1000 + k : k < 30 ? 10000 * k + k % 10 : static_cast<int>(rng.next() >> 33)));
        break;
      }
      case 2: case 3: {   // well-formed catalogs in charsets spelt in every case
        bool from_table = rng.chance(50);
        std::string cs = spelling(rng, rng.pick(charsets()));
        if (rng.chance(15)) {      // no name at all
          static const std::vector<std::string> odd = {" ", "", "  \t", ";", "//", "/", " //", "?", "\xc2\xa0", "\xe9", "#~", "///", "[]", "''", "\x01", "//translit", "/utf-8", " ?//X", "//plural-forms:"};
          cs = rng.pick(odd);
          if (rng.chance(10)) cs = std::string(1, '\0') + "UTF-8";
        }
        std::string to = spelling(rng, rng.chance(60) ? "utf-8" : rng.pick(charsets()));
        std::vector<Entry> es;
        std::set<std::string> seen;
        const CsTable* tab = nullptr;
        if (from_table) for (auto& t : cs_tables) if (ascii_upper(cs) == ascii_upper(t.name)) tab = &t;
        for (int m = rng.range(1, 5); m > 0; --m) {
          Entry e;
          e.id = units("id" + std::to_string(rng.below(5)));
          if (!seen.insert(join(e.id)).second) continue;
          Text t = units("t" + std::to_string(m));
          for (int q = rng.range(0, 8); q > 0; --q) {
            if (tab) { const CsChar& c = tab->chars[rng.below(tab->n)]; t.push_back(std::string(c.bytes, c.len)); }
            else t.push_back(rng.chance(70) ? "i" : std::string(1, static_cast<char>(rng.range(0x80, 0xff))));
          }
          e.strs.emplace_back(0, t);
          es.push_back(e);
        }
        std::string cat = render(rng, es, cs, rng.chance(50) ? plural_rules[rng.below(n_plural_rules)] : "");
        what = "load for " + to + ": " + quote(cat, 1500);
        load_sig(r, cat, to);
        break;
      }
      case 4: {   // strange bytes around the syntax
        std::string cat = hostile_catalog(rng);
        for (int q = rng.range(0, 6); q > 0 && !cat.empty(); --q) { size_t p = cat.find('\n', rng.below(static_cast<uint32_t>(cat.size()))); if (p == std::string::npos) break; cat.insert(rng.chance(50) ? p : p + 1, 1, static_cast<char>(rng.range(0x80, 0xff))); }
        what = "load " + quote(cat, 1500);
        load_sig(r, cat, rng.chance(70) ? "UTF-8" : rng.pick(charsets()));
        break;
      }
      case 5: {   // file names
        what = "manager";
        data = std::make_shared<MemData>();
        static const std::vector<std::string> names = {"it.po", "it_it.po", "it_IT.po", "It_it.po", "de_li.po", "de_LI.po", "hi_in.po", "id_id.po", "is_is.po", "fi_fi.po", "pt_br.po", "zh_tw.po", "ca_es@valencia.po", "fr_fr.iso-8859-1.po", "sr@latin.po", "de_i\xcc.po", "de_at\xe4.po", "de_\xe4t.po", "\xdd.po", "i.po", "x.PO", "it.pO", "uk.po", "tr_tr.po", "zh.po", "yi.po", "ja.po", "IT.po", "Id.po", "ch.po", "cs.po", "hu.po"};
        for (auto& d : {"d0", "d1"}) for (auto& f : names) if (rng.chance(35)) {
          CatOpt o; o.tag = std::string(d) + f; o.max_messages = 4;
          for (char& c : o.tag) if (static_cast<unsigned char>(c) >= 0x80) c = '~';
          data->dirs[d].emplace_back(f, render(rng, random_entries(rng, o), spelling(rng, rng.chance(50) ? "iso-8859-9" : "utf-8"), ""));
        }
        kept.reset(new DictionaryManager(std::unique_ptr<FileSystem>(new MemFS(data)), spelling(rng, "iso-8859-1")));
        kept->add_directory("d0"); kept->add_directory("d1", rng.chance(50));
        for (auto& l : kept->get_languages()) r += l.str() + ",";
        for (auto& f : names) r += kept->convertFilename2Language(f) + ",";
        if (rng.chance(50)) kept->set_language(Language::from_name("italian"));
        for (auto& f : data->dirs) { what += " " + f.first + ":"; for (auto& x : f.second) what += " " + quote(x.first); }
        break;
      }
      case 6: case 7: {   // requests, of a manager that may come from another locale
        static const std::vector<std::string> langs = {"it", "it_IT", "it_CH", "de_LI", "de_AT", "hi", "id", "is", "fi_FI", "pt_BR", "zh_TW", "ca_ES@valencia", "fr_FR", "sr@latin"};
        std::string l = rng.pick(langs);
        what = "request " + l;
        if (!kept) break;
        Sig s = signature(kept->get_dictionary(lang_of(l)), 5, 2);
        r = show(s.msgs) + s.lookups;
        if (kept->get_language()) r += show(dump(kept->get_dictionary()));
        if (rng.chance(30)) kept->set_charset(spelling(rng, "utf-8"));
        break;
      }
      case 8: {   // conversions
        std::string a = spelling(rng, rng.pick(charsets())), b = spelling(rng, rng.chance(60) ? "utf-8" : rng.pick(charsets()));
        std::string t = bytes(rng, rng.range(0, 20));
        bool again = rng.chance(40);
        what = "convert " + a + " " + b + " " + quote(t);
        try { if (!again) conv.set_charsets(a, b); r = conv.convert(t); } catch (std::exception&) { r = "exception"; }
        break;
      }
      case 9: {   // lookups
        std::string id = "i" + std::to_string(rng.below(4)) + (rng.chance(50) ? "I\xfd\xdd" : "");
        what = "dictionary " + quote(id);
        if (rng.chance(50)) kept_dict.add_translation(id, "ids", Strs{bytes(rng, 5), bytes(rng, 5)}); else kept_dict.add_translation("ctx\xdd", id, bytes(rng, 4));
        if (rng.chance(30)) kept_dict.set_plural_forms(PluralForms::from_string(plural_rules[rng.below(n_plural_rules)]));
        r = lookup_plural(kept_dict, MsgKey{false, "", id}, "ids", rng.chance(30) ? rng.range(1, 2) + 1000 * rng.range(0, 2000000) : rng.range(0, 1200)) + "|" + kept_dict.translate_ctxt("ctx\xdd", id) + "|" + kept_dict.translate(spelling(rng, id));
        if (!root.empty() && rng.chance(60)) {
          DictionaryManager m;
          m.add_directory(root);
          for (auto& l : m.get_languages()) r += l.str() + ",";
          r += show(dump(m.get_dictionary(Language::from_spec("it", "IT"))));
        }
        break;
      }
    }
    out.push_back(r);
    if (trace) trace->push_back(what);
  }
  return out;
}

void run_case(uint64_t index, Rng& rng) {
  uint64_t seed = rng.next();
  std::string root;
  if (!opt.scratch.empty()) {
    root = opt.scratch + "/c21";
    if (mkdir(root.c_str(), 0755) == 0)
      for (auto& n : {"it_it.po", "de_\xe4t.po", "id_id.po", "\xdd.po"}) {
        FILE* f = fopen((root + "/" + n).c_str(), "wb");
        if (!f) harness_error("scratch file");
        fprintf(f, "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=iso-8859-9\\n\"\n\nmsgid \"a\"\nmsgstr \"\xfdi\xdd\"\n");
        fclose(f);
      }
  }
  std::vector<std::string> trace;
  select_config((*g_configs)[0]);
  std::vector<std::string> base = program(seed, false, root, &trace);
  std::string desc;
  for (size_t i = 0; i < trace.size(); ++i) desc += std::to_string(i) + ": " + trace[i] + "\n";
  describe(desc);
  auto judge = [&](const std::string& name, const std::vector<std::string>& got) {
    select_config((*g_configs)[0]);
    for (size_t i = 0; i < base.size() && i < got.size(); ++i) {
      if (got[i] == base[i]) { count("operations_compared"); continue; }
      std::string kind = trace[i].substr(0, trace[i].find(' '));
      fail("differs-" + kind, "under " + name + " operation " + std::to_string(i) + " (" + trace[i].substr(0, 600) + ") gives " + quote(got[i], 600) + " instead of " + quote(base[i], 600));
      return;
    }
    if (got.size() != base.size()) fail("differs-length", "under " + name + " the program ended early");
    count("runs_compared");
  };
  for (size_t c = 1; c < g_configs->size() && !case_failed(); ++c) {
    select_config((*g_configs)[c]);
    std::vector<std::string> got = program(seed, false, root, nullptr);
    judge((*g_configs)[c].name, got);
    if ((*g_configs)[c].cpp) count("runs_under_global_cpp_locales");
  }
  if (!case_failed()) { std::vector<std::string> got = program(seed, true, root, nullptr); judge("changing locales", got); count("runs_with_changing_locales"); }
  for (auto& t : trace) count("op_" + t.substr(0, t.find(' ')));
  nontrivial(hash_str(desc));
  if (index % 200 == 0) sample(desc);
}
} // namespace vf
