// C25: the library used from its own callbacks. Every log callback, visitor, file system and
// stream of an outer program runs inner operations; outer and inner results must be those
// of the same operations without nesting.
#include "mgr.hpp"
#include "hostile.hpp"
#include "cs.hpp"
#include <tinygettext/iconv.hpp>
#include <tinygettext/po_parser.hpp>
#include <cerrno>

namespace vf {
const char* const property_id = "C25";
using namespace tinygettext;

// ---------------------------------------------------------------- inner operations
struct Inner {
  std::function<std::string()> run;
  std::string want;
  const char* kind;
};
static std::vector<Inner>* g_inner = new std::vector<Inner>;
static std::vector<std::string>* g_kept = new std::vector<std::string>;
static Dictionary* g_shared = nullptr;           // only looked up
static DictionaryManager* g_manager = nullptr;   // inner manager that keeps its dictionaries
static IConv* g_conv = nullptr;

// ---------------------------------------------------------------- nesting
static bool g_nesting = false;
static int g_depth = 0, g_budget = 0, g_permille = 0;
static Rng g_nest_rng(1);
static Dictionary* g_outer_dict = nullptr;       // dictionary the outer operation works on
static bool g_outer_readable = false;
static std::vector<std::string>* g_log = nullptr;
static std::string* g_bad = new std::string;
static std::map<std::string, uint64_t>* g_places = new std::map<std::string, uint64_t>;
// every enumeration here hands over the same type of visitor
typedef std::function<void(const std::string&, const Strs&)> Visitor;
typedef std::function<void(const std::string&, const std::string&, const Strs&)> CtxtVisitor;
static std::string* g_outer_contents = nullptr;  // of g_outer_dict, if it is only read now
static std::string enumerate(Dictionary& d) {
  std::multiset<std::string> seen;
  d.foreach(Visitor([&](const std::string& a, const Strs& b) { std::string x = a; for (auto& s : b) x += "," + s; seen.insert(x); }));
  d.foreach_ctxt(CtxtVisitor([&](const std::string& c, const std::string& a, const Strs& b) { std::string x = c + "/" + a; for (auto& s : b) x += "," + s; seen.insert(x); }));
  std::string r;
  for (auto& s : seen) r += s + ";";
  return r;
}
static std::string sig(Dictionary& d) { Sig s = signature(d, 5, 2); return show(s.msgs) + "|" + s.charset + "|" + s.plural + "|" + s.lookups; }

static std::string run_inner(Inner& in) {
  std::vector<std::string> log;
  std::string r;
  g_log = &log;
  try { r = in.run(); } catch (std::exception&) { r = "exception"; }
  g_log = nullptr;
  size_t infos = 0;
  for (auto& l : log) if (l == "I") ++infos; else r += "\n" + l;
  return r + "\nI " + std::to_string(infos);
}
static size_t g_errno = 0;
static void nest(const char* place) {
  // whoever is called may leave anything in errno
  struct Errno { ~Errno() { static const int e[] = {0, EILSEQ, EINVAL, E2BIG, ENOENT, EINTR, ENOMEM}; if (g_nesting) errno = e[g_errno++ % 7]; } } set_errno;
  if (!g_nesting || g_depth >= 2 || g_budget <= 0 || static_cast<int>(g_nest_rng.below(1000)) >= g_permille) return;
  --g_budget;
  ++g_depth;
  std::vector<std::string>* keep = g_log;
  g_log = nullptr;
  ++(*g_places)[std::string("nested_in_") + place];
  if (g_depth > 1) ++(*g_places)["nested_twice"];
  if (g_outer_dict && g_outer_readable && g_nest_rng.chance(40)) {
    // what is in there now is the outer operation's business; reading it must be harmless
    Dictionary& d = *g_outer_dict;
    switch (g_nest_rng.below(4)) {
      case 0: d.translate("id" + std::to_string(g_nest_rng.below(6))); break;
      case 1: d.translate_ctxt_plural("c" + std::to_string(g_nest_rng.below(3)), "id0", "id0s", g_nest_rng.range(-3, 200)); break;
      case 2: d.translate_plural("id" + std::to_string(g_nest_rng.below(6)), "x", g_nest_rng.range(0, 30)); break;
      default: { size_t n = 0; d.foreach([&](const std::string& a, const Strs& b) { n += a.size() + b.size(); }); d.foreach_ctxt([&](const std::string& c, const std::string& a, const Strs& b) { n += a.size() + b.size() + c.size(); }); }
    }
    ++(*g_places)["outer_dictionary_read"];
    if (g_outer_contents) {
      ++(*g_places)["outer_dictionary_enumerated_again"];
      if (enumerate(d) != *g_outer_contents && g_bad->empty()) *g_bad = std::string("enumerating the dictionary in use again in ") + place + " gives other messages";
    }
  } else {
    Inner& in = (*g_inner)[g_nest_rng.below(static_cast<uint32_t>(g_inner->size()))];
    std::string got = run_inner(in);
    ++(*g_places)["inner_results_compared"];
    if (got != in.want && g_bad->empty()) {
      size_t at = 0;
      while (at < got.size() && at < in.want.size() && got[at] == in.want[at]) ++at;
      at = at < 60 ? 0 : at - 60;
      *g_bad = std::string(in.kind) + " nested in " + place + " gives ..." + quote(got.substr(at), 400) + " instead of ..." + quote(in.want.substr(at), 400);
    }
  }
  g_log = keep;
  --g_depth;
}
static void on_info(const std::string&) { if (g_log) g_log->push_back("I"); nest("info_callback"); }
static void on_warn(const std::string& s) { if (g_log) g_log->push_back("W " + s); nest("warning_callback"); }
static void on_err(const std::string& s) { if (g_log) g_log->push_back("E " + s); nest("error_callback"); }

class NestBuf : public std::streambuf {
public:
  NestBuf(std::string d, size_t chunk) : m(std::move(d)), pos(0), step(chunk) {}
protected:
  int_type underflow() override {
    nest("stream");
    if (pos >= m.size()) return traits_type::eof();
    size_t n = std::min(step, m.size() - pos);
    char* b = &m[pos];
    setg(b, b, b + n);
    pos += n;
    return traits_type::to_int_type(*b);
  }
private:
  std::string m;
  size_t pos, step;
};
static std::unique_ptr<std::istream> nest_stream(const std::string& d, size_t chunk) {
  return std::unique_ptr<std::istream>(new OwningStream(std::unique_ptr<std::streambuf>(new NestBuf(d, chunk))));
}
class NestFS : public FileSystem {
public:
  explicit NestFS(std::shared_ptr<MemData> d) : m(std::move(d)) {}
  ~NestFS() override { nest("file_system_destructor"); }
  std::vector<std::string> open_directory(const std::string& p) override {
    nest("directory_listing");
    std::vector<std::string> r;
    auto d = m->dirs.find(p);
    if (d != m->dirs.end()) for (auto& e : d->second) r.push_back(e.first);
    return r;
  }
  std::unique_ptr<std::istream> open_file(const std::string& p) override {
    nest("opening");
    for (auto& d : m->dirs) for (auto& e : d.second) if (d.first + "/" + e.first == p) return nest_stream(e.second, m->chunk);
    return nullptr;
  }
private:
  std::shared_ptr<MemData> m;
};

static const std::vector<std::string>& names25() {
  static const std::vector<std::string> v = {"de.po", "de_AT.po", "pt.po", "pt_BR.po", "sr@latin.po", "sr.po", "zh_TW.po", "it.po", "fr.po"};
  return v;
}
static std::string some_catalog(Rng& rng, const std::string& tag) {
  if (rng.chance(20)) return hostile_catalog(rng);
  CatOpt o;
  o.tag = tag; o.fuzzy = 10; o.untranslated = 10; o.latin = true; o.charset = rng.chance(70) ? "UTF-8" : "ISO-8859-1";
  o.max_messages = 8;
  std::string c = render(rng, random_entries(rng, o), o.charset, rng.chance(60) ? plural_rules[rng.below(n_plural_rules)] : rng.chance(30) ? "Plural-Forms: nplurals=9; plural=n" : "");
  if (rng.chance(40)) { static const std::vector<std::string> bad = {"\n\nmsgid \"id0\nmsgstr \"x\"\n\n", "\n\nmsgid \"id1\"\nmsgstr \"a\" trailing\n\n", "\n\nmsgid \"id2\"\nmsgstr \"\\q\\w\"\n\nmsgid \"id0\"\nmsgstr \"other\"\n\n", "\n\nnonsense\n\n", "\n\nmsgid \"id3\"\nmsgstr \"\xff\"\n\n"}; c += rng.pick(bad); }
  return c;
}
static void add_inner(const char* kind, std::function<std::string()> f) { Inner i; i.run = std::move(f); i.kind = kind; g_inner->push_back(std::move(i)); }

void harness_init() {
  default_step_budget = 800000000;
  Log::set_log_info_callback(&on_info);
  Log::set_log_warning_callback(&on_warn);
  Log::set_log_error_callback(&on_err);
  Rng rng(hash_str("inner" + std::to_string(opt.seed)));
  for (int i = 0; i < 12; ++i) {
    std::string cat = some_catalog(rng, "inner" + std::to_string(i)), cs = i % 4 == 3 ? "ISO-8859-1" : i == 5 ? "NONSENSE" : "UTF-8";
    add_inner("load", [cat, cs] {
      Dictionary d(cs);
      auto in = nest_stream(cat, 64);
      std::string r;
      try { POParser::parse("inner.po", *in, d); } catch (std::exception&) { r = "exception;"; }
      return r + show(dump(d)) + plural_sig(d);
    });
  }
  auto data = std::make_shared<MemData>();
  for (auto& d : {"d0", "d1"}) for (auto& f : names25()) if (rng.chance(60)) data->dirs[d].emplace_back(f, some_catalog(rng, std::string("in/") + d + f));
  data->chunk = 100;
  g_manager = new DictionaryManager(std::unique_ptr<FileSystem>(new NestFS(data)));
  g_manager->add_directory("d0"); g_manager->add_directory("d1");
  for (auto& l : {"de_AT", "pt_BR", "sr@latin", "it"}) {
    std::string lang = l;
    add_inner("manager", [lang, data] {
      DictionaryManager m(std::unique_ptr<FileSystem>(new NestFS(data)));
      m.add_directory("d0"); m.add_directory("d1");
      std::string r;
      for (auto& x : m.get_languages()) r += x.str() + ",";
      return r + show(dump(m.get_dictionary(lang_of(lang))));
    });
    g_manager->get_dictionary(lang_of(lang));
    add_inner("kept-manager", [lang] { return sig(g_manager->get_dictionary(lang_of(lang))); });
  }
  add_inner("kept-manager-language", [] { g_manager->set_language(lang_of("pt_BR")); std::string r = show(dump(g_manager->get_dictionary())); g_manager->set_language(lang_of("it")); return r + g_manager->get_language().str(); });
  for (auto& t : {"abc", "\xc3\xa4\xe2\x82\xac", "x\xff", ""}) {
    std::string text = t;
    add_inner("convert", [text] { std::string r; for (auto& cs : {"UTF-16LE", "ISO-2022-JP", "ISO-8859-15"}) { IConv c("UTF-8", cs); r += quote(c.convert(text)); } return r; });
  }
  for (int i = 0; i < 6; ++i) { std::string rule = plural_rules[rng.below(n_plural_rules)]; add_inner("rule", [rule] { PluralForms p = PluralForms::from_string(rule); std::string r = std::to_string(p.get_nplural()); for (int n = 0; n < 50; ++n) r += static_cast<char>('0' + p.get_plural(n)); return r; }); }
  for (auto& n : {"german", "de_AT.UTF-8@euro", "sr@latin", "nonsense", ""}) { std::string nm = n; add_inner("name", [nm] { return Language::from_name(nm).str() + Language::from_env(nm).get_name(); }); }
  g_shared = new Dictionary;
  for (int i = 0; i < 30; ++i) { g_shared->add_translation("id" + std::to_string(i), "S" + std::to_string(i)); g_shared->add_translation("c" + std::to_string(i % 3), "id" + std::to_string(i), "s", Strs{"A" + std::to_string(i), "B"}); }
  add_inner("lookups", [] { return sig(*g_shared); });
  add_inner("missed-lookups", [] { return g_shared->translate("nothing") + g_shared->translate_ctxt("c0", "nope") + g_shared->translate_plural("one", "many", 4) + g_shared->translate_ctxt_plural("c9", "a", "b", 1); });
  add_inner("enumeration", [] { return show(dump(*g_shared)); });
  for (int i = 0; i < 3; ++i) add_inner("plain-enumeration", [] { return enumerate(*g_shared); });
  add_inner("conflict", [] { Dictionary d; d.add_translation("a", "1"); d.add_translation("a", "2"); d.add_translation("c", "a", "3"); d.add_translation("c", "a", "as", Strs{"4", "5"}); return show(dump(d)); });
  g_nesting = false;
  for (auto& i : *g_inner) i.want = run_inner(i);
  for (auto& i : *g_inner) { std::string again = run_inner(i); if (again != i.want) harness_error(std::string("inner operation is not repeatable: ") + i.kind); }
}
void harness_done() {}

// ---------------------------------------------------------------- outer program
static std::vector<std::string> program(uint64_t seed, std::vector<std::string>* trace) {
  Rng rng(seed);
  std::vector<std::string> out, log;
  std::unique_ptr<DictionaryManager> man;
  std::shared_ptr<MemData> data;
  std::unique_ptr<Dictionary> base(new Dictionary), dict(new Dictionary);
  std::unique_ptr<IConv> conv(new IConv);
  dict->addFallback(base.get());
  for (int left = rng.range(3, 9); left > 0; --left) {
    std::string r, what;
    log.clear();
    g_log = &log;
    g_outer_dict = dict.get();
    g_outer_readable = true;
    try {
      switch (rng.below(8)) {
        case 0: case 1: {
          std::string cat = some_catalog(rng, "out" + std::to_string(left));
          what = "load " + quote(cat, 1000);
          auto in = nest_stream(cat, rng.chance(50) ? 30 : 4000);
          try { POParser::parse("x.po", *in, rng.chance(80) ? *dict : *base, rng.chance(70)); } catch (std::exception&) { r = "exception;"; }
          break;
        }
        case 2: {
          what = "new manager";
          g_outer_dict = nullptr;
          data = std::make_shared<MemData>();
          for (auto& d : {"d0", "d1"}) for (auto& f : names25()) if (rng.chance(40)) data->dirs[d].emplace_back(f, some_catalog(rng, std::string("o/") + d + f));
          data->chunk = 50;
          man.reset(new DictionaryManager(std::unique_ptr<FileSystem>(new NestFS(data)), rng.chance(70) ? "UTF-8" : "ISO-8859-1"));
          man->add_directory("d0"); man->add_directory("d1", rng.chance(50));
          what += "\n" + show_fs(*data, 200);
          if (rng.chance(50)) man->set_use_fuzzy(false);
          break;
        }
        case 3: case 4: {
          what = "request";
          if (!man) break;
          std::string l = rng.pick(names25());
          l = l.substr(0, l.size() - 3);
          what += " " + l;
          g_outer_dict = nullptr;
          Dictionary& d = man->get_dictionary(lang_of(l));
          g_outer_dict = &d;
          r = sig(d);
          if (rng.chance(30)) { g_outer_dict = nullptr; for (auto& x : man->get_languages()) r += x.str() + ","; }
          break;
        }
        case 5: {
          what = "conflicting additions";
          for (int n = rng.range(1, 4); n > 0; --n) {
            std::string i = "id" + std::to_string(rng.below(3)), v = "v" + std::to_string(rng.below(50));
            switch (rng.below(4)) {
              case 0: dict->add_translation(i, v); break;
              case 1: dict->add_translation(i, i + "s", Strs{v, v + "s"}); break;
              case 2: dict->add_translation("c0", i, v); break;
              default: dict->add_translation("c1", i, i + "s", Strs{v, v + "s"}); break;
            }
          }
          break;
        }
        case 6: {
          what = "lookups";
          for (int n = rng.range(1, 6); n > 0; --n) {
            std::string i = "id" + std::to_string(rng.below(9));
            int c = rng.range(0, 200);
            switch (rng.below(4)) {
              case 0: r += dict->translate(i); break;
              case 1: r += dict->translate_plural(i, i + "s", c); break;
              case 2: r += dict->translate_ctxt("c" + std::to_string(rng.below(4)), i); break;
              default: r += dict->translate_ctxt_plural("c" + std::to_string(rng.below(4)), i, i + "s", c); break;
            }
            r += "|";
          }
          break;
        }
        case 7: {
          what = "enumerate";
          std::multiset<std::string> seen;
          bool keep = g_nesting;
          g_nesting = false;
          std::string contents = enumerate(*dict);
          g_nesting = keep;
          g_outer_contents = &contents;
          dict->foreach(Visitor([&](const std::string& a, const Strs& b) { std::string x = a; for (auto& s : b) x += "," + s; nest("visitor"); seen.insert(x); x = a; for (auto& s : b) x += "," + s; seen.insert(x); }));
          dict->foreach_ctxt(CtxtVisitor([&](const std::string& c, const std::string& a, const Strs& b) { nest("visitor"); std::string x = c + "/" + a; for (auto& s : b) x += "," + s; seen.insert(x); }));
          g_outer_contents = nullptr;
          for (auto& s : seen) r += s + ";";
          std::string t = "caf\xc3\xa9 " + std::to_string(rng.below(100));
          conv->set_charsets("UTF-8", rng.chance(50) ? "UTF-16" : "ISO-8859-1");
          r += quote(conv->convert(t));
          break;
        }
      }
    } catch (std::exception& e) { r += "exception"; }
    g_log = nullptr;
    bool keep = g_nesting;
    g_nesting = false;
    r += "\n" + sig(*dict) + sig(*base);
    g_nesting = keep;
    size_t infos = 0;
    for (auto& l : log) if (l == "I") ++infos; else r += "\n" + l;
    r += "\nI " + std::to_string(infos);
    g_outer_dict = nullptr;
    out.push_back(r);
    if (trace) trace->push_back(what);
  }
  g_outer_dict = dict.get();
  man.reset();
  g_outer_dict = nullptr;
  return out;
}

void run_case(uint64_t index, Rng& rng) {
  uint64_t seed = rng.next();
  std::vector<std::string> trace;
  g_nesting = false;
  std::vector<std::string> want = program(seed, &trace);
  std::string desc;
  for (size_t i = 0; i < trace.size(); ++i) desc += std::to_string(i) + ": " + trace[i] + "\n";
  describe(desc);
  for (int round = 0; round < 2 && !case_failed(); ++round) {
    g_bad->clear();
    g_nest_rng = Rng(rng.next());
    g_permille = round ? 700 : rng.range(20, 400);
    g_budget = 60;
    g_depth = 0;
    g_nesting = true;
    std::vector<std::string> got = program(seed, nullptr);
    g_nesting = false;
    if (!g_bad->empty()) fail("inner-result", *g_bad);
    if (got.size() != want.size()) fail("outer-length", "the outer program ended early");
    for (size_t i = 0; i < want.size() && i < got.size(); ++i) {
      count("outer_results_compared");
      if (got[i] == want[i]) continue;
      size_t at = 0;
      while (at < want[i].size() && at < got[i].size() && want[i][at] == got[i][at]) ++at;
      at = at < 60 ? 0 : at - 60;
      fail("outer-result-" + trace[i].substr(0, trace[i].find(' ')), "operation " + std::to_string(i) + " (" + trace[i].substr(0, 300) + "): without nesting ..." + quote(want[i].substr(at), 400) + ", with ..." + quote(got[i].substr(at), 400));
      break;
    }
  }
  for (auto& p : *g_places) count(p.first, p.second);
  g_places->clear();
  for (auto& t : trace) count("op_" + t.substr(0, t.find(' ')));
  nontrivial(hash_str(desc));
  if (index % 300 == 0) sample(desc);
}
} // namespace vf
