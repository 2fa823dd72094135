// C19: threads on separate objects, and threads reading one dictionary (ThreadSanitizer).
#include "mgr.hpp"
#include <tinygettext/iconv.hpp>
#include <tinygettext/po_parser.hpp>
#include <atomic>
#include <fcntl.h>
#include <iconv.h>
#include <sched.h>
#include <sanitizer/common_interface_defs.h>
#include <sys/stat.h>
#include <thread>
#include <unordered_set>
#include <unistd.h>

namespace vf {
const char* const property_id = "C19";
// glibc's own loading of converter modules is synchronised by locks the sanitizer
// cannot see: the modules used below stay loaded for the whole process
void harness_init() {
  for (auto p : {"BIG5", "ISO-8859-15", "ISO-8859-1", "ASCII", "UTF-16", "ISO-8859-2", "KOI8-R", "EUC-JP", "CP1252"}) { iconv_t a = iconv_open("UTF-8", p), b = iconv_open(p, "UTF-8"); if (a == iconv_t(-1) || b == iconv_t(-1)) harness_error("iconv_open"); }
  iconv_t c = iconv_open("BIG5", "UTF-8"); (void)c;
  // what the default callbacks write is not of interest, what the sanitizer reports is
  int keep = fcntl(2, F_DUPFD_CLOEXEC, 100), null = open("/dev/null", O_WRONLY | O_CLOEXEC);
  if (keep < 0 || null < 0) harness_error("descriptors");
  report_fd = keep;
  __sanitizer_set_report_fd(reinterpret_cast<void*>(static_cast<long>(keep)));
  dup2(null, 2);
}
void harness_done() {}
using namespace tinygettext;

struct Work {
  uint64_t seed;
  std::vector<std::string> catalogs, damaged;
  std::shared_ptr<MemData> data;
  const Dictionary* shared = nullptr;
  const std::vector<Language>* langs = nullptr;     // shared, read only
  std::string dir;                                  // real directory of this thread
  std::string digest;
};
static std::atomic<int> g_ready{0}, g_go{0}, g_ticket{0};
static std::vector<unsigned char>* g_order = new std::vector<unsigned char>(200000);   // thread that took each ticket

static std::string odd_name(Rng& rng) {
  std::string s;
  for (int n = rng.range(0, 12); n > 0; --n) s += "deATpt_-.@U8 latin\xc3\n"[rng.below(20)];
  return s;
}
// a catalog whose entries (but not its header) are damaged
static std::string damaged_catalog(Rng& rng) {
  static const std::vector<std::string> cs = {"UTF-8", "ISO-8859-1", "BIG5", "KOI8-R", "NONSENSE", "CHARSET", "EUC-JP", "CP1252"};
  CatOpt o; o.tag = "x"; o.fuzzy = 30; o.untranslated = 20; o.charset = rng.pick(cs); o.latin = true;
  std::string head = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=" + o.charset + "\\n\"\n\"" + (rng.chance(60) ? plural_rules[rng.below(n_plural_rules)] : "Plural-Forms: nplurals=3; plural=n") + "\\n\"\n\n";
  std::string body = render(rng, random_entries(rng, o), o.charset, "", false);
  for (int k = rng.range(0, 6); k > 0 && !body.empty(); --k) {
    size_t at = rng.below(static_cast<uint32_t>(body.size()));
    switch (rng.below(4)) {
      case 0: body.erase(at, rng.below(20)); break;
      case 1: body[at] = "\"\\\n#m[\xe4"[rng.below(7)]; break;
      case 2: body.insert(at, std::string(rng.chance(20) ? 5000 : 3, static_cast<char>(rng.range(' ', '~')))); break;
      default: body.insert(at, "\\q\n\nmsgid \"a\nmsgstr \"b\"\n\n");
    }
  }
  return head + body;
}

// one thread's program; `me` < 0: run alone
static void run(Work& w, int me, int first_kind) {
  Rng rng(w.seed);
  Rng delays(w.seed ^ 0x5555);       // separate: the twin does not wait
  std::string r;
  int n = rng.range(3, 12);
  for (int i = 0; i < n; ++i) {
    if (me >= 0) {
      int t = g_ticket.fetch_add(1, std::memory_order_relaxed);
      if (static_cast<size_t>(t) < g_order->size()) (*g_order)[static_cast<size_t>(t)] = static_cast<unsigned char>(me);
    }
    int delay = static_cast<int>(delays.below(12));
    if (me >= 0 && i) { if (delay < 3) sched_yield(); else if (delay == 3) usleep(delays.below(300)); else if (delay == 4) for (volatile int k = 0; k < 20000; k = k + 1) {} }
    int k = static_cast<int>(rng.below(14));
    if (i == 0 && first_kind >= 0) k = first_kind;
    switch (k) {
      case 0: { const LangRow& l = lang_rows[rng.below(static_cast<uint32_t>(n_langs))]; Language a = Language::from_spec(l.lang, l.country, l.modifier); r += a.str() + a.get_name() + a.get_localized_name() + std::to_string(Language::match(a, Language::from_spec("de"))); break; }
      case 1: { r += Language::from_name(alias_rows[rng.below(static_cast<uint32_t>(n_aliases))].alias).str(); r += Language::from_name("nosuchname").str(); break; }
      case 2: { PluralForms p = PluralForms::from_string(plural_rules[rng.below(n_plural_rules)]); r += std::to_string(p.get_nplural()) + ":" + std::to_string(p.get_plural(static_cast<int>(rng.below(200)))); r += PluralForms::from_string("Plural-Forms: nplurals=9; plural=n") ? "?" : "-"; break; }
      case 3: { Dictionary d; LogScope log; for (auto& c : w.catalogs) { auto in = make_stream(c, rng.chance(50) ? 1 : 4096); POParser::parse("x.po", *in, d); } Sig s = signature(d, 5, 2); r += show(s.msgs) + s.plural + s.lookups + std::to_string(log.err.size()) + "/" + std::to_string(log.warn.size()); break; }
      case 4: { DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(w.data)), rng.chance(50) ? "UTF-8" : "ISO-8859-1"); m.add_directory("d0"); m.add_directory("d1"); m.set_language(Language::from_name("de_AT")); Sig s = signature(m.get_dictionary(), 5, 2); r += show(s.msgs) + s.lookups; for (auto& l : m.get_languages()) if (l) r += std::to_string(l.str().size()); m.set_use_fuzzy(false); r += show(dump(m.get_dictionary(Language::from_spec("fr")))); break; }
      case 5: { LogScope log; IConv c("UTF-8", rng.chance(50) ? "BIG5" : "ISO-8859-15"); r += c.convert("abc \xc3\xa9 \xe4\xb8\xad"); c.set_charsets("ISO-8859-1", "UTF-8"); r += c.convert("\xe9t\xe9"); try { c.set_charsets("NOSUCH", "UTF-8"); } catch (std::exception&) { r += "!"; } break; }
      case 6: { if (!w.shared) break; LogScope log; for (int q = 0; q < 12; ++q) { MsgKey key{rng.chance(50), "c" + std::to_string(rng.below(3)), "id" + std::to_string(rng.below(7))}; if (!key.has_ctxt) key.ctxt.clear(); r += lookup(*w.shared, key) + lookup_plural(*w.shared, key, "many", static_cast<int>(rng.below(120))); } r += w.shared->get_charset() + std::to_string(w.shared->get_plural_forms().get_nplural()); break; }
      case 7: { LogScope log; Dictionary d, f; d.addFallback(&f); f.add_translation("a", "fa"); d.add_translation("c", "b", "cb"); d.add_translation("b", "bs", Strs{"b0", "b1"}); d.set_plural_forms(PluralForms::from_string(plural_rules[1])); d.add_translation("b", "bs", Strs{"b0", "b2"}); r += d.translate("a") + d.translate_ctxt("c", "b") + d.translate_plural("b", "bs", 2) + std::to_string(log.warn.size()); break; }
      case 8: { LogScope log; DictionaryManager m; m.add_directory(w.dir); m.add_directory(w.dir + "/none"); try { for (auto& l : m.get_languages()) if (l) r += l.str() + ","; r += show(dump(m.get_dictionary(Language::from_name("de_AT")))); } catch (std::exception&) { r += "!"; } m.remove_directory(w.dir + "/none"); r += show(dump(m.get_dictionary(Language::from_name("fr")))); break; }
      case 9: { if (!w.langs) break; for (int q = 0; q < 10; ++q) { const Language& a = (*w.langs)[rng.below(static_cast<uint32_t>(w.langs->size()))], & b = (*w.langs)[rng.below(static_cast<uint32_t>(w.langs->size()))]; Language copy = a; r += a.str() + a.get_name() + a.get_country() + std::to_string(Language::match(a, b)) + (a == b ? "=" : "") + (a < b ? "<" : "") + copy.get_modifier(); } break; }
      case 10: {       // names of any kind, files of any name
        DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(w.data)));
        std::unordered_set<Language, Language_hash> set;
        for (int q = 0; q < 6; ++q) {
          std::string n = rng.chance(50) ? ref_str(static_cast<int>(rng.below(static_cast<uint32_t>(n_langs)))) : odd_name(rng);
          Language a = Language::from_env(n), b = Language::from_name(n), c = Language::from_spec(n, rng.chance(50) ? "DE" : "", rng.chance(50) ? "euro" : "");
          r += a.str() + b.str() + c.str() + m.convertFilename2Language(n + (rng.chance(70) ? ".po" : "")) + (a != b ? "#" : "");
          if (a) set.insert(a);
        }
        r += std::to_string(set.size());
        break;
      }
      case 11: {       // damaged catalogs, catalogs in other charsets
        LogScope log;
        for (auto& c : w.damaged) {
          Dictionary d(rng.chance(70) ? "UTF-8" : "ISO-8859-1");
          auto in = make_stream(c, 4096);
          try { POParser::parse("bad.po", *in, d, rng.chance(50)); } catch (std::exception& e) { r += e.what(); }
          r += show(dump(d)) + plural_sig(d);
        }
        for (auto& m : log.err) r += m;
        for (auto& m : log.warn) r += m;
        break;
      }
      case 12: {       // texts that are not valid, and long ones
        LogScope log;
        IConv c("UTF-8", rng.chance(50) ? "UTF-16" : rng.chance(50) ? "ISO-8859-2" : "BIG5");
        for (int q = 0; q < 4; ++q) {
          std::string t(static_cast<size_t>(rng.sized(0, 50, 20000, 200)), static_cast<char>(rng.range('a', 'z')));
          if (rng.chance(60)) t.insert(rng.below(static_cast<uint32_t>(t.size() + 1)), rng.chance(50) ? "\xff" : "\xc3\xa9");
          r += std::to_string(hash_str(c.convert(t)));
        }
        for (auto& m : log.err) r += std::to_string(hash_str(m));
        break;
      }
      case 13: {       // files that cannot be read, in directories with damaged files
        LogScope log;
        auto data = std::make_shared<MemData>(*w.data); data->open_calls = 0;
        int q = 0;
        for (auto& c : w.damaged) data->dirs["d1"].emplace_back(q++ % 2 ? "de_CH.po" : "pt_br.po", c);
        data->faults["d0/de.po"] = {rng.chance(50) ? Fault::open_throw : rng.chance(50) ? Fault::open_null : Fault::read_throw, 3};
        DictionaryManager m(std::unique_ptr<FileSystem>(new MemFS(data)), rng.chance(80) ? "UTF-8" : "NOSUCH");
        m.add_directory("d0"); m.add_directory("d1", true);
        for (auto l : {"de", "de_CH", "pt_BR", "fr_FR"}) r += show(dump(m.get_dictionary(Language::from_env(l))));
        m.remove_directory("d0"); m.set_charset("ISO-8859-1"); m.set_use_fuzzy(false);
        m.set_language(Language::from_env("de_CH"));
        r += show(dump(m.get_dictionary()));
        for (auto& e : log.err) r += e;
        for (auto& e : log.warn) r += e;
        break;
      }
    }
    r += "\n";
  }
  w.digest = r;
}

void run_case(uint64_t index, Rng& rng) {
  int threads = rng.range(2, 8);
  bool shared = rng.chance(50);
  int first = rng.chance(60) ? static_cast<int>(rng.below(14)) : -1;     // what all threads do first
  std::unique_ptr<Dictionary> dict, fb;
  std::string shared_cat;
  // inputs are made without calling the library: the threads are its first users
  std::vector<Work> work(static_cast<size_t>(threads));
  for (auto& w : work) {
    w.seed = rng.next();
    for (int c = rng.range(1, 2); c > 0; --c) { CatOpt o; o.tag = "t"; o.fuzzy = 20; w.catalogs.push_back(render(rng, random_entries(rng, o), "UTF-8", plural_rules[rng.below(n_plural_rules)])); }
    for (int c = rng.range(1, 3); c > 0; --c) w.damaged.push_back(damaged_catalog(rng));
    w.data = std::make_shared<MemData>();
    for (auto& d : {"d0", "d1"}) for (auto& n : {"de.po", "de_AT.po", "fr.po"}) { CatOpt o; o.tag = std::string(d) + n; o.fuzzy = 20; if (rng.chance(70)) w.data->dirs[d].emplace_back(n, render(rng, random_entries(rng, o), "UTF-8", "")); }
  }
  // everything a thread logs goes to the default callback, nowhere, or to a callback of its own
  int callbacks = static_cast<int>(rng.below(10));
  if (callbacks < 3) { Log::set_log_info_callback(&Log::default_log_callback); Log::set_log_warning_callback(&Log::default_log_callback); Log::set_log_error_callback(&Log::default_log_callback); count("with_default_callbacks"); }
  else if (callbacks == 3) { Log::set_log_info_callback(nullptr); Log::set_log_warning_callback(nullptr); Log::set_log_error_callback(nullptr); }
  else LogCap::install();
  std::vector<Language> langs;
  if (rng.chance(40)) for (auto& l : {"de", "de_AT", "german", "sr@latin", "zz", "pt_BR.UTF-8", "tr_TR"}) langs.push_back(Language::from_name(l));
  std::string root = opt.scratch.empty() ? opt.replay_dir : opt.scratch;
  for (size_t i = 0; i < work.size(); ++i) {
    Work& w = work[i];
    w.langs = langs.empty() ? nullptr : &langs;
    w.dir = root + "/t" + std::to_string(i);
    mkdir(w.dir.c_str(), 0700);
    for (auto& f : w.data->dirs["d0"]) { std::string path = w.dir + "/" + f.first; int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); if (fd < 0 || write(fd, f.second.data(), f.second.size()) != static_cast<ssize_t>(f.second.size())) harness_error("scratch file"); close(fd); }
  }
  std::string desc = std::to_string(threads) + " threads" + (shared ? ", one shared dictionary" : "") + ", first operation " + std::to_string(first);
  describe(desc);
  if (shared) {
    // filled directly: no header, no language
    dict.reset(new Dictionary); fb.reset(new Dictionary);
    for (int i = 0; i < 6; ++i) { if (i % 2) dict->add_translation("id" + std::to_string(i), "s" + std::to_string(i)); dict->add_translation("c1", "id" + std::to_string(i), "many", Strs{"f0", "f1", ""}); fb->add_translation("id" + std::to_string(i), "fb" + std::to_string(i)); fb->add_translation("c0", "id" + std::to_string(i), "fbc"); }
    dict->addFallback(fb.get());
    for (auto& w : work) w.shared = dict.get();
    count("with_shared_dictionary");
  }
  g_ready = 0; g_go = 0; g_ticket = 0;
  std::vector<std::thread> ts;
  for (int i = 0; i < threads; ++i)
    ts.emplace_back([&, i] {
      g_ready.fetch_add(1);
      while (!g_go.load()) sched_yield();
      run(work[static_cast<size_t>(i)], i, first);
    });
  while (g_ready.load() < threads) sched_yield();
  g_go = 1;
  for (auto& t : ts) t.join();
  int used = std::min<int>(g_ticket, static_cast<int>(g_order->size()));
  std::string order(g_order->begin(), g_order->begin() + used);
  int switches = 0;
  for (size_t i = 1; i < order.size(); ++i) if (order[i] != order[i - 1]) ++switches;
  // the same programs one after the other
  for (int i = 0; i < threads; ++i) {
    Work twin = work[static_cast<size_t>(i)];
    run(twin, -1, first);
    if (twin.digest != work[static_cast<size_t>(i)].digest) { fail("other-results", "thread " + std::to_string(i) + " obtained other results than when run alone: " + quote(work[static_cast<size_t>(i)].digest, 1500) + " alone: " + quote(twin.digest, 1500)); break; }
    count("thread_results_compared");
  }
  if (index == opt.from) count("first_use_in_process");
  count("operations", static_cast<uint64_t>(used));
  count("context_switches", static_cast<uint64_t>(switches));
  if (index % 200 == 0) { std::string o; for (char c : order) o += static_cast<char>('0' + c); sample(desc + " order " + o); }
  nontrivial(hash_str(desc + order));
}
} // namespace vf
