// C24: objects do not influence each other. Several actors, each with objects of its own,
// are stepped in an interleaved order in a process that has done thousands of other things;
// each actor's results must equal those of the same actor alone in a pristine process.
#include "mgr.hpp"
#include "hostile.hpp"
#include "cs.hpp"
#include <tinygettext/iconv.hpp>
#include <tinygettext/po_parser.hpp>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf {
const char* const property_id = "C24";
using namespace tinygettext;

static const std::vector<std::string>& langs24() {
  static const std::vector<std::string> v = {"de", "de_AT", "de_CH", "pt_BR", "pt", "sr@latin", "zh_TW", "it", "fr_FR"};
  return v;
}
static const std::vector<std::string>& files24() {
  static const std::vector<std::string> v = {"de.po", "de_AT.po", "de_at.po", "pt.po", "pt_BR.po", "sr@latin.po", "sr.po", "zh_TW.po", "it.po", "fr.po", "xx.po", "notes.txt"};
  return v;
}
static const std::vector<std::string>& charsets24() {
  static const std::vector<std::string> v = {"UTF-8", "utf-8", "ISO-8859-1", "iso-8859-15", "UTF-16LE", "UTF-16", "ISO-2022-JP", "EUC-JP", "KOI8-R", "UTF-7", "NONSENSE", "BIG5", "SHIFT_JIS", "CP1252", "ISO-8859-2", "ISO-2022-KR"};
  return v;
}
static std::string any_text(Rng& rng) {
  std::string s;
  for (int n = rng.chance(8) ? rng.range(200, 3000) : rng.range(0, 14); n > 0; --n) {
    if (rng.chance(60)) s += static_cast<char>(rng.range('a', 'z'));
    else if (rng.chance(60)) { const CsTable& u = cs_tables[0]; const CsChar& c = u.chars[rng.below(u.n)]; s.append(c.bytes, c.len); }
    else if (rng.chance(70)) s += static_cast<char>(rng.below(256));
  }
  return s;
}

struct Actor {
  Rng rng;
  int id, left;
  bool full;                        // collect the trace
  std::string tag;
  std::unique_ptr<DictionaryManager> man;
  std::shared_ptr<MemData> data;
  std::unique_ptr<Dictionary> dict;
  std::vector<std::unique_ptr<Dictionary>> old;   // dictionaries others may fall back to
  std::unique_ptr<IConv> conv;
  std::vector<std::string> results, trace;

  Actor(uint64_t seed, int id_) : rng(seed), id(id_), left(0), full(true) { left = rng.range(3, 14); tag = "T" + std::to_string(seed % 97); }

  std::string catalog() {
    if (rng.chance(15)) return hostile_catalog(rng);
    CatOpt o;
    o.tag = tag; o.fuzzy = rng.chance(30) ? 30 : 0; o.untranslated = 10;
    o.charset = rng.chance(70) ? "UTF-8" : "ISO-8859-1"; o.latin = true;
    o.max_messages = rng.chance(5) ? 60 : 6;
    return render(rng, random_entries(rng, o), o.charset, rng.chance(60) ? some_rule() : "", rng.chance(90));
  }
  // rules of different objects often differ in one place only
  std::string some_rule() {
    std::string r = plural_rules[rng.chance(50) ? rng.below(5) : rng.below(n_plural_rules)];
    if (rng.chance(30)) r = vary(rng, r);
    return r;
  }
  std::string some_charset() { std::string c = rng.pick(charsets24()); return rng.chance(12) ? vary(rng, c) : c; }
  std::string some_text() {
    static const char* const bases[] = {"Hello", "a longer text, which is the same in its first part and in its last", "\xc3\xa4\xc3\xb6", "id0", "\xff", ""};
    return rng.chance(60) ? any_text(rng) : rng.chance(40) ? bases[rng.below(6)] : vary(rng, bases[rng.below(6)]);
  }
  std::string some_file() { return rng.chance(50) ? "x.po" : vary(rng, "dir/x.po"); }
  // the first and last lookups are those of the next dictionary, which may have the same address
  static std::string ends(Dictionary& d) {
    std::string r;
    for (int i : {0, 1, 0}) { std::string id = "id" + std::to_string(i); r += d.translate(id) + "," + d.translate_plural(id, id + "s", 2) + "," + d.translate_ctxt("c0", id) + "," + d.translate_ctxt_plural("c0", id, id + "s", 2) + ";"; }
    return r;
  }
  std::string sig(Dictionary& d) { std::string r = ends(d); Sig s = signature(d, 5, 2); return r + show(s.msgs) + "|" + s.charset + "|" + s.plural + "|" + s.lookups + ends(d) + d.translate("id0"); }

  void step() {
    std::string r, what;
    LogScope log;
    try {
      uint32_t op = rng.below(15);
      if (trace.empty() && rng.chance(60)) op = 0;
      switch (op) {
        case 0: {
          what = "new manager"; r = "x";
          data = std::make_shared<MemData>();
          for (auto& d : {"d0", "d1", "d2"}) for (auto& f : files24()) if (rng.chance(30)) data->dirs[d].emplace_back(f, catalog());
          if (rng.chance(20)) data->faults["d" + std::to_string(rng.below(3)) + "/" + rng.pick(files24())] = {rng.chance(50) ? Fault::open_throw : Fault::read_throw, rng.range(0, 40)};
          data->chunk = rng.chance(50) ? 1 << 16 : 17;
          std::string cs = rng.chance(60) ? "UTF-8" : some_charset();
          man.reset(new DictionaryManager(std::unique_ptr<FileSystem>(new MemFS(data)), cs));
          what += " for " + cs + "\n" + show_fs(*data, 300);
          for (int n = rng.range(0, 3); n > 0; --n) man->add_directory("d" + std::to_string(rng.below(3)), rng.chance(30));
          break;
        }
        case 1: case 2: case 3: {
          if (!man) { what = "no manager"; break; }
          std::string l = rng.pick(langs24());
          what = "request " + l;
          Dictionary& d = man->get_dictionary(lang_of(l));
          if (rng.chance(10)) { what += " and add to it"; d.add_translation("id" + std::to_string(rng.below(4)), tag + "own"); }
          r = sig(d);
          break;
        }
        case 4: {
          if (!man) { what = "no manager"; break; }
          int k = static_cast<int>(rng.below(6));
          std::string d = "d" + std::to_string(rng.below(3)), l = rng.pick(langs24()), cs = rng.pick(charsets24());
          what = "reconfigure " + std::to_string(k) + " " + d + " " + l + " " + cs;
          if (k == 0) man->add_directory(d, rng.chance(30));
          else if (k == 1) man->remove_directory(d);
          else if (k == 2) man->set_charset(rng.chance(50) ? "UTF-8" : cs);
          else if (k == 3) man->set_use_fuzzy(rng.chance(50));
          else man->set_language(lang_of(l));
          r = man->get_language().str() + (man->get_use_fuzzy() ? " fuzzy" : " no fuzzy");
          break;
        }
        case 5: {
          if (!man) { what = "no manager"; break; }
          what = "list languages and current dictionary";
          for (auto& l : man->get_languages()) r += l.str() + ",";
          if (rng.chance(20)) { what += ", adding to it"; man->get_dictionary().add_translation("c0", "id" + std::to_string(rng.below(4)), tag + "mine"); }
          r += sig(man->get_dictionary());
          r += man->convertFilename2Language(rng.pick(files24()));
          break;
        }
        case 6: {
          std::string cs = rng.chance(60) ? "UTF-8" : some_charset();
          what = "new dictionary for " + cs;
          if (dict) old.push_back(std::move(dict));
          dict.reset(new Dictionary(cs));
          if (!old.empty() && rng.chance(60)) { dict->addFallback(old.back().get()); what += " with fallback"; }
          r = dict->get_charset();
          break;
        }
        case 7: case 8: {
          std::string cat = catalog();
          what = "load " + quote(cat, 1200);
          if (!dict) dict.reset(new Dictionary);
          auto in = make_stream(cat, rng.chance(50) ? 5 : 1 << 16);
          try { POParser::parse(some_file(), *in, *dict, rng.chance(70)); } catch (std::exception& e) { r = "exception;"; }
          r += sig(*dict);
          break;
        }
        case 9: {
          if (!dict) dict.reset(new Dictionary);
          std::string i = "id" + std::to_string(rng.below(4)), c = "c" + std::to_string(rng.below(2));
          what = "add and look up " + i + " " + c;
          switch (rng.below(4)) {
            case 0: dict->add_translation(i, some_text()); break;
            case 1: dict->add_translation(i, i + "s", Strs{some_text(), some_text()}); break;
            case 2: dict->add_translation(c, i, some_text()); break;
            default: dict->add_translation(c, i, i + "s", Strs{some_text(), some_text()}); break;
          }
          if (rng.chance(40)) dict->set_plural_forms(PluralForms::from_string(some_rule()));
          r = sig(*dict);
          break;
        }
        case 10: case 11: case 12: {
          std::string a = some_charset(), b = some_charset(), t = some_text();
          int k = static_cast<int>(rng.below(4));
          what = "convert " + a + " " + b + " " + std::to_string(k) + " " + quote(t, 200);
          if (!conv) conv.reset(new IConv);
          if (k == 3) conv.reset(new IConv(a, b));
          else if (k > 0) conv->set_charsets(a, b);
          r = conv->convert(t);
          break;
        }
        case 13: {
          std::string n;
          switch (rng.below(3)) {
            case 0: n = alias_rows[rng.below(static_cast<uint32_t>(n_aliases))].alias; break;
            case 1: n = ref_str(static_cast<int>(rng.below(static_cast<uint32_t>(n_langs)))); break;
            default: n = any_text(rng).substr(0, 12); break;
          }
          if (rng.chance(25)) n = vary(rng, n);
          what = "name " + quote(n);
          Language a = Language::from_name(n), b = Language::from_env(n);
          r = a.str() + "|" + a.get_name() + "|" + b.str() + "|" + b.get_language() + "|" + b.get_country() + "|" + b.get_modifier() + "|" + std::to_string(Language::match(a, b));
          break;
        }
        case 14: {
          std::string rule = some_rule();
          if (rng.chance(10)) rule[rng.below(static_cast<uint32_t>(rule.size()))] = '7';
          what = "rule " + rule;
          PluralForms p = PluralForms::from_string(rule);
          r = std::to_string(p.get_nplural());
          if (p) for (int k = 0; k < 30; ++k) r += static_cast<char>('0' + p.get_plural(k));
          break;
        }
      }
    } catch (std::exception& e) { r += "exception"; }
    for (auto& m : log.err) r += "\nE " + m;
    for (auto& m : log.warn) r += "\nW " + m;
    r += "\nI " + std::to_string(log.info.size());
    results.push_back(r);
    trace.push_back(what);
    --left;
  }
};

// ---- the pristine process
static int g_to = -1, g_from = -1;
static bool write_all(int fd, const void* p, size_t n) {
  const char* c = static_cast<const char*>(p);
  while (n) { ssize_t k = write(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= static_cast<size_t>(k); }
  return true;
}
static bool read_all(int fd, void* p, size_t n) {
  char* c = static_cast<char*>(p);
  while (n) { ssize_t k = read(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= static_cast<size_t>(k); }
  return true;
}
static void serve(int in, int out) {
  uint64_t seed;
  while (read_all(in, &seed, sizeof seed)) {
    int p[2];
    if (pipe(p)) _exit(4);
    pid_t child = fork();
    if (child < 0) _exit(4);
    if (child == 0) {
      close(p[0]);
      int null = open("/dev/null", O_WRONLY);
      dup2(null, 1); dup2(null, 2);
      alarm(120);
      reset_steps(default_step_budget);
      Actor a(seed, 0);
      while (a.left > 0) a.step();
      std::string s;
      for (auto& r : a.results) { uint32_t n = static_cast<uint32_t>(r.size()); s.append(reinterpret_cast<char*>(&n), 4); s += r; }
      write_all(p[1], s.data(), s.size());
      _exit(7);
    }
    close(p[1]);
    std::string all;
    char buf[4096];
    for (;;) { ssize_t k = read(p[0], buf, sizeof buf); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; all.append(buf, static_cast<size_t>(k)); }
    close(p[0]);
    int st = 0;
    while (waitpid(child, &st, 0) < 0 && errno == EINTR) {}
    uint64_t n = WIFEXITED(st) && WEXITSTATUS(st) == 7 ? all.size() : ~0ull;
    if (!write_all(out, &n, sizeof n) || (n != ~0ull && !write_all(out, all.data(), all.size()))) _exit(4);
  }
  _exit(0);
}
// memory that was freed is handed out again at once: objects often have the address of a destroyed one
extern "C" const char* __asan_default_options() { return "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"; }

void harness_init() {
  default_step_budget = 400000000;
  int a[2], b[2];
  if (pipe(a) || pipe(b)) harness_error("pipe");
  pid_t p = fork();
  if (p < 0) harness_error("fork");
  if (p == 0) { close(a[1]); close(b[0]); serve(a[0], b[1]); }
  close(a[0]); close(b[1]);
  g_to = a[1]; g_from = b[0];
  signal(SIGPIPE, SIG_IGN);
}
void harness_done() {}
static bool alone(uint64_t seed, std::vector<std::string>& r) {
  uint64_t n;
  waiting_for_others = true;
  if (!write_all(g_to, &seed, sizeof seed) || !read_all(g_from, &n, sizeof n)) harness_error("the pristine process is gone");
  waiting_for_others = false;
  if (n == ~0ull) return false;
  std::string s(n, 0);
  if (n && !read_all(g_from, &s[0], n)) harness_error("the pristine process is gone");
  for (size_t i = 0; i + 4 <= s.size();) { uint32_t k; memcpy(&k, &s[i], 4); r.push_back(s.substr(i + 4, k)); i += 4 + k; }
  return true;
}

void run_case(uint64_t index, Rng& rng) {
  int n = rng.sized(2, 6, 60, 10);
  std::vector<uint64_t> seeds;
  for (int i = 0; i < n; ++i) seeds.push_back(i && rng.chance(10) ? seeds[0] : rng.next());
  std::vector<std::unique_ptr<Actor>> live;
  std::vector<std::vector<std::string>> got(seeds.size()), traces(seeds.size());
  std::string desc;
  size_t next = 0;
  int switches = 0, last = -1, crowd = rng.chance(30) ? 90 : 25;
  while (next < seeds.size() || !live.empty()) {
    if (next < seeds.size() && (live.empty() || rng.chance(crowd))) { live.emplace_back(new Actor(seeds[next], static_cast<int>(next))); ++next; continue; }
    size_t k = rng.below(static_cast<uint32_t>(live.size()));
    Actor& a = *live[k];
    if (a.left > 0) {
      for (int burst = rng.range(1, 3); burst > 0 && a.left > 0; --burst) {
        a.step();
        desc += "actor " + std::to_string(a.id) + ": " + a.trace.back() + "\n";
        describe(desc);
        if (last >= 0 && last != a.id) ++switches;
        last = a.id;
      }
    } else {
      got[static_cast<size_t>(a.id)] = a.results;
      traces[static_cast<size_t>(a.id)] = a.trace;
      live.erase(live.begin() + static_cast<long>(k));
      desc += "destroy actor\n";
    }
  }
  for (size_t i = 0; i < seeds.size(); ++i) {
    std::vector<std::string> want;
    if (!alone(seeds[i], want)) { fail("died-alone", "actor " + std::to_string(i) + " alone in a new process did not finish"); continue; }
    if (want.size() != got[i].size()) harness_error("programs differ");
    for (size_t s = 0; s < want.size(); ++s) {
      count("results_compared");
      if (want[s] == got[i][s]) continue;
      std::string kind = traces[i][s].substr(0, traces[i][s].find(' '));
      size_t at = 0;
      while (at < want[s].size() && at < got[i][s].size() && want[s][at] == got[i][s][at]) ++at;
      at = at < 60 ? 0 : at - 60;
      fail("influenced-" + kind, "actor " + std::to_string(i) + " step " + std::to_string(s) + " (" + traces[i][s].substr(0, 300) + "): alone ..." + quote(want[s].substr(at), 500) + ", among others ..." + quote(got[i][s].substr(at), 500));
      return;
    }
    for (auto& t : traces[i]) count("op_" + t.substr(0, t.find(' ')));
  }
  count("actors", seeds.size());
  count("switches_between_actors", static_cast<uint64_t>(switches));
  nontrivial(hash_str(desc));
  if (index % 300 == 0) sample(desc);
}
} // namespace vf
