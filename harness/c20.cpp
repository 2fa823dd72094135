// C20: everything taken is given back: descriptors, streams, file systems, memory, file descriptors.
#include "mgr.hpp"
#include "hostile.hpp"
#include <tinygettext/iconv.hpp>
#include <tinygettext/po_parser.hpp>
#include <cerrno>
#include <cstdlib>
#include <dirent.h>
#include <iconv.h>
#include <new>
#include <sys/stat.h>
#include <unistd.h>

// ------------------------------------------------------------ memory
static long g_live = 0;            // blocks taken and not given back
static uint64_t g_taken = 0;
static long g_c_live = 0;          // the same for blocks of the C allocation functions
extern "C" {
void* __real_malloc(size_t n);
void __real_free(void* p);
void* __real_calloc(size_t n, size_t m);
void* __real_realloc(void* p, size_t n);
void* __real_aligned_alloc(size_t a, size_t n);
char* __real_strdup(const char* s);
char* __real_strndup(const char* s, size_t n);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) ++g_c_live; return p; }
void __wrap_free(void* p) { if (p) --g_c_live; __real_free(p); }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); if (p) ++g_c_live; return p; }
void* __wrap_realloc(void* p, size_t n) { void* q = __real_realloc(p, n); if (!p && q) ++g_c_live; return q; }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a, n); if (p) ++g_c_live; return p; }
char* __wrap_strdup(const char* s) { char* p = __real_strdup(s); if (p) ++g_c_live; return p; }
char* __wrap_strndup(const char* s, size_t n) { char* p = __real_strndup(s, n); if (p) ++g_c_live; return p; }
}
static void* take(std::size_t n, std::size_t align = 0) {
  void* p = align ? __real_aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  ++g_live; ++g_taken;
  return p;
}
static void give(void* p) { if (p) { --g_live; __real_free(p); } }
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void* operator new(std::size_t n, std::align_val_t a) { return take(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return take(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { ++g_live; ++g_taken; return __real_malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { ++g_live; ++g_taken; return __real_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

// ------------------------------------------------------------ conversion descriptors
static const int max_open = 4096;
static iconv_t g_open[max_open];
static int g_nopen = 0;
static uint64_t g_opened = 0, g_closed = 0, g_refused = 0, g_used = 0, g_injected = 0;
static int g_fail_in = 0, g_fail_errno = 0;      // the g_fail_in-th opening from now fails
static const char* g_problem = nullptr;
static bool known(iconv_t c, bool remove) {
  for (int i = 0; i < g_nopen; ++i)
    if (g_open[i] == c) { if (remove) g_open[i] = g_open[--g_nopen]; return true; }
  return false;
}
extern "C" {
iconv_t __real_iconv_open(const char* to, const char* from);
size_t __real_iconv(iconv_t c, char** i, size_t* il, char** o, size_t* ol);
int __real_iconv_close(iconv_t c);
iconv_t __wrap_iconv_open(const char* to, const char* from) {
  if (g_fail_in && --g_fail_in == 0) { ++g_injected; errno = g_fail_errno; return reinterpret_cast<iconv_t>(-1); }
  iconv_t c = __real_iconv_open(to, from);
  if (c == reinterpret_cast<iconv_t>(-1)) { ++g_refused; return c; }
  ++g_opened;
  if (g_nopen < max_open) g_open[g_nopen++] = c; else vf::harness_error("too many descriptors");
  return c;
}
size_t __wrap_iconv(iconv_t c, char** i, size_t* il, char** o, size_t* ol) {
  ++g_used;
  if (!known(c, false)) {
    if (!g_problem) g_problem = "a conversion used a descriptor that is not open";
    if (il) *il = 0;
    return 0;
  }
  return __real_iconv(c, i, il, o, ol);
}
int __wrap_iconv_close(iconv_t c) {
  if (!known(c, true)) { if (!g_problem) g_problem = "a descriptor was closed that is not open"; errno = EBADF; return -1; }
  ++g_closed;
  return __real_iconv_close(c);
}
}

namespace vf {
const char* const property_id = "C20";
void harness_init() { default_step_budget = 400000000; }
void harness_done() {}
using namespace tinygettext;

static long live_fs = 0;
class CountedFS : public MemFS {
public:
  explicit CountedFS(std::shared_ptr<MemData> d) : MemFS(std::move(d)) { ++live_fs; }
  ~CountedFS() override { --live_fs; }
};

static int open_files() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) harness_error("no /proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

struct Tally { uint64_t managers = 0, requests = 0, exceptions = 0, conversions = 0, loads = 0, reconfigurations = 0, real = 0, dicts = 0; };

static void write_file(const std::string& path, const std::string& s) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) harness_error("cannot write " + path);
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}

// one history; the same seed gives the same history
static void history(uint64_t seed, bool trace, const std::string& real_root, Tally& t) {
  Rng rng(seed);
  auto note = [&](const std::string& s) { if (trace) describe_more(s + "\n"); };
  LogScope log;
  auto data = std::make_shared<MemData>();
  std::vector<std::string> dirs;
  static const std::vector<std::string> names = {"de.po", "de_AT.po", "fr.po", "pt_BR.po", "xx.po", "de.UTF-8.po", "README", "sr@latin.po"};
  bool hostile = rng.chance(50);
  for (int i = rng.range(1, 3); i > 0; --i) {
    std::string d = "d" + std::to_string(i);
    dirs.push_back(d);
    for (auto& n : names) {
      if (!rng.chance(45)) continue;
      CatOpt o; o.tag = d + n; o.fuzzy = 20; o.charset = rng.chance(60) ? "UTF-8" : rng.pick(hostile_charsets());
      data->dirs[d].emplace_back(n, hostile && rng.chance(60) ? hostile_catalog(rng) : render(rng, random_entries(rng, o), o.charset, rng.chance(50) ? plural_rules[rng.below(n_plural_rules)] : ""));
      static const Fault faults[] = {Fault::open_null, Fault::open_throw, Fault::open_failed_stream, Fault::read_throw, Fault::read_bad_eof};
      if (rng.chance(25)) data->faults[d + "/" + n] = {faults[rng.below(5)], static_cast<long>(rng.below(300))};
    }
    if (rng.chance(15)) data->faults[d] = {Fault::list_throw, static_cast<long>(rng.below(3))};
  }
  data->chunk = rng.chance(30) ? 7 : 4096;
  if (trace) note(show_fs(*data, 400));
  std::vector<std::unique_ptr<DictionaryManager>> ms;
  std::vector<std::unique_ptr<IConv>> cs;
  std::vector<std::unique_ptr<Dictionary>> ds;
  static const std::vector<std::string> langs = {"de", "de_AT", "fr", "pt_BR", "sr@latin", "en_GB"};
  for (int n = opt.thorough ? rng.range(5, 60) : rng.range(4, 20); n > 0; --n) {
    int k = static_cast<int>(rng.below(16));
    if (ms.empty() && rng.chance(60)) k = 0;
    if (rng.chance(12)) {
      static const int errs[] = {EMFILE, ENOMEM, EINVAL, ENFILE};
      g_fail_in = rng.range(1, 3); g_fail_errno = errs[rng.below(4)];
      note("opening a converter will fail, the " + std::to_string(g_fail_in) + ". from now, errno " + std::to_string(g_fail_errno));
    }
    try {
      switch (k) {
        case 0: {
          if (ms.size() > 2) break;
          bool real = !real_root.empty() && rng.chance(40);
          std::string c = rng.pick(hostile_dict_charsets());
          note(std::string("new manager") + (real ? " over real files" : "") + ", charset " + quote(c));
          if (real) { ms.emplace_back(new DictionaryManager(c)); ++t.real; for (auto& d : {"a", "b", "missing"}) if (rng.chance(70)) ms.back()->add_directory(real_root + "/" + d); }
          else { ms.emplace_back(new DictionaryManager(std::unique_ptr<FileSystem>(new CountedFS(data)), c)); for (auto& d : dirs) if (rng.chance(80)) ms.back()->add_directory(d, rng.chance(30)); }
          ++t.managers;
          break;
        }
        case 1: if (!ms.empty() && rng.chance(40)) { note("delete manager"); ms.erase(ms.begin() + rng.below(static_cast<uint32_t>(ms.size()))); } break;
        case 2: case 3: case 4: case 5:
          if (!ms.empty()) {
            DictionaryManager& m = *ms[rng.below(static_cast<uint32_t>(ms.size()))];
            std::string l = rng.pick(langs);
            note("request " + l);
            ++t.requests;
            Dictionary& d = m.get_dictionary(lang_of(l));
            d.translate("id0"); d.translate_plural("id1", "ids", 3); d.translate_ctxt("c0", "id2");
          }
          break;
        case 6: if (!ms.empty()) { DictionaryManager& m = *ms[rng.below(static_cast<uint32_t>(ms.size()))]; note("set_language, request"); m.set_language(lang_of(rng.pick(langs))); ++t.requests; m.get_dictionary(); } break;
        case 7: if (!ms.empty()) { note("get_languages"); ms[rng.below(static_cast<uint32_t>(ms.size()))]->get_languages(); } break;
        case 8: case 9: if (!ms.empty()) {
            DictionaryManager& m = *ms[rng.below(static_cast<uint32_t>(ms.size()))];
            ++t.reconfigurations;
            switch (rng.below(4)) {
              case 0: { std::string c = rng.pick(hostile_dict_charsets()); note("set_charset " + quote(c)); m.set_charset(c); break; }
              case 1: note("set_use_fuzzy"); m.set_use_fuzzy(rng.chance(50)); break;
              case 2: note("add_directory"); m.add_directory(rng.pick(dirs), rng.chance(50)); break;
              case 3: note("remove_directory"); m.remove_directory(rng.pick(dirs)); break;
            }
          }
          break;
        case 10: {
          std::string f = rng.pick(hostile_charsets()), to = rng.pick(hostile_dict_charsets());
          note("new converter " + quote(f) + " to " + quote(to));
          if (cs.size() < 4) { if (rng.chance(20)) cs.emplace_back(new IConv); else cs.emplace_back(new IConv(f, to)); }
          break;
        }
        case 11: if (!cs.empty()) { std::string f = rng.pick(hostile_charsets()), to = rng.pick(hostile_dict_charsets()); note("select " + quote(f) + " to " + quote(to)); cs[rng.below(static_cast<uint32_t>(cs.size()))]->set_charsets(f, to); } break;
        case 12: if (!cs.empty()) { std::string s = join(random_utf8(rng, 20)); note("convert " + quote(s)); cs[rng.below(static_cast<uint32_t>(cs.size()))]->convert(s); ++t.conversions; } break;
        case 13: if (!cs.empty() && rng.chance(40)) { note("delete converter"); cs.erase(cs.begin() + rng.below(static_cast<uint32_t>(cs.size()))); } break;
        case 14: {
          if (ds.size() < 3) { ds.emplace_back(new Dictionary(rng.pick(hostile_dict_charsets()))); ++t.dicts; }
          std::string cat = hostile_catalog(rng);
          note("load " + quote(cat, 600));
          long fail_at = rng.chance(30) ? static_cast<long>(rng.below(static_cast<uint32_t>(cat.size()) + 1)) : -1;
          OwningStream in(std::unique_ptr<std::streambuf>(new ChunkBuf(cat, 64, fail_at, rng.chance(70))));
          if (rng.chance(30)) in.exceptions(std::ios::badbit);
          ++t.loads;
          POParser::parse("x.po", in, *ds[rng.below(static_cast<uint32_t>(ds.size()))]);
          break;
        }
        case 15: {
          Dictionary d, f;
          d.addFallback(&f);
          for (int i = 0; i < 4; ++i) { d.add_translation("i" + std::to_string(rng.below(3)), "s" + std::to_string(i)); f.add_translation("c", "i", "is", Strs{"a", "b"}); f.add_translation("c", "i", std::to_string(i)); }
          d.translate_ctxt_plural("c", "i", "is", 2);
          ++t.dicts;
          break;
        }
      }
    } catch (std::exception& e) { note(std::string("  exception ") + e.what()); ++t.exceptions; }
    if (live_streams != 0) { fail("stream-kept", std::to_string(live_streams) + " catalog streams are still alive after the operation"); live_streams = 0; }
    log.clear();
  }
  g_fail_in = 0;
}

static std::string hexa(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(v)); return b; }
// one of a series of histories in which every name and text is new
static void fresh_history(uint64_t seed, uint64_t salt) {
  Rng rng(seed);
  std::string s = hexa(salt);
  LogScope log;
  auto data = std::make_shared<MemData>();
  data->dirs["d" + s] = {{"de.po", "msgid \"id" + s + "\"\nmsgstr \"t" + s + "\"\n\nmsgctxt \"c" + s + "\"\nmsgid \"i\"\nmsgstr \"x\"\n"},
                         {"de." + s + ".po", "msgid \"b" + s + "\"\nmsgstr \"t\"\n"}, {"q" + s + ".po", "msgid \"a\"\nmsgstr \"b\"\n"},
                         {"fr.po", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=cs" + s + "\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n"},
                         {"it.po", "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=n != " + s + ";\\n\"\n\nmsgid \"a" + s + "\"\nmsgid_plural \"b\"\nmsgstr[0] \"b\"\nmsgstr[1] \"" + s + "\"\n"},
                         {"es.po", "junk " + s + "\n"}, {"pt.po", ""}};
  if (rng.chance(50)) data->faults["d" + s + "/pt.po"] = {Fault::open_null, 0};
  if (rng.chance(30)) data->faults["d" + s + "/it.po"] = {Fault::read_throw, 20};
  {
    DictionaryManager m(std::unique_ptr<FileSystem>(new CountedFS(data)), rng.chance(50) ? "UTF-8" : "ISO-8859-1");
    m.add_directory("d" + s);
    m.add_directory("no" + s, true);
    for (auto& l : {"de", "de_AT", "fr", "it", "es", "pt"}) {
      try {
        m.set_language(lang_of(l));
        const Dictionary& d = m.get_dictionary();
        d.translate("id" + s); d.translate("unknown" + s); d.translate_ctxt("c" + s, "i"); d.translate_ctxt_plural("k" + s, "i", "j" + s, 3); d.translate_plural("a" + s, "b", 2);
      } catch (std::exception&) {}
    }
    m.get_languages();
    m.remove_directory("no" + s);
    try { m.set_charset("cs" + s); m.get_dictionary(lang_of("de")); } catch (std::exception&) {}
  }
  for (auto& n : {"de_" + s, "q" + s, "de." + s, "de@" + s, "sr@latin." + s}) { Language l = Language::from_name(n); l.str(); l.get_name(); }
  Language::from_spec("de", s, "m" + s);
  PluralForms::from_string("Plural-Forms: nplurals=1; plural=" + s + ";");
  IConv c("UTF-8", "ISO-8859-1");
  c.convert("text " + s);
  try { c.set_charsets("x" + s, "UTF-8"); } catch (std::exception&) {}
  try { c.convert("text\xff " + s); } catch (std::exception&) {}
  Dictionary d, f;
  d.addFallback(&f);
  f.add_translation("m" + s, "t"); f.add_translation("m" + s, "t" + s); d.add_translation("c" + s, "m", "ms", Strs{"a" + s});
  d.translate("m" + s);
}

static void series(Rng& rng) {
  uint64_t seed = rng.next(), salt = rng.next() & 0xffffffffffffull;
  describe("a series of 60 histories (seed " + hexa(seed) + ") with new names, salts from " + hexa(salt) + "\n");
  long mid = 0, mid_c = 0, grown = 0, grown_c = 0;
  for (int i = 0; i < 60; ++i) {
    if (i == 20) { mid = g_live; mid_c = g_c_live; }
    long a = g_live, b = g_c_live;
    fresh_history(seed, salt + static_cast<uint64_t>(i) * 7919);
    if (i >= 20) { grown += g_live > a; grown_c += g_c_live > b; }
  }
  if (grown >= 30 && g_live - mid >= 40) fail("memory-growth", "after each of " + std::to_string(grown) + " of 40 histories of new names more blocks remained, " + std::to_string(g_live - mid) + " in all");
  if (grown_c >= 30 && g_c_live - mid_c >= 40) fail("memory-growth-c", "after each of " + std::to_string(grown_c) + " of 40 histories of new names more blocks of the C allocator remained, " + std::to_string(g_c_live - mid_c) + " in all");
  if (g_problem) fail("descriptor-misuse", g_problem);
  if (g_nopen) { fail("descriptor-leak", std::to_string(g_nopen) + " conversion descriptors are open after everything was destroyed"); for (int i = 0; i < g_nopen; ++i) __real_iconv_close(g_open[i]); g_nopen = 0; }
  if (live_streams != 0) { fail("stream-kept", std::to_string(live_streams) + " catalog streams are still alive"); live_streams = 0; }
  if (live_fs) { fail("file-system-kept", std::to_string(live_fs) + " file systems were not destroyed with their managers"); live_fs = 0; }
  count("histories_with_new_names", 60);
  nontrivial(seed);
}

void run_case(uint64_t index, Rng& rng) {
  if (index % 100 == 50) { g_problem = nullptr; series(rng); return; }
  uint64_t seed = rng.next();
  std::string root;
  if (index % 8 == 0 && !opt.scratch.empty()) {
    root = opt.scratch + "/c20";
    Rng r2(seed ^ 77);
    mkdir(root.c_str(), 0755);
    for (auto& d : {"a", "b"}) {
      mkdir((root + "/" + d).c_str(), 0755);
      for (auto& n : {"de.po", "de_AT.po", "fr.po"}) {
        std::string p = root + "/" + d + "/" + n;
        unlink(p.c_str());
        if (r2.chance(70)) write_file(p, hostile_catalog(r2));
      }
    }
    mkdir((root + "/a/pt_BR.po").c_str(), 0755);      // a directory with the name of a catalog
  }
  Tally t;
  history(seed, true, root, t);                        // fills every table of the process
  int files = open_files();
  g_problem = nullptr;
  uint64_t o0 = g_opened, c0 = g_closed, u0 = g_used, r0 = g_refused, i0 = g_injected, n0 = g_taken;
  long live0 = g_live, c_live0 = g_c_live;
  { Tally again; history(seed, false, root, again); }
  long leaked = g_live - live0;
  uint64_t taken = g_taken - n0;
  if (g_problem) fail("descriptor-misuse", g_problem);
  if (g_nopen) { fail("descriptor-leak", std::to_string(g_nopen) + " conversion descriptors are open after everything was destroyed"); for (int i = 0; i < g_nopen; ++i) __real_iconv_close(g_open[i]); g_nopen = 0; }
  if (leaked > 0) fail("memory-leak", std::to_string(leaked) + " of " + std::to_string(taken) + " blocks taken by the history remain after everything was destroyed");
  if (g_c_live > c_live0) fail("memory-leak-c", std::to_string(g_c_live - c_live0) + " blocks taken with the C functions remain after everything was destroyed");
  if (leaked < 0) fail("memory-extra", "the history gave back " + std::to_string(-leaked) + " blocks it had not taken");
  if (live_fs) { fail("file-system-kept", std::to_string(live_fs) + " file systems were not destroyed with their managers"); live_fs = 0; }
  int after = open_files();
  if (after != files) fail("file-leak", std::to_string(after - files) + " more open files after everything was destroyed");
  count("descriptors_opened_and_closed", std::min(g_opened - o0, g_closed - c0));
  count("conversions_on_open_descriptors", g_used - u0);
  count("openings_refused", g_refused - r0);
  count("openings_made_to_fail", g_injected - i0);
  count("blocks_taken", taken);
  count("managers", t.managers); count("requests", t.requests); count("exceptions", t.exceptions); count("loads", t.loads);
  count("reconfigurations", t.reconfigurations); count("managers_over_real_files", t.real); count("converters_used", t.conversions); count("dictionaries", t.dicts);
  if (g_opened > o0 || t.requests) nontrivial(hash_str(description()));
  if (index % 500 == 0) sample(description());
}
} // namespace vf
