// C01: any byte stream into a dictionary of any charset.
#include "hostile.hpp"
#include <tinygettext/po_parser.hpp>
#include <algorithm>
#include <climits>
#include <fstream>
#include <iconv.h>
#include <iterator>

static long g_open_failed = 0;
extern "C" iconv_t __real_iconv_open(const char*, const char*);
extern "C" iconv_t __wrap_iconv_open(const char* to, const char* from) {
  iconv_t r = __real_iconv_open(to, from);
  if (r == reinterpret_cast<iconv_t>(-1)) ++g_open_failed;
  return r;
}

// Work done inside the C and C++ runtime, which the edge counter cannot see:
// bytes moved, compared and scanned there, bytes converted, bytes allocated.
// (The C++ runtime is linked statically so that its calls are seen, too.)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static unsigned long long g_bytes = 0, g_alloc = 0, g_work_limit = ~0ull;
static void on_work_limit();
#define NOSAN __attribute__((no_sanitize("address", "undefined")))
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
NOSAN void* __wrap_memcpy(void* d, const void* s, size_t n) { g_bytes += n; if (g_bytes + g_alloc > g_work_limit) on_work_limit(); return __real_memcpy(d, s, n); }
void* __real_memmove(void*, const void*, size_t);
NOSAN void* __wrap_memmove(void* d, const void* s, size_t n) { g_bytes += n; if (g_bytes + g_alloc > g_work_limit) on_work_limit(); return __real_memmove(d, s, n); }
void* __real_memset(void*, int, size_t);
NOSAN void* __wrap_memset(void* d, int c, size_t n) { g_bytes += n; if (g_bytes + g_alloc > g_work_limit) on_work_limit(); return __real_memset(d, c, n); }
void* __real___asan_memcpy(void*, const void*, size_t);
NOSAN void* __wrap___asan_memcpy(void* d, const void* s, size_t n) { g_bytes += n; if (g_bytes + g_alloc > g_work_limit) on_work_limit(); return __real___asan_memcpy(d, s, n); }
void* __real___asan_memmove(void*, const void*, size_t);
NOSAN void* __wrap___asan_memmove(void* d, const void* s, size_t n) { g_bytes += n; if (g_bytes + g_alloc > g_work_limit) on_work_limit(); return __real___asan_memmove(d, s, n); }
void* __real___asan_memset(void*, int, size_t);
NOSAN void* __wrap___asan_memset(void* d, int c, size_t n) { g_bytes += n; if (g_bytes + g_alloc > g_work_limit) on_work_limit(); return __real___asan_memset(d, c, n); }
void* __real_memchr(const void*, int, size_t);
NOSAN void* __wrap_memchr(const void* d, int c, size_t n) { void* r = __real_memchr(d, c, n); g_bytes += r ? static_cast<size_t>(static_cast<char*>(r) - static_cast<const char*>(d)) : n; return r; }
int __real_memcmp(const void*, const void*, size_t);
NOSAN int __wrap_memcmp(const void* a, const void* b, size_t n) { g_bytes += n; return __real_memcmp(a, b, n); }
int __real_bcmp(const void*, const void*, size_t);
NOSAN int __wrap_bcmp(const void* a, const void* b, size_t n) { g_bytes += n; return __real_bcmp(a, b, n); }
size_t __real_strlen(const char*);
NOSAN size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); g_bytes += n; return n; }
size_t __real_iconv(iconv_t, char**, size_t*, char**, size_t*);
size_t __wrap_iconv(iconv_t cd, char** in, size_t* inl, char** out, size_t* outl) {
  size_t a = inl ? *inl : 0, b = outl ? *outl : 0;
  size_t r = __real_iconv(cd, in, inl, out, outl);
  g_bytes += (inl ? a - *inl : 0) + (outl ? b - *outl : 0);
  return r;
}
}
NOSAN static void on_malloc(const volatile void*, size_t n) { g_alloc += n; if (g_bytes + g_alloc > g_work_limit) on_work_limit(); }
NOSAN static void on_free(const volatile void*) {}
static void on_work_limit() {
  unsigned long long limit = g_work_limit, work = g_bytes + g_alloc;
  g_work_limit = ~0ull;
  vf::fail_and_stop("work-out-of-proportion", "the runtime moved, scanned, converted or allocated more bytes than the budget for the input: " + std::to_string(work) + ", the limit was at " + std::to_string(limit));
}

namespace vf {
const char* const property_id = "C01";
void harness_init() { if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
void harness_done() {}

struct Cost { double edges = 0, bytes = 0, stack = 0; };
static Cost judge(const std::string& data, const std::string& charset, size_t chunk, const std::string& name = "hostile.po") {
  LogScope log;
  tinygettext::Dictionary dict(charset);
  bool thrown = false;
  long before = g_open_failed;
  unsigned long long work = 0;
  try {
    auto in = make_stream(data, chunk);
    reset_steps(200000 + 2000 * data.size());
    unsigned long long w0 = g_bytes + g_alloc;
    struct Note { unsigned long long w0, &work; ~Note() { work = g_bytes + g_alloc - w0; g_work_limit = ~0ull; } } note{w0, work};
    g_work_limit = w0 + 1000000 + (10000 + 20 * name.size()) * data.size();
    tinygettext::POParser::parse(name, *in, dict);
  } catch (std::exception& e) {
    thrown = true;
    VF_CHECK(g_open_failed > before, "exception-without-unsupported-charset", "parse threw " << e.what() << " although every charset could be converted");
    VF_CHECK(*e.what(), "empty-exception", "exception without a text");
    count("unsupported_charset_exceptions");
  } catch (...) {
    fail("non-standard-exception", "parse threw something that is not a std::exception");
  }
  count("loads");
  count("bytes", data.size());
  if (!log.err.empty()) count("loads_with_reported_errors");
  uint64_t st = steps();
  size_t stack = stack_used();
  count("bytes_handled_by_the_runtime", work);
  if (getenv("VF_PROFILE") && data.size() > 20000) fprintf(stderr, "PROFILE %zu bytes: %.1f edges/byte %.1f bytes/byte | %s\n", data.size(), double(st) / double(data.size()), double(work) / double(data.size()), quote(data.substr(0, 60) + "..." + data.substr(data.size() / 2, 60)).c_str());
  reset_steps(300000000ull);
  Msgs m = dump(dict);
  if (!m.empty()) { count("loads_with_messages"); count("messages", m.size()); }
  static const int counts[] = {0, 1, 2, 3, 5, 11, 21, 100, 101, 1000000, INT_MAX, -1, INT_MIN};
  size_t lookups = 0;
  size_t sink = 0;
  for (auto& e : m) {
    sink += lookup(dict, e.first).size();
    for (int c : counts) sink += lookup_plural(dict, e.first, "many", c).size();
    if (++lookups >= 50) break;
  }
  sink += dict.translate("never there").size() + dict.translate_plural("never there", "x", 7).size() + dict.translate_ctxt("c", "never there").size() + dict.translate_ctxt_plural("c", "never there", "x", 7).size();
  count("lookups", lookups * 14 + 4);
  if (sink == 1) count("unlikely");
  reset_steps(default_step_budget);
  nontrivial(hash_str(std::to_string(st) + "/" + std::to_string(m.size()) + "/" + std::to_string(log.err.size()) + "/" + std::to_string(log.warn.size()) + (thrown ? "T" : "")));
  return Cost{double(st), double(work), double(stack)};
}

// a large input of one shape; what a step does for each unit must not grow with what came before
static std::string large_input(Rng& rng, size_t want, std::string& cs, bool& mixed) {
  std::string s, unit = rng.pick(tokens()), nl = rng.chance(80) ? "\n" : "\r\n";
  std::string charset = rng.chance(60) ? "UTF-8" : rng.pick(hostile_charsets());
  if (rng.chance(60)) cs = "UTF-8";
  std::string header = rng.chance(70) ? "msgid \"\"" + nl + "msgstr \"Content-Type: text/plain; charset=" + charset + "\\n\"" + nl + nl : "";
  std::string text;                                   // what strings consist of
  switch (rng.below(5)) {
    case 0: text = "x"; break;
    case 1: for (auto& c : random_utf8(rng, 20)) text += c; break;
    case 2: text = "\xa5\x5c\xa4\x40"; break;
    case 3: text = std::string("\xff\0q", 3); break;
    default: { static const char* const esc[] = {"\\n", "\\\\", "\\\"", "\\x", "\\q ", "\\000", "\\", "\\u"}; text = esc[rng.below(8)]; }
  }
  text.erase(std::remove_if(text.begin(), text.end(), [](char c) { return c == '\n' || c == '\r'; }), text.end());
  auto fill = [&](const std::string& u, size_t n) { std::string r; while (r.size() < n) r += u.empty() ? std::string("x") : u; return r; };
  auto num = [&] { return std::to_string(s.size()); };
  int shape = static_cast<int>(rng.below(23));
  switch (shape) {
    case 0: s = header; while (s.size() < want) s += "msgid \"m" + num() + "\"" + nl + "msgstr \"" + text + num() + "\"" + nl + nl; break;
    case 1: s = header + "msgid \"a\"" + nl + "msgstr \"\"" + nl; while (s.size() < want) s += "\"line of text that goes on\\n\"" + nl; break;
    case 2: s = header + "msgid \"a\"" + nl + "msgstr \"" + fill(text, want) + "\"" + nl; break;
    case 3: while (s.size() < want) s += hostile_catalog(rng) + "\n\n"; break;
    case 4: s = header + fill(unit, want); break;
    case 5: s = "msgid \"\"" + nl + "msgstr \"\"" + nl; while (s.size() < want) s += "\"X-Field: value\\n\"" + nl; break;
    case 6: s = "msgid \"\"" + nl + "msgstr \"\"" + nl; while (s.size() < want / 2) s += rng.chance(50) ? "\"Plural-Forms: ?\\n\"" + nl : "\"Content-Type:\\n\"" + nl; s += fill(rng.chance(50) ? "#" : unit, want / 2); break;
    case 7: s = header + "msgid " + fill(rng.chance(50) ? " " : "\t", want) + "\"a\"" + nl + "msgstr \"b\"" + fill(" ", rng.below(1000)) + nl; break;
    case 8: s = header + "#, " + fill(rng.chance(50) ? "fuzz" : "c-format, ", want) + nl + "msgid \"a\"" + nl + "msgstr \"b\"" + nl; break;
    case 9: s = header; while (s.size() < want) s += (rng.chance(50) ? "#" : "# comment") + nl; s += "msgid \"a\"" + nl + "msgstr \"b\"" + nl; break;
    case 10: s = header; while (s.size() < want) s += "msgid \"same\"" + nl + "msgstr \"" + text + num() + "\"" + nl + nl; break;
    case 11: s = header; while (s.size() < want) s += "msgid \"same\"" + nl + "msgid_plural \"p\"" + nl + "msgstr[" + std::to_string(rng.below(10)) + "] \"" + text + num() + "\"" + nl + nl; break;
    case 12: s = header; while (s.size() < want) s += "msgctxt \"c" + num() + "\"" + nl + "msgid \"a\"" + nl + "msgstr \"" + text + "\"" + nl + nl; break;
    case 13: s = header; while (s.size() < want) s += "msgctxt \"c\"" + nl + "msgid \"" + num() + "\"" + nl + "msgstr \"" + text + "\"" + nl + nl; break;
    case 14: s = header; while (s.size() < want) s += "garbage" + nl + (rng.chance(50) ? nl : ""); break;
    case 15: s = header + "msgid \"a\"" + nl + "msgstr \"\"" + nl; while (s.size() < want) s += "\"" + text + "\"" + nl; break;
    case 16: s = header + "msgid \"" + fill(text, want / 2) + "\"" + nl + "msgstr \"" + fill(text, want / 2) + (rng.chance(50) ? "\"" : "") + nl; break;
    case 17: s = header; while (s.size() < want) s += "msgid \"" + num() + "\"" + nl + "msgid_plural \"\"" + nl + "msgstr[9] \"x\"" + nl + nl; break;
    case 18: s = header + fill(rng.chance(50) ? "\n" : rng.chance(50) ? " \n" : std::string(1, static_cast<char>(rng.below(256))), want); break;
    case 19: s = "msgid \"\"" + nl + "msgstr \"Content-Type: text/plain; charset=" + fill(rng.chance(50) ? "A" : text, want) + "\\n\"" + nl + nl + "msgid \"a\"" + nl + "msgstr \"b\"" + nl; break;
    case 20: s = "msgid \"\"" + nl + "msgstr \"Plural-Forms: nplurals=2; plural=" + fill(rng.chance(30) ? "(" : rng.chance(30) ? "n?" : rng.chance(50) ? " " : "n != 1 ", want) + ";\\n\"" + nl + nl; break;
    case 21: s = header; while (s.size() < want) s += "msgid \"\"" + nl + "msgstr \"\"" + nl + "\"Content-Type: text/plain; charset=" + (rng.chance(50) ? "UTF-8" : charset) + "\\n\"" + nl + "\"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"" + nl + nl; break;
    default: s = header + "msgid \"a\"" + nl + "msgid_plural \"b\"" + nl; while (s.size() < want) s += "msgstr[" + std::to_string(rng.below(10)) + "] \"" + text + "\"" + nl; break;
  }
  mixed = shape == 3;
  return s;
}

void run_case(uint64_t index, Rng& rng) {
  static std::vector<std::string> list;
  if (opt.extra.count("list") && list.empty()) { std::ifstream l(opt.extra["list"]); std::string x; while (std::getline(l, x)) list.push_back(x); }
  if (!opt.input.empty() || !list.empty()) {
    std::string path = !opt.input.empty() ? opt.input : list[index % list.size()];
    std::ifstream f(path, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    // the format of the fuzz target: first byte selects the dictionary charset
    unsigned c = s.empty() ? 0 : static_cast<unsigned char>(s[0]);
    std::string cs = hostile_dict_charsets()[c % hostile_dict_charsets().size()];
    describe("input file " + path + " dictionary charset " + cs + " bytes " + quote(s, 50000));
    judge(s.empty() ? s : s.substr(1), cs, 1 << 16);
    return;
  }
  std::string cs = rng.pick(hostile_dict_charsets());
  std::string s;
  if (index % 250 == 125) {      // large inputs: work must stay proportionate
    // The same shape in two sizes: the work for a byte must not depend on the size.
    size_t n = opt.thorough ? 60000 : 20000, factor = opt.thorough ? 20 : 8;
    bool mixed = false;
    Rng twin = rng;
    std::string cs2 = cs, small = large_input(twin, n, cs2, mixed);
    s = large_input(rng, n * factor, cs, mixed);
    describe("dictionary charset " + cs + " sizes " + std::to_string(small.size()) + " and " + std::to_string(s.size()) + "\nbytes " + quote(small, 50000));
    judge(small.substr(0, 2000), cs, 1 << 16);           // whatever is set up once
    Cost a = judge(small, cs, 1 << 16), b = judge(s, cs, 1 << 16);
    count("large_inputs");
    double na = double(small.size()), nb = double(s.size());
    if (!mixed) {
      count("growth_compared");
      VF_CHECK(b.edges <= 3 * a.edges * nb / na + 100000, "work-grows-faster-than-input", na << " bytes took " << a.edges << " edges, " << nb << " bytes of the same shape " << b.edges);
      VF_CHECK(b.bytes <= 3 * a.bytes * nb / na + 1000000, "work-grows-faster-than-input", na << " bytes made the runtime handle " << a.bytes << " bytes, " << nb << " bytes of the same shape " << b.bytes);
      VF_CHECK(b.stack <= 3 * a.stack + 10000, "stack-grows-with-input", na << " bytes took " << a.stack << " bytes of stack, " << nb << " bytes of the same shape " << b.stack);
      if (getenv("VF_PROFILE")) fprintf(stderr, "STACK %.0f %.0f\n", a.stack, b.stack);
      if (getenv("VF_PROFILE")) fprintf(stderr, "GROWTH %.2f %.2f %s\n", b.edges * na / nb / a.edges, b.bytes * na / nb / a.bytes, quote(small.substr(0, 100)).c_str());
    }
    return;
  }
  size_t chunk = rng.chance(20) ? 1 : 1 << 16;
  std::string name = "hostile.po";
  if (index % 1500 == 776) {     // complaints about lines with large numbers
    s.assign(static_cast<size_t>(rng.chance(60) ? rng.range(99990, 130000) : rng.range(900000, opt.thorough ? 10100000 : 1010000)), '\n');
    for (int n = rng.range(2, 30); n > 0; --n) s += hostile_catalog(rng) + "\n\n";
    chunk = 1 << 16;
    count("large_line_numbers");
  } else if (index % 3000 == 1777) {   // single lines of several times the size of the stack
    size_t n = static_cast<size_t>(rng.range(9000000, opt.thorough ? 80000000 : 20000000));
    std::string fill(n, 'x');
    for (int k = rng.range(0, 6); k > 0; --k) { static const char* const odd[] = {"\\n", "\\q", "\\\"", "\xff\xff", "\xc3\xa4", "  ", "%n", "#,"}; fill.replace(rng.below(static_cast<uint32_t>(n - 10)), 2, odd[rng.below(8)]); }
    switch (rng.below(6)) {
      case 0: s = "msgid \"" + fill + "\"\nmsgstr \"b\"\n\n"; break;
      case 1: s = "#, " + fill + "\nmsgid \"a\"\nmsgstr \"b\"\n\n"; break;
      case 2: s = "msgid \"a\"\nmsgstr \"" + fill + "\n\n"; break;
      case 3: s = "msgid \"a\"\nmsgstr \"b\" " + fill + "\n\n"; break;
      default: s = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=" + rng.pick(std::vector<std::string>{"UTF-8", "ISO-8859-1", "EUC-JP"}) + "\\n\"\n\nmsgid \"a\"\nmsgstr \"b\"\n\"" + fill + "\"\n\n"; break;
    }
    s += hostile_catalog(rng);
    chunk = 1 << 16;
    count("very_long_lines");
  } else s = hostile_catalog(rng);
  if (rng.chance(25)) {
    static const std::vector<std::string> odd = {"", "%s%n%d", "a\nb", "x\"y\"", "\xff\xfe.po", ":", "a:1: error: ", ".po", std::string("nul\0in.po", 9), "/", "\xc3\xa4.po"};
    name = rng.chance(40) ? rng.pick(odd) : std::string(static_cast<size_t>(rng.chance(50) ? rng.range(1, 300) : rng.range(200, 9000)), static_cast<char>(rng.range(' ', '~'))) + ".po";
    count("other_catalog_names");
  }
  describe("dictionary charset " + cs + " chunk " + std::to_string(chunk) + " name " + quote(name) + "\nbytes " + quote(s, 50000));
  if (index % 1000 == 0) sample("charset " + cs + " " + quote(s, 400));
  judge(s, cs, chunk, name);
}
} // namespace vf
