// C18: the same program of operations under every configuration of callbacks.
#include "mgr.hpp"
#include "hostile.hpp"
#include <tinygettext/iconv.hpp>
#include <tinygettext/po_parser.hpp>
#include <fcntl.h>
#include <iostream>
#include <sanitizer/common_interface_defs.h>
#include <unistd.h>

namespace vf {
const char* const property_id = "C18";
using tinygettext::Log;
using tinygettext::Dictionary;

struct Sink { Strs info, warn, err; void clear() { info.clear(); warn.clear(); err.clear(); } };
static Sink A, B;
static void a_info(const std::string& s) { A.info.push_back(s); }
static void a_warn(const std::string& s) { A.warn.push_back(s); }
static void a_err(const std::string& s) { A.err.push_back(s); }
static void b_info(const std::string& s) { B.info.push_back(s); }
static void b_warn(const std::string& s) { B.warn.push_back(s); }
static void b_err(const std::string& s) { B.err.push_back(s); }
enum Mode { captured, removed, defaulted, other };
static void configure(const Mode m[3]) {
  Log::set_log_info_callback(m[0] == captured ? &a_info : m[0] == removed ? nullptr : m[0] == other ? &b_info : &Log::default_log_callback);
  Log::set_log_warning_callback(m[1] == captured ? &a_warn : m[1] == removed ? nullptr : m[1] == other ? &b_warn : &Log::default_log_callback);
  Log::set_log_error_callback(m[2] == captured ? &a_err : m[2] == removed ? nullptr : m[2] == other ? &b_err : &Log::default_log_callback);
}

// ---- file descriptors 1 and 2
static int g_fd1 = -1, g_fd2 = -1, g_f1 = -1, g_f2 = -1;
static void fds_on() {
  fflush(stdout); fflush(stderr); std::cout.flush(); std::clog.flush();
  if (ftruncate(g_f1, 0) || ftruncate(g_f2, 0)) harness_error("ftruncate");
  lseek(g_f1, 0, SEEK_SET); lseek(g_f2, 0, SEEK_SET);
  dup2(g_f1, 1); dup2(g_f2, 2);
}
static std::string slurp(int fd) {
  std::string r; char buf[65536]; lseek(fd, 0, SEEK_SET);
  for (;;) { ssize_t n = read(fd, buf, sizeof buf); if (n <= 0) break; r.append(buf, static_cast<size_t>(n)); }
  return r;
}
static void fds_off(std::string& out, std::string& err) {
  fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush(); std::clog.flush();
  dup2(g_fd1, 1); dup2(g_fd2, 2);
  out = slurp(g_f1); err = slurp(g_f2);
}
static void startup_default();
void harness_init() {
  default_step_budget = 4000000000ull;
  g_fd1 = fcntl(1, F_DUPFD_CLOEXEC, 100); g_fd2 = fcntl(2, F_DUPFD_CLOEXEC, 100);
  report_fd = g_fd2;
  __sanitizer_set_report_fd(reinterpret_cast<void*>(static_cast<long>(g_fd2)));
  std::string d = opt.scratch.empty() ? opt.replay_dir : opt.scratch;
  g_f1 = open((d + "/stdout").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
  g_f2 = open((d + "/stderr").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
  if (g_fd1 < 0 || g_fd2 < 0 || g_f1 < 0 || g_f2 < 0) harness_error("cannot set up descriptors");
}
void harness_done() {}

// ---- programs: a list of steps, each with an expectation about its messages
enum Expect { any, clean, one_warning, warnings_only, infos_only, errors_only, errors_maybe_warnings, no_info };
struct Outcome { std::string digest; Sink total; std::vector<std::string> findings; };

struct Runner {
  Rng rng;
  bool judge;             // all severities captured in A: judge each step
  bool pedantic;
  const Mode* second;     // configuration switched to half way, or null
  Outcome out;
  std::string log;
  Runner(uint64_t seed, bool j, bool p, const Mode* s) : rng(seed), judge(j), pedantic(p), second(s) {}
  void digest(const std::string& s) { out.digest += s + "\n"; }
  template <class F> void step(const std::string& name, Expect e, F f) {
    log += name + "\n";
    size_t i0 = A.info.size(), w0 = A.warn.size(), r0 = A.err.size();
    f();
    size_t i = A.info.size() - i0, w = A.warn.size() - w0, r = A.err.size() - r0;
    if (!judge) return;
    std::string n = " (" + std::to_string(i) + " info, " + std::to_string(w) + " warning, " + std::to_string(r) + " error messages)";
    std::string last = (r ? A.err.back() : w ? A.warn.back() : i ? A.info.back() : std::string());
    auto bad = [&](const char* key) { out.findings.push_back(std::string(key) + "\t" + name + n + " last: " + quote(last, 400)); };
    switch (e) {
      case any: break;
      case clean: if (i + w + r) bad("message-without-cause"); break;
      case one_warning: if (i + r) bad("conflict-in-other-log"); if (w != 1) bad("conflict-not-reported-once"); break;
      case warnings_only: if (!w) bad("suspicion-not-reported"); if (i + r) bad("suspicion-in-other-log"); break;
      case infos_only: if (!i) bad("miss-not-reported"); if (w + r) bad("miss-in-other-log"); break;
      case errors_only: if (!r) bad("error-not-reported"); if (i + w) bad("error-in-other-log"); break;
      case errors_maybe_warnings: if (!r) bad("error-not-reported"); if (i) bad("error-in-other-log"); break;
      case no_info: if (i) bad("load-in-info-log"); break;
    }
  }
};

static void load(Dictionary& d, const std::string& s, const std::string& name = "cat.po") {
  auto in = make_stream(s);
  tinygettext::POParser::parse(name, *in, d);
}
static std::string ms(const Dictionary& cd) { return show(dump(const_cast<Dictionary&>(cd))); }

static void program(Runner& R) {
  Rng& rng = R.rng;
  const std::string head = "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\nPlural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n";
  Dictionary d, base;
  RefDict ref;
  bool with_base = rng.chance(30);
  if (with_base) { base.add_translation("based", "from base"); d.addFallback(&base); }
  d.set_plural_forms(tinygettext::PluralForms::from_string("Plural-Forms:nplurals=2;plural=(n!=1);"));
  int n = rng.range(3, 14);
  for (int s = 0; s < n; ++s) {
    if (R.second && s == n / 2) configure(R.second);
    if (rng.rarely(7)) {        // a big dictionary, conflicts in numbers
      int many = rng.sized(20, 150, 800, 400), other = rng.range(0, many);
      std::string big = "big" + std::to_string(s) + "_";
      auto put = [&](int i, const char* text) {
        if (i % 3) d.add_translation(big + std::to_string(i), text); else d.add_translation(i % 2 ? "bc" : "bd", big + std::to_string(i), "b", Strs{text, "C"});
      };
      R.step("add " + std::to_string(many) + " messages", clean, [&] { for (int i = 0; i < many; ++i) put(i, "B"); });
      size_t w0 = A.warn.size();
      R.step("add " + std::to_string(other) + " of them with other texts", other ? warnings_only : clean, [&] { for (int i = 0; i < other; ++i) put(i, "X"); });
      if (R.judge && A.warn.size() - w0 != static_cast<size_t>(other)) R.out.findings.push_back("conflict-not-reported-once\t" + std::to_string(other) + " conflicts gave " + std::to_string(A.warn.size() - w0) + " warnings");
      R.step("look all up", clean, [&] { for (int i = 0; i < many; ++i) if (i % 3 && d.translate(big + std::to_string(i)) != (i < other ? "X" : "B")) R.digest("wrong"); });
      R.step("look up unknown ones", infos_only, [&] { R.digest(d.translate("no")); R.digest(d.translate_plural("no", "nos", 2)); R.digest(d.translate_ctxt("bc", "no")); R.digest(d.translate_ctxt_plural("bd", "no", "nos", 3)); });
      for (int i = 0; i < many; ++i) ref.msgs[MsgKey{i % 3 == 0, i % 3 ? "" : i % 2 ? "bc" : "bd", big + std::to_string(i)}] = i % 3 ? Strs{i < other ? "X" : "B"} : Strs{i < other ? "X" : "B", "C"};
      count("big_dictionaries");
    }
    if (rng.rarely(6)) {        // messages of every kind in numbers
      int many = rng.sized(100, 1500, 70000, 150), kind = static_cast<int>(rng.below(5));
      auto number = [&](size_t got, size_t want, const char* what) {
        if (R.judge && got < want) R.out.findings.push_back(std::string("messages-lost\t") + std::to_string(want) + " " + what + " gave " + std::to_string(got) + " messages");
        count("messages_in_numbers", want);
      };
      size_t i0 = A.info.size(), w0 = A.warn.size(), r0 = A.err.size();
      if (kind == 0) {
        bool same = rng.chance(50);
        for (int f = 0; f < many; ++f) {
          size_t before = A.info.size();
          std::string id = "absent" + (same ? std::string() : std::to_string(f));
          switch (f % 4) { case 0: d.translate(id); break; case 1: d.translate_ctxt("c0", id); break; case 2: d.translate_plural(id, id + "s", f); break; default: d.translate_ctxt_plural("c0", id, id + "s", f); }
          if (R.judge && A.info.size() == before) { R.out.findings.push_back("miss-not-reported\tlookup " + std::to_string(f) + " of unknown messages"); break; }
        }
        if (R.judge && (A.warn.size() != w0 || A.err.size() != r0)) R.out.findings.push_back("miss-in-other-log\tmany unknown messages");
        count("messages_in_numbers", static_cast<uint64_t>(many));
      } else if (kind == 1) {
        Dictionary x;
        for (int f = 0; f < many; ++f) x.add_translation("same", "text" + std::to_string(f));
        if (many > 2000) many = 2000 + many % 100;
        for (int f = 0; f < many; ++f) x.add_translation("k" + std::to_string(f), "t"), x.add_translation("k" + std::to_string(f), "u");
        if (R.judge && (A.info.size() != i0 || A.err.size() != r0)) R.out.findings.push_back("conflict-in-other-log\tmany conflicts");
        if (A.warn.size() - w0 < static_cast<size_t>(many)) number(A.warn.size() - w0, static_cast<size_t>(many), "conflicts");
      } else if (kind == 2) {
        Dictionary x;
        x.set_plural_forms(tinygettext::PluralForms::from_string("Plural-Forms:nplurals=2;plural=(n!=1);"));
        x.add_translation("one form", "one forms", Strs{"only"});
        for (int f = 0; f < many; ++f) R.digest(x.translate_plural("one form", "one forms", f + 2));
        if (R.judge && (A.info.size() != i0 || A.warn.size() != w0)) R.out.findings.push_back("error-in-other-log\tmany plural forms that are not stored");
        number(A.err.size() - r0, static_cast<size_t>(many), "plural forms that are not stored");
      } else {
        many = std::min(many, 9000);
        std::string body = head;
        for (int f = 0; f < many; ++f) { body += "msgid \"q" + std::to_string(f) + "\"\nmsgstr \"A"; body += kind == 3 ? "\\q\"\n\n" : "\n\n"; }
        Dictionary x;
        load(x, body + "msgid \"last\"\nmsgstr \"end\"\n");
        if (R.judge && A.info.size() != i0) R.out.findings.push_back("load-in-info-log\ta catalog with many odd entries");
        if (kind == 3) { if (R.judge && A.err.size() != r0) R.out.findings.push_back("suspicion-in-other-log\tmany unknown escapes"); number(A.warn.size() - w0, static_cast<size_t>(many), "unknown escapes"); }
        else number(A.err.size() - r0, static_cast<size_t>(many), "malformed entries");
        R.digest(x.translate("last"));
      }
    }
    int k = static_cast<int>(rng.below(23));
    MsgKey key{rng.chance(40), "", "m" + std::to_string(rng.below(4))};
    if (key.has_ctxt) key.ctxt = "c" + std::to_string(rng.below(2));
    bool plural = kind_plural(key);
    if (k < 5) {
      static const std::vector<std::string> values = {"v0", "v1", "v2", "", "a longer value", "v\n", "v0s"};
      std::string v = rng.pick(values);
      Strs f = plural ? Strs{v, v + "s"} : Strs{v};
      if (plural && rng.chance(20)) f.resize(1);
      auto it = ref.msgs.find(key);
      if (it != ref.msgs.end() && rng.chance(25)) { f = it->second; count("same_text_again"); }
      Expect e = it == ref.msgs.end() || it->second == f ? clean : one_warning;
      ref.msgs[key] = f;
      R.step("add " + show(key) + " " + show(f), e, [&] {
        if (plural) { if (key.has_ctxt) d.add_translation(key.ctxt, key.id, key.id + "s", f); else d.add_translation(key.id, key.id + "s", f); }
        else { if (key.has_ctxt) d.add_translation(key.ctxt, key.id, f[0]); else d.add_translation(key.id, f[0]); }
      });
      if (e == one_warning) count("conflicts");
      R.digest(ms(d));
    } else if (k < 9) {
      bool known = ref.msgs.count(key);
      if (plural) {
        int c = rng.range(0, 3);
        bool stored = known && (c == 1 || ref.msgs[key].size() > 1);
        R.step("plural lookup " + show(key) + " " + std::to_string(c), !known ? infos_only : stored ? clean : errors_only, [&] { R.digest(lookup_plural(d, key, key.id + "s", c)); });
        count(!known ? "missed_lookups" : stored ? "clean_lookups" : "unstored_forms");
      } else {
        R.step("lookup " + show(key), known ? clean : infos_only, [&] { R.digest(lookup(d, key)); });
        count(known ? "clean_lookups" : "missed_lookups");
      }
      if (with_base) R.step("lookup in fallback", any, [&] { R.digest(d.translate("based")); });
    } else if (k < 11) {
      Dictionary x;
      std::string body = head + "# comment\n#, c-format\nmsgid \"a\"\nmsgstr \"A\"\n\nmsgctxt \"c\"\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"B\"\nmsgstr[1] \"\"\n\"B\"\n\"s\"\n" + (rng.chance(50) ? "\nmsgid \"empty\"\nmsgstr \"\"\n" : "");
      static const std::vector<std::string> fields = {"Project-Id-Version: game 1.0", "Report-Msgid-Bugs-To: bugs@example.org", "POT-Creation-Date: 2009-01-30 08:38+0100", "PO-Revision-Date: 2010-02-03 11:12+0100", "Last-Translator: A B <c@example.org>", "Language-Team: German <de@li.org>",
        "Language: de", "MIME-Version: 1.0", "Content-Transfer-Encoding: 8bit", "X-Generator: Poedit 1.4", "X-Content-Type: x", "Plural: 1", "Content: none", "Aaa: b", "plural-forms: x", "content-type: y"};
      std::string more;
      for (int f = rng.chance(60) ? rng.range(1, 9) : 0; f > 0; --f) more += rng.pick(fields) + "\\n";
      std::string h2 = head;
      h2.insert(rng.chance(50) ? h2.find("Content-Type") : h2.find("Plural-Forms"), more);
      body.replace(0, head.size(), h2);
      if (rng.chance(30)) { size_t at = body.size(); while ((at = body.rfind('\n', at)) != std::string::npos) { if (at && body[at - 1] == '"' && rng.chance(60)) body.insert(at, rng.chance(50) ? " " : rng.chance(50) ? "\t" : "  \t"); if (!at) break; --at; } }
      if (rng.chance(25)) { std::string b2; for (char c : body) { if (c == '\n') b2 += '\r'; b2 += c; } body = b2; }
      if (rng.chance(15)) body = "\xef\xbb\xbf" + body;
      if (rng.chance(20)) { size_t at = body.find("\n\n"); if (at != std::string::npos) body.insert(at, "\n\n# a comment\n#. another\n#: file.c:12\n#~ msgid \"old\"\n#~ msgstr \"alt\"\n#| msgid \"x\"\n"); }
      R.step("load clean catalog " + quote(body, 1500), clean, [&] { load(x, body); });
      R.step("look it up", clean, [&] { R.digest(x.translate("a") + x.translate_ctxt_plural("c", "b", "bs", 1) + x.translate_ctxt_plural("c", "b", "bs", 5)); });
      R.step("enumerate", clean, [&] { R.digest(ms(x)); });
      count("clean_catalogs");
    } else if (k < 13) {
      static const std::vector<std::pair<const char*, const char*>> odd = {
        {"unknown escape", "msgid \"a\"\nmsgstr \"A\\q\"\n"}, {"garbage after string", "msgid \"a\"\nmsgstr \"A\" garbage\n"}, {"garbage right after string", "msgid \"a\"\nmsgstr \"A\"garbage\n"}, {"a second string", "msgid \"a\"\nmsgstr \"A\" \"B\"\n"}, {"garbage after continuation", "msgid \"a\"\nmsgstr \"\"\n\"A\"\n\"B\"x\n"}, {"garbage after plural form", "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"A\"\nmsgstr[1] \"B\" 1\n"}, {"escape in continuation", "msgid \"a\"\nmsgstr \"\"\n\"A\"\n\"\\qB\"\n"}, {"garbage after id", "msgid \"a\" x\nmsgstr \"A\"\n"},
        {"form count", "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"A\"\nmsgstr[1] \"B\"\nmsgstr[2] \"C\"\n"}, {"form count low", "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"A\"\n"}};
      auto& o = odd[rng.below(static_cast<uint32_t>(odd.size()))];
      Dictionary x;
      R.step(std::string("load catalog with ") + o.first, warnings_only, [&] { load(x, head + o.second); });
      R.digest(ms(x));
      count("suspicious_catalogs");
    } else if (k < 14) {
      static const std::vector<std::pair<const char*, const char*>> odd = {
        {"malformed Content-Type", "msgid \"\"\nmsgstr \"Content-Type: text/html\\n\"\n\nmsgid \"a\"\nmsgstr \"A\"\n"},
        {"unknown rule", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\nPlural-Forms: nplurals=7; plural=n*3;\\n\"\n\nmsgid \"a\"\nmsgstr \"A\"\n"},
        {"placeholder charset", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=CHARSET\\n\"\n\nmsgid \"a\"\nmsgstr \"A\"\n"},
        {"no rule", "msgid \"\"\nmsgstr \"Content-Type: text/plain; charset=UTF-8\\n\"\n\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"A\"\nmsgstr[1] \"B\"\n"}};
      auto& o = odd[rng.below(static_cast<uint32_t>(odd.size()))];
      Dictionary x;
      R.step(std::string("load catalog with ") + o.first, warnings_only, [&] { load(x, o.second); });
      R.digest(ms(x) + plural_sig(x));
      count("suspicious_headers");
    } else if (k < 15) {
      // unusual but legal layout: warnings only if pedantic
      Dictionary x;
      std::string body = head + (rng.chance(50) ? "msgid\t\"a\"\nmsgstr\"A\"\n" : "msgid \"a\"\nmsgstr \"\"\n \"A\"\n");
      R.step("load unusual layout", R.pedantic ? warnings_only : clean, [&] { load(x, body); });
      R.digest(ms(x));
      count(R.pedantic ? "pedantic_warnings" : "pedantic_off");
    } else if (k < 17) {
      static const std::vector<std::string> bad = {
        "msgid \"a\nmsgstr \"A\"\n", "msgstr \"A\"\n", "msgid \"a\"\n\n", "msgid \"a\"\nmsgid_plural \"as\"\n\n", "garbage\n", "msgid \"a\"\nmsgstr \"A\n", "msgid \"a\"\nmsgstr\n", "msgid \"a\"\nmsgstr \"A\"\nmore\n", "msgctxt \"c\"\nmsgstr \"A\"\n",
        "msgid \"a\"\nmsgstr \"A\\", "msgid \"a\"\nmsgid_plural \"b\"\nmsgstr \"x\"\n"};
      std::string b = rng.pick(bad);
      Dictionary x;
      size_t before = A.err.size();
      R.step("load malformed entry " + quote(b), errors_maybe_warnings, [&] { load(x, head + b + "\n\nmsgid \"ok\"\nmsgstr \"OK\"\n"); });
      if (R.judge && A.err.size() - before != 1) R.out.findings.push_back("error-not-reported-once\t" + quote(b) + " reported " + std::to_string(A.err.size() - before) + " times");
      R.digest(ms(x));
      count("malformed_entries");
    } else if (k < 18) {
      tinygettext::IConv c("UTF-8", "ISO-8859-1");
      R.step("convert", clean, [&] { R.digest(c.convert("abc \xc3\xa4")); });
      R.step("convert invalid", errors_maybe_warnings, [&] { R.digest(c.convert("abc \xff def")); });
      count("conversions");
    } else if (k >= 20) {
      // anything at all: only what it gives is of interest
      Dictionary x;
      std::string b = k == 20 ? hostile_catalog(rng) : odd_layout_catalog(rng);
      R.step("load " + quote(b, 3000), any, [&] { try { load(x, b); } catch (std::exception&) { R.digest("exception"); } });
      R.digest(ms(x) + plural_sig(x));
      count("arbitrary_catalogs");
    } else {
      auto data = std::make_shared<MemData>();
      int conflicts = 0;
      int dirs = rng.range(1, 3);
      std::map<std::string, std::string> have;
      for (int i = dirs - 1; i >= 0; --i) {
        std::string b = head;
        std::set<std::string> used;
        for (int j = rng.range(0, 4); j > 0; --j) {
          std::string id = "m" + std::to_string(rng.below(5)), v = "v" + std::to_string(rng.below(2));
          if (!used.insert(id).second) continue;
          if (have.count(id) && have[id] != v) ++conflicts;
          have[id] = v;
          b += "msgid \"" + id + "\"\nmsgstr \"" + v + "\"\n\n";
        }
        data->dirs["d" + std::to_string(i)].emplace_back("de.po", b);
      }
      bool unknown = rng.chance(30), broken = rng.chance(30);
      if (unknown) data->dirs["d0"].emplace_back("xx_YY.po", "");
      if (broken) { data->dirs["d9"].emplace_back("de.po", "msgid \"z\"\nmsgstr \"Z\"\n"); data->faults["d9/de.po"] = {rng.chance(50) ? Fault::open_null : Fault::open_throw, 0}; }
      tinygettext::DictionaryManager m(std::unique_ptr<tinygettext::FileSystem>(new MemFS(data)));
      tinygettext::Language de = tinygettext::Language::from_name("de");
      R.step("configure manager", clean, [&] { for (int i = 0; i < dirs; ++i) m.add_directory("d" + std::to_string(i)); m.set_language(de); m.set_use_fuzzy(true); });
      R.step("list languages", clean, [&] { for (auto& l : m.get_languages()) if (l) R.digest(l.str()); });
      size_t w0 = A.warn.size();
      R.step("load dictionary", unknown ? warnings_only : conflicts ? no_info : clean, [&] { R.digest(ms(m.get_dictionary())); });
      if (R.judge && !unknown && A.warn.size() - w0 != static_cast<size_t>(conflicts)) R.out.findings.push_back("conflict-not-reported-once\t" + std::to_string(conflicts) + " conflicting messages between directories gave " + std::to_string(A.warn.size() - w0) + " warnings");
      R.step("load dictionary again", clean, [&] { R.digest(ms(m.get_dictionary()) + std::to_string(m.get_dictionary(de).get_plural_forms().get_nplural())); });
      if (broken) {
        m.add_directory("d9");
        R.step("load with unopenable catalog", unknown ? no_info : conflicts ? errors_maybe_warnings : errors_only, [&] { R.digest(ms(m.get_dictionary(de))); });
        if (R.judge && A.err.empty()) R.out.findings.push_back("error-not-reported\tunopenable catalog");
        count("unopenable_catalogs");
      }
      count("managers");
      if (conflicts) count("conflicts", static_cast<uint64_t>(conflicts));
    }
  }
}

static std::string joined(const Strs& v) { std::string r; for (auto& s : v) r += s + "\x01"; return r; }

void run_case(uint64_t index, Rng& rng) {
  uint64_t seed = rng.next();
  // baselines: everything captured, pedantic on and off
  Outcome base[2];
  std::string text;
  bool saved = tinygettext::POParser::pedantic;
  for (int p = 0; p < 2; ++p) {
    const Mode all[3] = {captured, captured, captured};
    A.clear(); B.clear();
    tinygettext::POParser::pedantic = p == 1;
    configure(all);
    Runner R(seed, true, p == 1, nullptr);
    std::string o, e;
    fds_on();
    program(R);
    fds_off(o, e);
    base[p] = R.out; base[p].total = A;
    text = R.log;
    describe("program:\n" + text + (p ? "pedantic" : "not pedantic") + ", all callbacks installed");
    for (auto& f : R.out.findings) { size_t t = f.find('\t'); fail(f.substr(0, t), f.substr(t + 1)); }
    if (!o.empty()) fail("stdout-written", "with callbacks installed standard output got " + quote(o, 400));
    if (!e.empty()) fail("stderr-written", "with callbacks installed standard error got " + quote(e, 400));
  }
  if (base[0].digest != base[1].digest) fail("pedantic-changes-results", "results differ between pedantic and not");
  if (index % 500 == 0) sample(text);
  static const char* mn[] = {"captured", "removed", "default", "exchanged"};
  int configs = opt.thorough ? 12 : 5;
  for (int c = 0; c < configs; ++c) {
    // the three uniform configurations first, then mixtures
    Mode m[3];
    for (int i = 0; i < 3; ++i) m[i] = c == 0 ? removed : c == 1 ? defaulted : static_cast<Mode>(rng.below(4));
    Mode sw[3];
    bool change = c >= 3 && rng.chance(60);
    for (int i = 0; i < 3; ++i) sw[i] = static_cast<Mode>(rng.below(4));
    bool ped = rng.chance(50);
    A.clear(); B.clear();
    tinygettext::POParser::pedantic = ped;
    std::string what = std::string("info ") + mn[m[0]] + " warning " + mn[m[1]] + " error " + mn[m[2]] + (ped ? " pedantic" : "");
    if (change) what += std::string(" then info ") + mn[sw[0]] + " warning " + mn[sw[1]] + " error " + mn[sw[2]];
    describe("program:\n" + text + what);
    configure(m);
    Runner R(seed, false, ped, change ? sw : nullptr);
    std::string o, e;
    fds_on();
    program(R);
    fds_off(o, e);
    count("configurations");
    if (R.out.digest != base[ped].digest) fail("configuration-changes-results", "results differ from those with all callbacks installed: " + what);
    if (!o.empty()) fail("stdout-written", what + ": standard output got " + quote(o, 400));
    const Sink& b = base[ped].total;
    const Strs* all[3] = {&b.info, &b.warn, &b.err};
    const Strs* ga[3] = {&A.info, &A.warn, &A.err};
    const Strs* gb[3] = {&B.info, &B.warn, &B.err};
    static const char* names[] = {"info", "warning", "error"};
    bool any_default = false;
    for (int i = 0; i < 3; ++i) {
      if (m[i] == defaulted || (change && sw[i] == defaulted)) any_default = true;
      if (change) {
        // messages that no longer go to a callback went elsewhere; each at most once in total
        if (ga[i]->size() + gb[i]->size() > all[i]->size()) fail("reported-twice", what + ": more " + names[i] + " messages than with one callback");
        if (m[i] != captured && sw[i] != captured && !ga[i]->empty()) fail("replaced-callback-called", what + ": a callback that is not installed was called");
        if (m[i] != other && sw[i] != other && !gb[i]->empty()) fail("replaced-callback-called", what + ": a callback that is not installed was called");
        if ((m[i] == captured || m[i] == other) && (sw[i] == captured || sw[i] == other)) {
          Strs both = m[i] == captured ? *ga[i] : *gb[i];
          if (m[i] != sw[i]) { const Strs& rest = sw[i] == captured ? *ga[i] : *gb[i]; both.insert(both.end(), rest.begin(), rest.end()); }
          if (joined(both) != joined(*all[i])) fail("messages-change", what + ": exchanging the callback changed the " + names[i] + " messages");
          count("exchanges_compared");
        }
        continue;
      }
      if (m[i] == captured ? joined(*ga[i]) != joined(*all[i]) : !ga[i]->empty()) fail("messages-change", what + ": callback for " + names[i] + " got other messages than with all callbacks installed");
      if (m[i] == other ? joined(*gb[i]) != joined(*all[i]) : !gb[i]->empty()) fail("messages-change", what + ": exchanged callback for " + names[i] + " got other messages");
    }
    if (!any_default && !e.empty()) fail("stderr-written", what + ": standard error got " + quote(e, 400));
    if (!change) {
      // by default the messages of that severity, and only those, are on standard error
      size_t pos = 0, want = 0;
      for (int i = 0; i < 3; ++i) if (m[i] == defaulted) {
        want += all[i]->size();
        size_t p = 0;
        for (auto& x : *all[i]) {
          size_t f = e.find(x, p);
          if (f == std::string::npos) { fail("default-lost", what + ": the " + std::string(names[i]) + " message " + quote(x, 300) + " is not on standard error"); break; }
          p = f + x.size();
          pos += x.size();
        }
      }
      if (want == 0 && !e.empty()) fail("default-invented", what + ": standard error got " + quote(e, 300));
      if (want) count("default_messages", want);
      // a prefix per message is allowed, a second copy of the messages is not
      if (want && e.size() > pos + 40 * want) fail("default-repeated", what + ": " + std::to_string(e.size()) + " bytes on standard error for messages of " + std::to_string(pos) + " bytes");
    }
  }
  tinygettext::POParser::pedantic = saved;
  LogCap::install();
  nontrivial(hash_str(text));
}
} // namespace vf
