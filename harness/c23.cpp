// C23: the file system back end over real directories, and managers over them.
#include "mgr.hpp"
#include <tinygettext/unix_file_system.hpp>
#include <cerrno>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vf {
const char* const property_id = "C23";
using namespace tinygettext;

static std::string g_root;
static int open_files() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) harness_error("no /proc/self/fd");
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}
static int rm_one(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void clear_root() {
  DIR* d = opendir(g_root.c_str());
  if (!d) harness_error("scratch lost");
  std::vector<std::string> names;
  while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
  closedir(d);
  for (auto& n : names) nftw((g_root + "/" + n).c_str(), rm_one, 16, FTW_DEPTH | FTW_PHYS);
}
void harness_init() {
  default_step_budget = 400000000;
  std::string base = opt.scratch;
  if (base.empty()) harness_error("no scratch directory");
  g_root = base + "/c23";
  mkdir(g_root.c_str(), 0777);
  chmod(g_root.c_str(), 0777);
  if (chdir(g_root.c_str())) harness_error("chdir");     // everything below uses relative names too
}
void harness_done() { clear_root(); rmdir(g_root.c_str()); }

static void put_file(const std::string& path, const std::string& s) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) harness_error("cannot write " + path + ": " + strerror(errno));
  size_t off = 0;
  while (off < s.size()) { ssize_t n = write(fd, s.data() + off, s.size() - off); if (n <= 0) harness_error("short write"); off += static_cast<size_t>(n); }
  close(fd);
}
static std::string random_bytes(Rng& rng) {
  static const size_t sizes[] = {0, 1, 2, 3, 100, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 65537};
  size_t n = rng.chance(60) ? sizes[rng.below(sizeof sizes / sizeof *sizes)] : rng.rarely(10) ? 3000000 : rng.below(3000);
  std::string s;
  s.reserve(n);
  int style = static_cast<int>(rng.below(3));
  while (s.size() < n) s += style == 0 ? static_cast<char>(rng.below(256)) : style == 1 ? "\r\n\x1a\0ab"[rng.below(6)] : static_cast<char>(rng.range(' ', '~'));
  return s;
}
static std::string random_name(Rng& rng) {
  static const std::vector<std::string> fixed = {
    ".hidden", "..", "...", " ", "a b", "a\nb", "x\\y", "-", "~", "de.po~", "#de.po#", ".po", "a.po", ".de.po", "de.mo", "de.PO", "README", "\xc3\xa4.po", "\xe4.po", "\xff\xfe", "*", "?", "%s", "CVS", "de.po.bak", "LC_MESSAGES"};
  switch (rng.below(4)) {
    case 0: { std::string s = rng.pick(fixed); return s == ".." ? "..x" : s; }
    case 1: return rng.pick(some_langs()) + (rng.chance(80) ? ".po" : "");
    case 2: { std::string s; for (int n = rng.range(1, 12); n > 0; --n) { char c = static_cast<char>(rng.range(1, 255)); s += c == '/' ? 'x' : c; } return s == "." || s == ".." ? "q" : s; }
    default: return std::string(static_cast<size_t>(rng.range(200, 255)), 'n');
  }
}

// what the twin file system is told about an entry of a directory
struct Real { std::string contents; bool readable = true; bool special = false; };
typedef std::map<std::string, Real> Dir;

static std::string read_all(Rng& rng, std::istream& in, bool& bad) {
  std::string r;
  switch (rng.below(4)) {
    case 0: { char b[777]; while (in.read(b, sizeof b) || in.gcount()) r.append(b, static_cast<size_t>(in.gcount())); break; }
    case 1: { char c; while (in.get(c)) r += c; break; }
    case 2: { std::ostringstream o; if (in.peek() != EOF) o << in.rdbuf(); r = o.str(); break; }
    default: { std::string l; while (std::getline(in, l)) { r += l; if (!in.eof()) r += '\n'; } break; }
  }
  bad = in.bad();
  return r;
}

void run_case(uint64_t index, Rng& rng) {
  LogScope log;
  clear_root();
  int files_before = open_files();
  std::map<std::string, Dir> dirs;
  std::vector<std::string> dnames;
  std::string desc;
  static const std::vector<std::string> dn = {"po", "a b", "\xc3\xa4", "d.po", ".x", "deep/er", "n\nl"};
  for (int i = rng.range(1, 3); i > 0; --i) {
    std::string d = rng.pick(dn);
    if (rng.chance(5)) { d = "far"; for (int k = rng.range(1, 13); k > 0; --k) d += "/" + std::string(static_cast<size_t>(rng.range(150, 250)), static_cast<char>('a' + k)); count("long_paths"); }
    if (dirs.count(d)) continue;
    dnames.push_back(d);
    for (size_t p = d.find('/'); p != std::string::npos; p = d.find('/', p + 1)) mkdir(d.substr(0, p).c_str(), 0755);
    if (mkdir(d.c_str(), 0755)) harness_error("mkdir " + d + ": " + strerror(errno));
    Dir& x = dirs[d];
    desc += "directory " + quote(d) + ":\n";
    int many = rng.rarely(3) ? rng.range(1000, 6000) : rng.chance(4) ? rng.range(100, 400) : rng.range(0, 9);
    for (int f = many; f > 0; --f) {
      std::string n = many > 50 ? "f" + std::to_string(f) + (rng.chance(50) ? ".po" : "") : random_name(rng);
      if (x.count(n)) continue;
      std::string p = d + "/" + n;
      Real e;
      int k = static_cast<int>(rng.below(100));
      std::string first;
      if (k < 6) for (auto& o : x) { struct stat st; if (lstat((d + "/" + o.first).c_str(), &st) == 0 && S_ISREG(st.st_mode) && o.second.readable) { first = o.first; break; } }
      if (!first.empty()) {
        if (link((d + "/" + first).c_str(), p.c_str())) harness_error("link");
        e = x[first];
        desc += "  other name of " + quote(first) + ": " + quote(n) + "\n";
        count("hard_links");
      } else if (k < 9 && !ends_with_po(n)) {
        if (mkfifo(p.c_str(), 0644)) harness_error("mkfifo");
        e.readable = false; e.special = true;
        desc += "  pipe " + quote(n) + "\n";
        count("pipes");
      } else if (k < 62) {
        CatOpt o; o.tag = ascii_upper("t" + std::to_string(f)); o.latin = true;
        if (!ends_with_po(n) || rng.chance(10)) e.contents = random_bytes(rng);
        else {
          e.contents = render(rng, random_entries(rng, o), "UTF-8", rng.chance(50) ? plural_rules[rng.below(n_plural_rules)] : "");
          if (rng.chance(10)) { std::string pad; while (pad.size() < 20000) pad += "# padding padding padding padding\n"; e.contents = pad + e.contents; }
        }
        put_file(p, e.contents);
        desc += "  file " + quote(n) + " " + std::to_string(e.contents.size()) + " bytes " + quote(e.contents, 300) + "\n";
        count("files");
      } else if (k < 72) {
        if (mkdir(p.c_str(), 0755)) harness_error("mkdir");
        if (rng.chance(30)) put_file(p + "/de.po", "msgid \"a\"\nmsgstr \"inner\"\n");
        e.readable = false;
        desc += "  directory " + quote(n) + "\n";
        count("directories_inside");
      } else if (k < 80) {
        if (symlink("/nonexistent/nowhere", p.c_str())) harness_error("symlink");
        e.readable = false;
        desc += "  dangling link " + quote(n) + "\n";
        count("dangling_links");
      } else if (k < 84) {
        if (symlink(n.c_str(), p.c_str())) harness_error("symlink");
        e.readable = false;
        desc += "  link to itself " + quote(n) + "\n";
        count("link_loops");
      } else if (k < 92) {
        std::string target = "target" + std::to_string(f);
        e.contents = "msgid \"id0\"\nmsgstr \"" + target + "\"\n";
        put_file(g_root + "/" + target, e.contents);
        if (symlink((g_root + "/" + target).c_str(), p.c_str())) harness_error("symlink");
        desc += "  link " + quote(n) + "\n";
        count("links");
      } else if (k < 96) {
        if (symlink("/proc/self/mem", p.c_str())) harness_error("symlink");      // reading fails
        e.readable = false;
        desc += "  file that cannot be read " + quote(n) + "\n";
        count("read_errors");
      } else {
        put_file(p, "msgid \"id0\"\nmsgstr \"secret\"\n");
        chmod(p.c_str(), 0);
        if (geteuid() == 0) e.contents = "msgid \"id0\"\nmsgstr \"secret\"\n"; else e.readable = false;
        desc += "  file without permissions " + quote(n) + "\n";
        count("files_without_permissions");
      }
      x[n] = e;
    }
  }
  describe(desc);
  UnixFileSystem fs;
  FileSystem& vfs = fs;
  std::map<std::string, std::vector<std::string>> order;
  // a directory elsewhere that is reached through a link, so that ".." after it leads elsewhere too
  if (rng.chance(40)) {
    mkdir("elsewhere", 0755); mkdir("elsewhere/in", 0755);
    if (symlink("elsewhere/in", "jump")) harness_error("symlink");
    for (auto& d : dnames) if (d.find('/') == std::string::npos && rng.chance(80)) {
      if (symlink(("../" + d).c_str(), ("elsewhere/other " + d).c_str())) harness_error("symlink");
      if (rng.chance(50)) { mkdir(("other " + d).c_str(), 0755); put_file("other " + d + "/de.po", "msgid \"id0\"\nmsgstr \"not this one\"\n"); }
    }
    count("links_to_directories");
  }
  auto spelled = [&](const std::string& d) -> std::string {
    switch (rng.below(11)) {
      case 0: return g_root + "/" + d;
      case 1: return "./" + d;
      case 2: return d + "/";
      case 3: return d + "//";
      case 4: return "././/" + d + "/.";
      case 5: return g_root + "//" + d + "/./";
      case 6: { if (d.size() > 1000) return d; std::string up = d; for (char c : d) if (c == '/') up += "/.."; return up + "/../" + d; }
      case 7: case 8: { struct stat st; if (d.find('/') == std::string::npos && lstat(("elsewhere/other " + d).c_str(), &st) == 0) { count("paths_through_links"); return (rng.chance(50) ? "jump/../other " : g_root + "/jump/../other ") + d; } return d; }
      case 9: { std::string base = g_root.substr(g_root.rfind('/') + 1); return "../" + base + "/" + d; }
      default: return d;
    }
  };
  auto check_listing = [&](const std::string& d) {
    std::vector<std::string> got = vfs.open_directory(spelled(d));
    order[d] = got;
    std::vector<std::string> a = got, b;
    for (auto& e : dirs[d]) b.push_back(e.first);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a != b) fail("listing", "directory " + quote(d) + " is listed as " + show(a) + " instead of " + show(b));
    count("directories_listed"); count("entries_listed", got.size());
  };
  auto check_file = [&](const std::string& d, const std::string& n, const Real& e) {
    if (e.special) return;
    std::string p = spelled(d) + "/" + n;
    std::unique_ptr<std::istream> in;
    try { in = vfs.open_file(p); } catch (std::exception&) { if (e.readable) fail("open-throws", "opening " + quote(p) + " throws"); return; }
    if (!in || !*in) { if (e.readable) fail("open-fails", "opening " + quote(p) + " fails"); else count("unreadable_files_reported"); return; }
    bool bad = false;
    std::string got;
    try { got = read_all(rng, *in, bad); } catch (std::exception&) { bad = true; }
    if (!e.readable) {
      if (!bad && !got.empty()) fail("invented-bytes", "reading the unreadable " + quote(p) + " gives " + quote(got, 200));
      else if (bad) count("unreadable_files_reported"); else count("unreadable_files_empty");
      return;
    }
    if (got != e.contents) {
      size_t i = 0; while (i < got.size() && i < e.contents.size() && got[i] == e.contents[i]) ++i;
      fail("bytes", "reading " + quote(p) + " gives " + std::to_string(got.size()) + " bytes instead of " + std::to_string(e.contents.size()) + ", first difference at " + std::to_string(i));
    }
    count("files_read"); count("bytes_compared", got.size());
  };
  for (auto& d : dnames) check_listing(d);
  for (auto& d : dnames) for (auto& e : dirs[d]) if (rng.chance(70)) check_file(d, e.first, e.second);
  if (case_failed()) return;
  // what does not exist
  {
    std::string file_as_dir = "plain";
    put_file(g_root + "/plain", "x");
    for (auto& p : std::vector<std::string>{"missing", dnames[0] + "/no such", file_as_dir, "plain/below", std::string(300, 'y'), std::string("")}) {
      bool thrown = false;
      std::vector<std::string> got;
      log.clear();
      try { got = vfs.open_directory(p); } catch (std::exception&) { thrown = true; }
      if (!thrown && !got.empty()) fail("listing-invented", "listing " + quote(p) + " gives " + show(got));
      if (!thrown && log.err.empty()) fail("missing-directory-not-reported", "listing " + quote(p) + " gives an empty list without an error");
      else count("missing_directories_reported");
      std::unique_ptr<std::istream> in;
      if (p == "plain") continue;
      try { in = vfs.open_file(p); } catch (std::exception&) { count("missing_files_reported"); continue; }
      if (in && *in) fail("missing-file-not-reported", "opening " + quote(p) + " gives a good stream");
      else count("missing_files_reported");
    }
  }
  // directories that cannot be listed for rarer reasons
  {
    if (symlink("loop", "loop")) harness_error("symlink");
    if (symlink("round b", "round a") || symlink("round a", "round b")) harness_error("symlink");
    std::string longer = dnames[0];
    while (longer.size() < 5000) longer += "/../" + dnames[0];
    for (auto& p : std::vector<std::string>{"loop", "round a", "loop/x", longer, "loop/", "/proc/self/fd/0/x", std::string("po\0x", 4)}) {
      bool thrown = false, as_is = p.find('\0') != std::string::npos;
      std::vector<std::string> got;
      log.clear();
      try { got = vfs.open_directory(p); } catch (std::exception&) { thrown = true; }
      if (as_is) continue;                 // (only has to be safe)
      if (!thrown && log.err.empty()) fail("failed-listing-not-reported", "listing " + quote(p.substr(0, 100)) + " gives " + show(got) + " without an error");
      count("unlistable_directories_reported");
    }
    if (rng.chance(30)) {                  // no file can be opened any more
      struct rlimit old, low;
      getrlimit(RLIMIT_NOFILE, &old);
      low = old; low.rlim_cur = 0;
      DictionaryManager m;
      m.add_directory(dnames[0]);
      bool thrown[3] = {false, false, false}, logged[3], opened = true;
      std::string errors;
      setrlimit(RLIMIT_NOFILE, &low);
      log.clear();
      try { vfs.open_directory(dnames[0]); } catch (std::exception&) { thrown[0] = true; }
      logged[0] = !log.err.empty(); log.clear();
      try { auto in = vfs.open_file("plain"); opened = in && *in; } catch (std::exception&) { opened = false; }
      log.clear();
      try { m.get_languages(); } catch (std::exception&) { thrown[1] = true; }
      logged[1] = !log.err.empty(); log.clear();
      try { m.get_dictionary(Language::from_spec("de")); } catch (std::exception&) { thrown[2] = true; }
      logged[2] = !log.err.empty(); log.clear();
      setrlimit(RLIMIT_NOFILE, &old);
      if (opened) fail("no-more-files", "a file is opened although no more files can be");
      static const char* const what[] = {"open_directory", "get_languages", "get_dictionary"};
      for (int k = 0; k < 3; ++k) if (!thrown[k] && !logged[k]) fail("no-more-files", std::string(what[k]) + " reports nothing although no directory can be opened");
      count("runs_out_of_files");
    }
  }
  // managers over the real directories and over a twin in memory
  auto twin_of = [&]() {
    auto data = std::make_shared<MemData>();
    for (auto& d : dnames) for (auto& n : order[d]) {
      const Real& e = dirs[d][n];
      data->dirs[d].emplace_back(n, e.contents);
      if (!e.readable) data->faults[d + "/" + n] = {Fault::open_failed_stream, 0};
    }
    return data;
  };
  std::map<std::string, std::set<std::string>> spellings;
  auto named = [&](const std::string& d) { std::string s = rng.chance(60) ? d : spelled(d); spellings[d].insert(s); return s; };
  auto mentioned = [&](const std::string& path) {
    size_t sl = path.rfind('/');
    std::string d = path.substr(0, sl), n = path.substr(sl + 1);
    if (log.err_mentions(path)) return true;
    for (auto& s : spellings[d]) if (log.err_mentions(s + "/" + n) || log.err_mentions(s + n)) return true;
    return false;
  };
  auto compare = [&](DictionaryManager& real, const std::string& when) {
    auto data = twin_of();
    DictionaryManager twin(std::unique_ptr<FileSystem>(new MemFS(data)), "UTF-8");
    for (auto& d : dnames) twin.add_directory(d);
    auto tags = [](const std::set<Language>& s) { std::set<std::string> r; for (auto& l : s) r.insert(l.str()); return r; };
    std::set<std::string> a = tags(real.get_languages()), b = tags(twin.get_languages());
    if (a != b) { std::string x, y; for (auto& l : a) x += l + " "; for (auto& l : b) y += l + " "; fail("languages", when + ": languages " + x + "instead of " + y); return; }
    std::vector<std::string> langs(a.begin(), a.end());
    langs.push_back(rng.pick(some_langs())); langs.push_back("de_AT");
    for (auto& l : langs) {
      Sig want, got;
      data->opened.clear();
      { LogScope quiet; want = signature(twin.get_dictionary(lang_of(l))); }
      log.clear();
      got = signature(real.get_dictionary(lang_of(l)));
      if (!(got == want)) { fail("dictionary", when + ": dictionary of " + l + ": " + want.first_difference(got)); return; }
      count("dictionaries_compared_with_twin");
      if (!got.msgs.empty()) count("nonempty_dictionaries");
      for (auto& o : data->opened)
        if (data->faults.count(o)) {
          if (!mentioned(o)) { fail("failure-not-logged", when + ": " + quote(o) + " cannot be read but the error log has only: " + quote(log.err_text())); return; }
          count("unreadable_catalogs_reported");
        }
    }
  };
  std::unique_ptr<DictionaryManager> real(rng.chance(50) ? new DictionaryManager : new DictionaryManager(std::unique_ptr<FileSystem>(new UnixFileSystem)));
  for (auto& d : dnames) real->add_directory(named(d));
  compare(*real, "first");
  // the directories change
  if (!case_failed()) {
    for (int k = rng.range(1, 4); k > 0; --k) {
      std::string d = rng.pick(dnames), n = rng.chance(50) ? rng.pick(some_langs()) + ".po" : "new" + std::to_string(k);
      auto it = dirs[d].find(n);
      struct stat st;
      if (it == dirs[d].end()) {
        Real e; e.contents = "msgid \"id1\"\nmsgstr \"new" + std::to_string(k) + "\"\n" + random_bytes(rng);
        put_file(d + "/" + n, e.contents);
        dirs[d][n] = e;
        desc += "then new file " + quote(d + "/" + n) + "\n";
      } else if (lstat((d + "/" + n).c_str(), &st) == 0 && S_ISREG(st.st_mode)) {
        if (rng.chance(50)) { unlink((d + "/" + n).c_str()); dirs[d].erase(it); desc += "then removed " + quote(d + "/" + n) + "\n"; }
        else if (it->second.readable) { if (st.st_nlink > 1) unlink((d + "/" + n).c_str()); it->second.contents = "msgid \"id2\"\nmsgstr \"rewritten\"\n"; put_file(d + "/" + n, it->second.contents); desc += "then rewritten " + quote(d + "/" + n) + "\n"; }
      }
    }
    describe(desc);
    for (auto& d : dnames) check_listing(d);
    for (auto& d : dnames) for (auto& e : dirs[d]) if (rng.chance(30)) check_file(d, e.first, e.second);
    DictionaryManager again;
    for (auto& d : dnames) again.add_directory(named(d));
    if (!case_failed()) compare(again, "after changes");
    count("changed_directories");
  }
  // a path with a missing directory: reported, and harmless once it is removed
  if (!case_failed()) {
    DictionaryManager m;
    m.add_directory("missing");
    for (auto& d : dnames) m.add_directory(named(d));
    for (int k = 0; k < 2; ++k) {
      log.clear();
      bool thrown = false;
      try { if (k) m.get_dictionary(Language::from_spec("de")); else m.get_languages(); } catch (std::exception&) { thrown = true; }
      if (!thrown && !log.err_mentions("missing")) fail("missing-not-reported", "a missing directory on the search path is not reported");
      count("missing_directories_on_path");
    }
    m.remove_directory("missing");
    if (!case_failed()) compare(m, "after a missing directory");
  }
  // as somebody without any rights
  if (!case_failed() && geteuid() == 0 && rng.chance(25)) {
    put_file(g_root + "/locked.po", "msgid \"a\"\nmsgstr \"b\"\n");
    mkdir("locked", 0700);
    chmod((g_root + "/locked.po").c_str(), 0600);
    if (seteuid(65534) == 0) {
      bool listed = true, opened = true;
      if (access(".", X_OK) == 0 || true) {
        try { vfs.open_directory("locked"); } catch (std::exception&) { listed = false; }
        try { auto in = vfs.open_file("locked.po"); opened = in && *in; } catch (std::exception&) { opened = false; }
      }
      if (seteuid(0)) harness_error("seteuid back");
      if (listed) fail("forbidden-listing", "a directory without permission is listed as if it were empty");
      if (opened) fail("forbidden-file", "a file without permission is opened");
      count("forbidden_reported");
    }
  }
  real.reset();
  int after = open_files();
  if (after != files_before) fail("file-leak", std::to_string(after - files_before) + " files are still open");
  nontrivial(hash_str(desc));
  if (index % 500 == 0) sample(desc);
}
} // namespace vf
