// Runtime of the harnesses. Compiled without coverage instrumentation.
#include "common.hpp"

#include <algorithm>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <ctime>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

#include <sanitizer/common_interface_defs.h>

namespace vf {

Options opt;
uint64_t default_step_budget = 60000000ull;

// ------------------------------------------------------------ edges / steps
static uint32_t g_edges_total = 0;
static unsigned char g_hit[1 << 16];
static uint64_t g_steps = 0, g_limit = ~0ull, g_steps_sum = 0, g_steps_max = 0;
static char* g_deepest = nullptr;
static void on_step_limit();

} // namespace vf

#ifndef VF_NO_TRACE
#define NOCOV __attribute__((no_sanitize("coverage")))
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; ++x) *x = ++vf::g_edges_total;
}
extern "C" NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
#ifndef VF_THREADS
  vf::g_hit[*guard & 0xffff] = 1;
  char* here = static_cast<char*>(__builtin_frame_address(0));
  if (here < vf::g_deepest) vf::g_deepest = here;
  if (++vf::g_steps > vf::g_limit) vf::on_step_limit();
#else
  (void)guard;
#endif
}
extern "C" void __sanitizer_cov_trace_pc() {   // used with g++ -fsanitize-coverage=trace-pc
#ifndef VF_THREADS
  vf::g_hit[(reinterpret_cast<uintptr_t>(__builtin_return_address(0)) >> 1) & 0xffff] = 1;
  char* here = static_cast<char*>(__builtin_frame_address(0));
  if (here < vf::g_deepest) vf::g_deepest = here;
  if (++vf::g_steps > vf::g_limit) vf::on_step_limit();
#endif
}
#endif

namespace vf {

void reset_steps(uint64_t budget) { g_steps = 0; g_limit = budget; g_deepest = static_cast<char*>(__builtin_frame_address(0)); }
uint64_t steps() { return g_steps; }
size_t stack_used() { char* here = static_cast<char*>(__builtin_frame_address(0)); return g_deepest && g_deepest < here ? static_cast<size_t>(here - g_deepest) : 0; }

// ------------------------------------------------------------ text helpers
uint64_t hash_str(const std::string& s, uint64_t h) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  h ^= s.size(); h *= 1099511628211ull;
  return h ^ (h >> 29);
}

std::string quote(const std::string& s, size_t max) {
  static const char* hex = "0123456789abcdef";
  std::string r = "\"";
  for (unsigned char c : s) {
    if (r.size() > max) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
    if (c == '\n') r += "\\n";
    else if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { r += "\\x"; r += hex[c >> 4]; r += hex[c & 15]; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}

static std::string jesc(const std::string& s) {
  std::string r = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}

// ------------------------------------------------------------ case state
static uint64_t g_case = 0;
static bool g_in_case = false;
static std::string* g_desc = new std::string;
static bool g_failed = false;
static std::vector<std::pair<std::string, std::string>>* g_fails = new std::vector<std::pair<std::string, std::string>>;  // key, replay path
static std::set<std::string>* g_keys = new std::set<std::string>;
static std::map<std::string, uint64_t>* g_counters = new std::map<std::string, uint64_t>;
static std::unordered_set<uint64_t>* g_distinct = new std::unordered_set<uint64_t>;
static std::vector<std::string>* g_samples = new std::vector<std::string>;
static uint64_t g_evaluations = 0;

void describe(const std::string& t) { *g_desc = t; }
void describe_more(const std::string& t) { *g_desc += t; }
const std::string& description() { return *g_desc; }
bool case_failed() { return g_failed; }

static std::string write_replay(const std::string& key, const std::string& msg) {
  std::string slug;
  for (char c : key) slug += (isalnum(static_cast<unsigned char>(c)) || c == '-') ? c : '_';
  slug = slug.substr(0, 80);
  std::string path = opt.replay_dir + "/" + property_id + "-s" + std::to_string(opt.seed) + "-c" + std::to_string(g_case) + "-" + slug + ".json";
  std::string body = "{\"property\": " + jesc(property_id) + ", \"seed\": " + std::to_string(opt.seed) +
    ", \"case\": " + std::to_string(g_case) + ", \"tier\": " + jesc(opt.thorough ? "thorough" : "quick") +
    ", \"extra\": {";
  bool first = true;
  for (auto& e : opt.extra) { body += (first ? "" : ", ") + jesc(e.first) + ": " + jesc(e.second); first = false; }
  body += "}, \"key\": " + jesc(key) + ", \"message\": " + jesc(msg) + ",\n \"description\": " + jesc(g_desc->substr(0, 60000)) + "}\n";
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    size_t off = 0;
    while (off < body.size()) { ssize_t n = write(fd, body.data() + off, body.size() - off); if (n <= 0) break; off += static_cast<size_t>(n); }
    close(fd);
  }
  return path;
}

static void write_stats(bool complete);

void fail(const std::string& key, const std::string& msg) {
  g_failed = true;
  if (opt.replay) printf("FAIL key=%s\n  %s\n", key.c_str(), msg.c_str());
  if (!g_keys->insert(key).second) return;   // one witness per kind
  g_fails->emplace_back(key, write_replay(key, msg));
  if (g_keys->size() >= 8) { write_stats(true); _exit(1); }
}

void harness_error(const std::string& m) {
  fprintf(stderr, "HARNESS-ERROR: %s\n", m.c_str());
  if (!g_fails->empty()) { write_stats(true); _exit(1); }      // what was seen before still counts
  _exit(3);
}

void fail_and_stop(const std::string& key, const std::string& message) {
  g_limit = ~0ull;
  fail(key, message);
  write_stats(true);
  _exit(1);
}

static void on_step_limit() {
  g_limit = ~0ull;
  fail_and_stop("nontermination", "more than the budgeted number of library edges executed: " + std::to_string(g_steps));
}

void count(const std::string& c, uint64_t n) { (*g_counters)[c] += n; }
void nontrivial(uint64_t h) { g_distinct->insert(h); }
void sample(const std::string& t) { if (g_samples->size() < 3) g_samples->push_back(t.substr(0, 900)); }

static void write_stats(bool complete) {
  if (opt.out.empty()) return;
  g_steps_max = std::max(g_steps_max, g_steps);
  FILE* f = fopen(opt.out.c_str(), "w");
  if (!f) return;
  uint32_t edges = 0;
  for (unsigned char h : g_hit) edges += h;
  fprintf(f, "{\"complete\": %s, \"evaluations\": %llu, \"edges_hit\": %u, \"edges_total\": %u, \"library_steps\": %llu, \"max_steps_in_a_case\": %llu,\n \"counters\": {",
          complete ? "true" : "false", static_cast<unsigned long long>(g_evaluations), edges, g_edges_total,
          static_cast<unsigned long long>(g_steps_sum + g_steps), static_cast<unsigned long long>(g_steps_max));
  bool first = true;
  for (auto& c : *g_counters) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jesc(c.first).c_str(), static_cast<unsigned long long>(c.second)); first = false; }
  fprintf(f, "},\n \"violations\": [");
  first = true;
  for (auto& v : *g_fails) { fprintf(f, "%s{\"key\": %s, \"replay\": %s}", first ? "" : ", ", jesc(v.first).c_str(), jesc(v.second).c_str()); first = false; }
  fprintf(f, "],\n \"samples\": [");
  first = true;
  for (auto& s : *g_samples) { fprintf(f, "%s%s", first ? "" : ", ", jesc(s).c_str()); first = false; }
  fprintf(f, "],\n \"edges\": \"");
  for (uint32_t i = 0; i <= g_edges_total && i < sizeof g_hit; ++i) fputc(g_hit[i] ? '1' : '0', f);
  fprintf(f, "\"}\n");
  fclose(f);
  f = fopen((opt.out + ".hashes").c_str(), "wb");
  if (f) { for (uint64_t h : *g_distinct) fwrite(&h, 8, 1, f); fclose(f); }
}

// ------------------------------------------------------------ blocked
// A case that neither executes library code nor uses the processor for a
// minute waits for something that never comes.
bool waiting_for_others = false;
#ifndef VF_THREADS
static void on_tick(int) {
  static uint64_t last_steps = 0, last_case = 0;
  static double last_cpu = 0;
  static int still = 0;
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  double cpu = double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
  bool moved = !g_in_case || waiting_for_others || g_steps != last_steps || g_case != last_case || cpu - last_cpu > 0.05;
  still = moved ? 0 : still + 1;
  if (moved) { last_steps = g_steps; last_case = g_case; last_cpu = cpu; }
  if (still >= 6) fail_and_stop("blocked", "the case waits for something that never comes");
}
void watch_for_blocking() {
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_handler = on_tick;
  a.sa_flags = SA_RESTART;
  sigaction(SIGALRM, &a, nullptr);
  itimerval v;
  v.it_interval.tv_sec = v.it_value.tv_sec = 10;
  v.it_interval.tv_usec = v.it_value.tv_usec = 0;
  setitimer(ITIMER_REAL, &v, nullptr);
}
#else
void watch_for_blocking() {}
#endif

// ------------------------------------------------------------ death
int report_fd = 2;
static bool g_dying = false;
static void on_death() {
  if (g_dying) return;
  g_dying = true;
  g_limit = ~0ull;
  if (report_fd != 2) dup2(report_fd, 2);
  if (!g_in_case) { dprintf(report_fd, "VF-DEATH outside of a case\n"); return; }
  std::string path = write_replay("crash", "process died in this case (sanitizer report, abort or uncaught exception)");
  dprintf(report_fd, "VF-DEATH case=%llu replay=%s\n", static_cast<unsigned long long>(g_case), path.c_str());
}
static void on_terminate() {
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (std::exception& x) { dprintf(report_fd, "VF-TERMINATE uncaught %s\n", x.what()); }
    catch (...) { dprintf(report_fd, "VF-TERMINATE uncaught non-standard exception\n"); }
  } else dprintf(report_fd, "VF-TERMINATE\n");
  abort();
}

// ------------------------------------------------------------ logs
thread_local std::vector<std::string>* LogCap::info = nullptr;
thread_local std::vector<std::string>* LogCap::warn = nullptr;
thread_local std::vector<std::string>* LogCap::err = nullptr;
void LogCap::on_info(const std::string& s) { if (info) info->push_back(s); }
void LogCap::on_warn(const std::string& s) { if (warn) warn->push_back(s); }
void LogCap::on_err(const std::string& s) { if (err) err->push_back(s); }
void LogCap::install() {
  tinygettext::Log::set_log_info_callback(&on_info);
  tinygettext::Log::set_log_warning_callback(&on_warn);
  tinygettext::Log::set_log_error_callback(&on_err);
}
LogScope::LogScope() : oi(LogCap::info), ow(LogCap::warn), oe(LogCap::err) { LogCap::info = &info; LogCap::warn = &warn; LogCap::err = &err; }
LogScope::~LogScope() { LogCap::info = oi; LogCap::warn = ow; LogCap::err = oe; }
bool LogScope::err_mentions(const std::string& s) const { for (auto& e : err) if (e.find(s) != std::string::npos) return true; return false; }
std::string LogScope::err_text() const { std::string r; for (auto& e : err) r += e; return r.substr(0, 2000); }

// ------------------------------------------------------------ file system
std::atomic<long> live_streams{0};
const char* fault_name(Fault f) {
  switch (f) {
    case Fault::none: return "none";
    case Fault::list_throw: return "list_throw";
    case Fault::open_null: return "open_null";
    case Fault::open_throw: return "open_throw";
    case Fault::open_failed_stream: return "open_failed_stream";
    case Fault::read_throw: return "read_throw";
    case Fault::read_bad_eof: return "read_bad_eof";
  }
  return "?";
}

std::unique_ptr<std::istream> make_stream(const std::string& data, size_t chunk) {
  return std::unique_ptr<std::istream>(new OwningStream(std::unique_ptr<std::streambuf>(new ChunkBuf(data, chunk))));
}

// file systems fail in their own ways; which one depends on the path only
namespace { struct OddError : std::exception { const char* what() const noexcept override { return "injected: odd error"; } }; }
[[noreturn]] void throw_some_error(const std::string& path, const std::string& what) {
  std::string m = "injected: " + what + " " + path;
  switch (hash_str(path + what) % 8) {
    case 0: throw std::out_of_range(m);
    case 1: throw std::bad_alloc();
    case 2: throw std::ios_base::failure(m);
    case 3: throw OddError();
    case 4: throw std::invalid_argument(m);
    case 5: throw std::system_error(5, std::generic_category(), m);
    default: throw std::runtime_error(m);
  }
}

std::vector<std::string> MemFS::open_directory(const std::string& pathname) {
  ++m->list_calls;
  long nth = ++m->lists_of[pathname];
  auto f = m->faults.find(pathname);
  // parameter 0: every listing fails; k > 0: only the k-th one
  if (f != m->faults.end() && f->second.first == Fault::list_throw && (f->second.second == 0 || f->second.second == nth)) {
    m->fired.emplace_back(pathname, Fault::list_throw);
    throw_some_error(pathname, "cannot list");
  }
  std::vector<std::string> r;
  auto d = m->dirs.find(pathname);
  if (d != m->dirs.end()) for (auto& e : d->second) r.push_back(e.first);
  return r;
}

std::unique_ptr<std::istream> MemFS::open_file(const std::string& filename) {
  ++m->open_calls;
  m->opened.push_back(filename);
  const std::string* data = nullptr;
  for (auto& d : m->dirs) for (auto& e : d.second) if (d.first + "/" + e.first == filename) data = &e.second;
  auto f = m->faults.find(filename);
  if (f != m->faults.end()) {
    m->fired.emplace_back(filename, f->second.first);
    switch (f->second.first) {
      case Fault::open_null: return nullptr;
      case Fault::open_throw: throw_some_error(filename + std::to_string(m->open_calls), "cannot open");
      case Fault::open_failed_stream: {
        auto s = make_stream("");
        s->setstate(std::ios::failbit);
        return s;
      }
      case Fault::read_throw:
      case Fault::read_bad_eof:
        if (data) {
          std::unique_ptr<std::istream> s(new OwningStream(std::unique_ptr<std::streambuf>(new ChunkBuf(*data, m->chunk, f->second.second, f->second.first == Fault::read_throw))));
          if (f->second.first == Fault::read_throw && (f->second.second + m->open_calls) % 3 == 0) s->exceptions(std::ios::badbit);    // a stream that passes the error on itself
          return s;
        }
        break;
      default: break;
    }
    m->fired.pop_back();
  }
  if (!data) return nullptr;
  return make_stream(*data, m->chunk);
}

} // namespace vf

#ifndef VF_NO_MAIN
int main(int argc, char** argv) {
  using namespace vf;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--from") opt.from = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--to") opt.to = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--tier") opt.thorough = v == "thorough";
    else if (k == "--out") opt.out = v;
    else if (k == "--replay-dir") opt.replay_dir = v;
    else if (k == "--input") opt.input = v;
    else if (k == "--scratch") opt.scratch = v;
    else if (k == "--case") { opt.from = strtoull(v.c_str(), nullptr, 10); opt.to = opt.from + 1; opt.replay = true; }
    else if (k.compare(0, 4, "--x-") == 0) opt.extra[k.substr(4)] = v;
    else harness_error("bad option " + k);
  }
  if (opt.replay_dir.empty()) opt.replay_dir = "/tmp";
#ifndef VF_THREADS
  __sanitizer_set_death_callback(&on_death);
#else
  // the callback would run inside the thread sanitizer's report: note the case in a file instead
  int case_fd = opt.out.empty() ? -1 : open((opt.out + ".case").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
#endif
  std::set_terminate(&on_terminate);
  LogCap::install();
  harness_init();
  watch_for_blocking();
  for (uint64_t i = opt.from; i < opt.to; ++i) {
    g_case = i;
    g_failed = false;
    g_desc->clear();
    Rng rng(hash_str(std::to_string(opt.seed) + ":" + std::to_string(i) + ":" + property_id));
    reset_steps(default_step_budget);
    g_in_case = true;
#ifdef VF_THREADS
    if (case_fd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%llu\n", static_cast<unsigned long long>(i)); if (pwrite(case_fd, b, static_cast<size_t>(n), 0) != n) harness_error("case file"); }
#endif
    try {
      run_case(i, rng);
    } catch (std::exception& e) {
      fail(std::string("escaped-exception"), std::string("standard exception escaped from the case: ") + e.what());
    } catch (...) {
      fail("escaped-exception-nonstd", "non-standard exception escaped from the case");
    }
    g_in_case = false;
    g_steps_sum += g_steps;
    g_steps_max = std::max(g_steps_max, g_steps);
    g_steps = 0;
    ++g_evaluations;
    if (opt.replay && !g_failed) printf("case %llu: no violation\n%s\n", static_cast<unsigned long long>(i), g_desc->c_str());
  }
  reset_steps(~0ull);
  harness_done();
  write_stats(true);
  fflush(stdout);
  _exit(g_fails->empty() ? 0 : 1);
}
#endif
