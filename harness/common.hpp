// Shared runtime of all harnesses: PRNG, case bookkeeping, violation reporting,
// logical step budget, captured log callbacks, in-memory file system.
#ifndef VF_COMMON_HPP
#define VF_COMMON_HPP

#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <istream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <utility>
#include <vector>

#include <tinygettext/file_system.hpp>
#include <tinygettext/log.hpp>

namespace vf {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>(next() % n) : 0; }
  int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint32_t>(hi - lo + 1))); }
  bool chance(int percent) { return below(100) < static_cast<uint32_t>(percent); }
  bool rarely(int permille) { return below(1000) < static_cast<uint32_t>(permille); }
  // lo..hi; with the given probability (in 1/1000) up to big, every order of magnitude alike
  int sized(int lo, int hi, int big, int permille) {
    if (!rarely(permille) || big <= hi) return range(lo, hi);
    int top = std::max(hi, 1);
    for (int steps = static_cast<int>(below(24)); steps > 0 && top < big; --steps) top = std::min(big, top + top / 2 + 1);
    return range(std::max(lo, top / 2), top);
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(static_cast<uint32_t>(v.size()))]; }
  template <class T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(static_cast<uint32_t>(i))]);
  }
};
// a string that differs from s in one place or in length, for whatever is remembered by less than the whole of it
inline std::string vary(Rng& rng, std::string s) {
  static const char some[] = "aeZz019_-. ;()x";
  uint32_t n = static_cast<uint32_t>(s.size());
  if (!n) return std::string(1, some[rng.below(sizeof some - 1)]);
  switch (rng.below(8)) {
    case 0: s.resize(rng.below(n)); break;
    case 1: case 2: for (int k = rng.range(1, 4); k > 0; --k) s += rng.chance(60) ? some[rng.below(sizeof some - 1)] : s[rng.below(n)]; break;
    case 3: { char& c = s[rng.below(n)]; if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); else if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); else c = some[rng.below(sizeof some - 1)]; break; }
    case 4: s[rng.below(n)] = some[rng.below(sizeof some - 1)]; break;
    case 5: s.insert(rng.below(n + 1), 1, some[rng.below(sizeof some - 1)]); break;
    case 6: if (n > 1) { uint32_t i = rng.below(n - 1); std::swap(s[i], s[i + 1]); } break;
    default: s.erase(rng.below(n), 1); break;
  }
  return s;
}

uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull);
std::string quote(const std::string& s, size_t max = 4000);   // printable form

// ---------------------------------------------------------------- cases
struct Options {
  uint64_t seed = 1;
  uint64_t from = 0, to = 0;
  bool thorough = false;
  bool replay = false;
  std::string out;         // stats file
  std::string replay_dir;  // where violation files go
  std::string input;       // optional input file (C01)
  std::string scratch;     // scratch directory of this worker
  std::map<std::string, std::string> extra;
};
extern Options opt;

extern const char* const property_id;        // each harness defines these
void run_case(uint64_t index, Rng& rng);     // "
void harness_init();                         // "
void harness_done();                         // "
extern int report_fd;                        // where the runtime reports a death
extern uint64_t default_step_budget;         // set in harness_init if needed

// describe the running case: written to the replay file if it fails
void describe(const std::string& text);
void describe_more(const std::string& text);
const std::string& description();
// report a violation of the running case; key identifies the kind of failure
void fail(const std::string& key, const std::string& message);
bool case_failed();
// the same for a case that must not go on
[[noreturn]] void fail_and_stop(const std::string& key, const std::string& message);
extern bool waiting_for_others;              // the case waits for a process of its own
void watch_for_blocking();                   // in a forked process of the harness
// abandon the whole run as unusable (error of the harness, not a verdict)
[[noreturn]] void harness_error(const std::string& message);

void count(const std::string& counter, uint64_t n = 1);
void nontrivial(uint64_t hash);              // marks running case distinct/non-trivial under this hash
void sample(const std::string& text);        // kept for the first few cases

// logical steps (edges of library code executed)
void reset_steps(uint64_t budget);
uint64_t steps();
size_t stack_used();                         // by library code since reset_steps

#define VF_CHECK(cond, key, msg) \
  do { if (!(cond)) { std::ostringstream vf_os_; vf_os_ << msg; ::vf::fail(key, vf_os_.str()); } } while (0)

// ---------------------------------------------------------------- log capture
struct LogCap {
  static thread_local std::vector<std::string>* info;
  static thread_local std::vector<std::string>* warn;
  static thread_local std::vector<std::string>* err;
  static void on_info(const std::string& s);
  static void on_warn(const std::string& s);
  static void on_err(const std::string& s);
  static void install();
};
// captures logs for the current scope
struct LogScope {
  std::vector<std::string> info, warn, err;
  std::vector<std::string>*oi, *ow, *oe;
  LogScope();
  ~LogScope();
  void clear() { info.clear(); warn.clear(); err.clear(); }
  bool err_mentions(const std::string& s) const;
  std::string err_text() const;
};

// ---------------------------------------------------------------- streams
// delivers bytes in chunks; may fail (throw) after a given number of bytes
[[noreturn]] void throw_some_error(const std::string& path, const std::string& what);
class ChunkBuf : public std::streambuf {
public:
  ChunkBuf(std::string data, size_t chunk, long fail_at = -1, bool fail_throws = true)
    : m_data(std::move(data)), m_pos(0), m_chunk(chunk ? chunk : 1), m_fail_at(fail_at), m_throws(fail_throws) {}
  size_t delivered() const { return m_pos; }
protected:
  int_type underflow() override {
    if (m_fail_at >= 0 && m_pos >= static_cast<size_t>(m_fail_at)) {
      if (m_throws) throw_some_error(std::to_string(m_fail_at), "read error");
      return traits_type::eof();
    }
    if (m_pos >= m_data.size()) return traits_type::eof();
    size_t n = std::min(m_chunk, m_data.size() - m_pos);
    if (m_fail_at >= 0) n = std::min(n, static_cast<size_t>(m_fail_at) - m_pos);
    char* b = &m_data[m_pos];
    setg(b, b, b + n);
    m_pos += n;
    return traits_type::to_int_type(*b);
  }
private:
  std::string m_data;
  size_t m_pos, m_chunk;
  long m_fail_at;
  bool m_throws;
};

extern std::atomic<long> live_streams;
class OwningStream : public std::istream {
public:
  explicit OwningStream(std::unique_ptr<std::streambuf> b) : std::istream(nullptr), m_buf(std::move(b)) { rdbuf(m_buf.get()); ++live_streams; }
  ~OwningStream() override { --live_streams; }
private:
  std::unique_ptr<std::streambuf> m_buf;
};

// ---------------------------------------------------------------- in-memory file system
enum class Fault { none, list_throw, open_null, open_throw, open_failed_stream, read_throw, read_bad_eof };
const char* fault_name(Fault f);

struct MemData {
  // directory -> ordered (name, contents)
  std::map<std::string, std::vector<std::pair<std::string, std::string>>> dirs;
  std::map<std::string, std::pair<Fault, long>> faults;  // path -> fault, parameter
  size_t chunk = 1 << 16;
  std::map<std::string, long> lists_of;   // directory -> times listed
  uint64_t list_calls = 0, open_calls = 0;
  std::vector<std::string> opened;
  std::vector<std::pair<std::string, Fault>> fired;
};

class MemFS : public tinygettext::FileSystem {
public:
  explicit MemFS(std::shared_ptr<MemData> d) : m(std::move(d)) {}
  std::vector<std::string> open_directory(const std::string& pathname) override;
  std::unique_ptr<std::istream> open_file(const std::string& filename) override;
private:
  std::shared_ptr<MemData> m;
};

std::unique_ptr<std::istream> make_stream(const std::string& data, size_t chunk = 1 << 16);

} // namespace vf
#endif
