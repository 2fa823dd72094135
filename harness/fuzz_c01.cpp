// libFuzzer target for C01 (memory safety and assertions; termination is judged
// by the step-counted harness on the artifacts and on the corpus).
#include "hostile.hpp"
#include <tinygettext/log.hpp>
#include <tinygettext/po_parser.hpp>
#include <climits>
static void quiet(const std::string&) {}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  using namespace tinygettext;
  static bool init = (Log::set_log_error_callback(quiet), Log::set_log_warning_callback(quiet), Log::set_log_info_callback(quiet), true);
  (void)init;
  if (!size) return 0;
  Dictionary d(vf::hostile_dict_charsets()[data[0] % vf::hostile_dict_charsets().size()]);
  std::istringstream in(std::string(reinterpret_cast<const char*>(data) + 1, size - 1));
  try { POParser::parse("fuzz.po", in, d); } catch (std::exception&) {}
  size_t n = 0;
  auto look = [&](const vf::MsgKey& k) {
    static const int counts[] = {0, 1, 2, 5, 11, INT_MAX, -1, INT_MIN};
    for (int c : counts) n += vf::lookup_plural(d, k, "x", c).size();
    n += vf::lookup(d, k).size();
  };
  std::vector<vf::MsgKey> keys;
  d.foreach([&](const std::string& id, const std::vector<std::string>&) { keys.push_back({false, "", id}); });
  d.foreach_ctxt([&](const std::string& c, const std::string& id, const std::vector<std::string>&) { keys.push_back({true, c, id}); });
  for (size_t i = 0; i < keys.size() && i < 20; ++i) look(keys[i]);
  look({false, "", "nowhere"});
  return n == 12345678 ? 1 : 0;
}
