// the text helpers of rt.cpp for programs without the harness main loop
#define VF_NO_MAIN
#define VF_NO_TRACE
#include "rt.cpp"
namespace vf {
const char* const property_id = "tool";
void run_case(uint64_t, Rng&) {}
void harness_init() {}
void harness_done() {}
}
