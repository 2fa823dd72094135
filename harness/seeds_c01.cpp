// writes a seed corpus for the libFuzzer target
#include "hostile.hpp"
#include <fstream>
int main(int, char** argv) {
  using namespace vf;
  Rng rng(strtoull(argv[2], nullptr, 10) * 7919 + 13);
  int n = atoi(argv[3]);
  for (int i = 0; i < n; ++i) {
    std::ofstream f(std::string(argv[1]) + "/seed" + std::to_string(i), std::ios::binary);
    f << static_cast<char>(rng.below(16)) << hostile_catalog(rng);
  }
}
