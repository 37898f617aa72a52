// Apart from script.cc: the headers of the two languages do not mix.
#include <string>

#include "dreal/dr/driver.h"

bool run_dr(const std::string& text, const dreal::Config& config) {
  dreal::DrDriver driver{dreal::Context{config}};
  return driver.parse_string(text, "dr");
}
