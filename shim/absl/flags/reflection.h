#pragma once
#include "absl/flags/flag.h"
namespace absl {
inline CommandLineFlag* FindCommandLineFlag(std::string_view n) {
  auto it = shim::Registry().find(n);
  return it == shim::Registry().end() ? nullptr : it->second;
}
}  // namespace absl
