#pragma once
#include <map>
#include <set>
#include <string>
#include "absl/container/shim_hash_table.h"
#include "absl/strings/str_cat.h"
namespace absl::shim {
struct StringLess {
  using is_transparent = void;
  bool operator()(std::string_view a, std::string_view b) const { return a < b; }
};
template<typename K> using DefaultLess = std::conditional_t<kStringLike<K>, StringLess, std::less<K>>;
}  // namespace absl::shim
