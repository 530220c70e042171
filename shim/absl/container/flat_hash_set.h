#pragma once
#include "absl/container/shim_hash_table.h"
namespace absl {
template<typename K, typename H = shim::DefaultHash<K>, typename E = shim::DefaultEq<K>, typename A = void>
class flat_hash_set : public shim::HashSet<K, H, E, false> {
 public:
  using shim::HashSet<K, H, E, false>::HashSet;
  flat_hash_set() = default;
};
}  // namespace absl
