#pragma once
#include "absl/container/shim_hash_table.h"
namespace absl {
template<typename K, typename V, typename H = shim::DefaultHash<K>, typename E = shim::DefaultEq<K>, typename A = void>
class flat_hash_map : public shim::HashMap<K, V, H, E, false> {
 public:
  using shim::HashMap<K, V, H, E, false>::HashMap;
  flat_hash_map() = default;
};
}  // namespace absl
