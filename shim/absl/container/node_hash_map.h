#pragma once
#include "absl/container/shim_hash_table.h"
namespace absl {
template<typename K, typename V, typename H = shim::DefaultHash<K>, typename E = shim::DefaultEq<K>, typename A = void>
class node_hash_map : public shim::HashMap<K, V, H, E, true> {
 public:
  using shim::HashMap<K, V, H, E, true>::HashMap;
  node_hash_map() = default;
};
}  // namespace absl
