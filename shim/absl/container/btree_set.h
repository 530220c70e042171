#pragma once
#include "absl/container/shim_btree.h"
namespace absl {
template<typename K, typename C = shim::DefaultLess<K>, typename A = std::allocator<K>>
class btree_set : public std::set<K, C, A> {
  using B = std::set<K, C, A>;

 public:
  using B::B;
  btree_set() = default;
  template<typename H> friend H AbslHashValue(H h, const btree_set& m) { for (const auto& e : m) h = H::combine(std::move(h), e); return H::combine(std::move(h), m.size()); }
};
}  // namespace absl
