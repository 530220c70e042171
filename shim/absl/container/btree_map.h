#pragma once
#include "absl/container/shim_btree.h"
namespace absl {
template<typename K, typename V, typename C = shim::DefaultLess<K>, typename A = std::allocator<std::pair<const K, V>>>
class btree_map : public std::map<K, V, C, A> {
  using B = std::map<K, V, C, A>;

 public:
  using B::B;
  btree_map() = default;
  using B::at;
  using B::operator[];
  using B::try_emplace;
  using B::insert_or_assign;
  using B::erase;
  template<typename Q> requires(!std::is_convertible_v<Q, K> && std::is_constructible_v<K, Q> && requires { typename C::is_transparent; }) V& operator[](const Q& k) { return try_emplace(k).first->second; }
  template<typename Q, typename... R> requires(!std::is_convertible_v<Q, K> && std::is_constructible_v<K, Q> && requires { typename C::is_transparent; })
  std::pair<typename B::iterator, bool> try_emplace(const Q& k, R&&... a) {
    auto it = this->find(k);
    if (it != this->end()) return {it, false};
    return B::try_emplace(K(k), std::forward<R>(a)...);
  }
  template<typename Q, typename M> requires(!std::is_convertible_v<Q, K> && std::is_constructible_v<K, Q> && requires { typename C::is_transparent; })
  std::pair<typename B::iterator, bool> insert_or_assign(const Q& k, M&& m) { return B::insert_or_assign(K(k), std::forward<M>(m)); }
  template<typename Q> requires(!std::is_convertible_v<Q, K> && requires { typename C::is_transparent; }) V& at(const Q& k) { auto it = this->find(k); if (it == this->end()) std::abort(); return it->second; }
  template<typename Q> requires(!std::is_convertible_v<Q, K> && requires { typename C::is_transparent; }) const V& at(const Q& k) const { auto it = this->find(k); if (it == this->end()) std::abort(); return it->second; }
  template<typename H> friend H AbslHashValue(H h, const btree_map& m) { for (const auto& e : m) h = H::combine(std::move(h), e.first, e.second); return H::combine(std::move(h), m.size()); }
};
}  // namespace absl
