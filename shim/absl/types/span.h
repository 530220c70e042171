#pragma once
#include <algorithm>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <vector>
#include "absl/base/macros_shim.h"
namespace absl {
template<typename T>
class Span {
 public:
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using pointer = T*;
  using const_pointer = const T*;
  using reference = T&;
  using const_reference = const T&;
  using iterator = T*;
  using const_iterator = const T*;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  static constexpr size_type npos = ~size_type(0);
  constexpr Span() noexcept = default;
  constexpr Span(T* p, size_type n) noexcept : p_(p), n_(n) {}
  template<std::size_t N> constexpr Span(T (&a)[N]) noexcept : p_(a), n_(N) {}
  template<typename C, typename = std::enable_if_t<!std::is_const_v<T> && std::is_convertible_v<decltype(std::declval<C&>().data()), T*> && !std::is_same_v<C, Span>>>
  explicit constexpr Span(C& c) noexcept : p_(c.data()), n_(c.size()) {}
  template<typename C, typename = std::enable_if_t<std::is_const_v<T> && std::is_convertible_v<decltype(std::declval<const C&>().data()), T*> && !std::is_same_v<C, Span>>, typename = void>
  constexpr Span(const C& c) noexcept : p_(c.data()), n_(c.size()) {}
  template<typename L = T, typename = std::enable_if_t<std::is_const_v<L>>>
  constexpr Span(std::initializer_list<value_type> v) noexcept : p_(v.begin()), n_(v.size()) {}
  constexpr T* data() const noexcept { return p_; }
  constexpr size_type size() const noexcept { return n_; }
  constexpr size_type length() const noexcept { return n_; }
  constexpr bool empty() const noexcept { return n_ == 0; }
  constexpr T& operator[](size_type i) const { return p_[i]; }
  constexpr T& at(size_type i) const { return p_[i]; }
  constexpr T& front() const { return p_[0]; }
  constexpr T& back() const { return p_[n_ - 1]; }
  constexpr iterator begin() const noexcept { return p_; }
  constexpr iterator end() const noexcept { return p_ + n_; }
  constexpr const_iterator cbegin() const noexcept { return p_; }
  constexpr const_iterator cend() const noexcept { return p_ + n_; }
  constexpr reverse_iterator rbegin() const { return reverse_iterator(end()); }
  constexpr reverse_iterator rend() const { return reverse_iterator(begin()); }
  constexpr void remove_prefix(size_type n) { p_ += n; n_ -= n; }
  constexpr void remove_suffix(size_type n) { n_ -= n; }
  constexpr Span subspan(size_type pos = 0, size_type len = npos) const { return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(size_type n) const { return subspan(0, n); }
  constexpr Span last(size_type n) const { return subspan(n_ - n); }
  friend bool operator==(Span a, Span b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
  friend bool operator<(Span a, Span b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
  template<typename H> friend H AbslHashValue(H h, Span v) { return H::combine(H::combine_contiguous(std::move(h), v.data(), v.size()), v.size()); }

 private:
  T* p_ = nullptr;
  size_type n_ = 0;
};
template<typename T> constexpr Span<T> MakeSpan(T* p, std::size_t n) { return Span<T>(p, n); }
template<typename T> Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template<typename C> constexpr auto MakeSpan(C& c) { return Span<std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size()); }
template<typename T, std::size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template<typename T> constexpr Span<const T> MakeConstSpan(T* p, std::size_t n) { return Span<const T>(p, n); }
template<typename C> constexpr auto MakeConstSpan(const C& c) { return Span<const std::remove_pointer_t<decltype(c.data())>>(c.data(), c.size()); }
template<typename T, std::size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
}  // namespace absl
