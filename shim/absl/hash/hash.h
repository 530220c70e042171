#pragma once
#include <bitset>
#include <cmath>
#include <complex>
#include <array>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include "absl/base/macros_shim.h"
namespace absl {
namespace hash_internal {
struct AnyHashState {};
// Every combined value is framed, so that hash equality mirrors equality of the
// sequence of combined values.
class HashState {
 public:
  std::uint64_t state = 0x243f6a8885a308d3ULL;
  HashState() = default;
  HashState(HashState&&) = default;
  HashState& operator=(HashState&&) = default;
  HashState(const HashState&) = default;
  void Mix(std::uint64_t v) {
    state = (state ^ v) * 0x9E3779B97F4A7C15ULL;
    state ^= state >> 29;
    state *= 0xBF58476D1CE4E5B9ULL;
    state ^= state >> 32;
  }
  void Bytes(const void* p, std::size_t n) {
    auto* b = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i) Mix(b[i] + 0x100U);
  }
  static HashState combine(HashState h) { return h; }
  template<typename T, typename... R> static HashState combine(HashState h, const T& v, const R&... r);
  template<typename T> static HashState combine_contiguous(HashState h, const T* p, std::size_t n) {
    if constexpr (std::is_integral_v<T> && sizeof(T) == 1) { h.Bytes(p, n); return h; }
    else { for (std::size_t i = 0; i < n; ++i) h = combine(std::move(h), p[i]); return h; }
  }
  template<typename It> static HashState combine_unordered(HashState h, It b, It e) {
    std::uint64_t sum = 0, n = 0;
    for (; b != e; ++b, ++n) { HashState s = combine(HashState(), *b); sum += s.state; }
    return combine(std::move(h), sum, n);
  }
};
template<typename T> concept HasAbslHash = requires(HashState h, const T& v) { { AbslHashValue(std::move(h), v) } -> std::same_as<HashState>; };
template<typename T> struct IsStd : std::false_type {};
#define SHIM_STD(X) template<typename... A> struct IsStd<std::X<A...>> : std::true_type {};
SHIM_STD(vector) SHIM_STD(deque) SHIM_STD(list) SHIM_STD(set) SHIM_STD(multiset) SHIM_STD(map) SHIM_STD(multimap)
#undef SHIM_STD
template<typename T> struct IsUnordered : std::false_type {};
template<typename... A> struct IsUnordered<std::unordered_map<A...>> : std::true_type {};
template<typename... A> struct IsUnordered<std::unordered_set<A...>> : std::true_type {};
template<typename T> struct IsTuple : std::false_type {};
template<typename... A> struct IsTuple<std::tuple<A...>> : std::true_type {};
template<typename A, typename B> struct IsTuple<std::pair<A, B>> : std::true_type {};
template<typename T> struct IsArray : std::false_type {};
template<typename A, std::size_t N> struct IsArray<std::array<A, N>> : std::true_type {};
template<typename T> struct IsOptional : std::false_type {};
template<typename A> struct IsOptional<std::optional<A>> : std::true_type {};
template<typename T> struct IsVariant : std::false_type {};
template<typename... A> struct IsVariant<std::variant<A...>> : std::true_type {};
template<typename T> struct IsSmart : std::false_type {};
template<typename... A> struct IsSmart<std::unique_ptr<A...>> : std::true_type {};
template<typename A> struct IsSmart<std::shared_ptr<A>> : std::true_type {};
template<typename T> HashState HashOne(HashState h, const T& v) {
  if constexpr (HasAbslHash<T>) {
    return AbslHashValue(std::move(h), v);
  } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
    h.Mix(static_cast<std::uint64_t>(v));
    return h;
  } else if constexpr (std::is_floating_point_v<T>) {
    if (v == 0) { h.Mix(0); return h; }
    if constexpr (std::is_same_v<T, long double>) { h.Mix(std::hash<long double>{}(v)); } else { std::uint64_t b = 0; std::memcpy(&b, &v, sizeof v); h.Mix(b); }
    return h;
  } else if constexpr (std::is_same_v<T, std::nullptr_t>) {
    h.Mix(0);
    return h;
  } else if constexpr (std::is_pointer_v<T>) {
    h.Mix(reinterpret_cast<std::uintptr_t>(v));
    return h;
  } else if constexpr (std::is_array_v<T>) {
    if constexpr (std::is_same_v<std::remove_cv_t<std::remove_extent_t<T>>, char>) return HashOne(std::move(h), std::string_view(v));  // a literal
    else return HashState::combine_contiguous(std::move(h), v, std::extent_v<T>);
  } else if constexpr (std::is_convertible_v<const T&, std::string_view>) {
    std::string_view s = v;
    h.Bytes(s.data(), s.size());
    h.Mix(s.size());
    return h;
  } else if constexpr (IsUnordered<T>::value) {
    return HashState::combine_unordered(std::move(h), v.begin(), v.end());
  } else if constexpr (IsStd<T>::value) {
    for (const auto& e : v) h = HashState::combine(std::move(h), e);
    h.Mix(v.size());
    return h;
  } else if constexpr (IsArray<T>::value) {
    for (const auto& e : v) h = HashState::combine(std::move(h), e);
    return h;
  } else if constexpr (IsTuple<T>::value) {
    return std::apply([&](const auto&... e) { return HashState::combine(std::move(h), e...); }, v);
  } else if constexpr (IsOptional<T>::value) {
    if (v) h = HashState::combine(std::move(h), *v);
    h.Mix(v.has_value());
    return h;
  } else if constexpr (IsVariant<T>::value) {
    if (v.valueless_by_exception()) return h;
    h = std::visit([&](const auto& e) { return HashState::combine(std::move(h), e); }, v);
    h.Mix(v.index());
    return h;
  } else if constexpr (IsSmart<T>::value) {
    return HashOne(std::move(h), v.get());
  } else {
    static_assert(sizeof(T) == 0, "absl shim: type is not hashable");
  }
}
template<typename T> inline constexpr bool kHashable =
    HasAbslHash<T> || std::is_scalar_v<T> || std::is_array_v<T> || std::is_convertible_v<const T&, std::string_view> || IsUnordered<T>::value || IsStd<T>::value || IsArray<T>::value || IsTuple<T>::value || IsOptional<T>::value || IsVariant<T>::value || IsSmart<T>::value;
template<typename T, typename... R> HashState HashState::combine(HashState h, const T& v, const R&... r) {
  return combine(HashOne(std::move(h), v), r...);
}
}  // namespace hash_internal
using HashState = hash_internal::HashState;
template<typename T, bool = hash_internal::kHashable<T>>
struct Hash {
  std::size_t operator()(const T& v) const { return hash_internal::HashOne(hash_internal::HashState(), v).state; }
};
template<typename T> struct Hash<T, false> {
  Hash() = delete;
  Hash(const Hash&) = delete;
};
template<typename... T> std::size_t HashOf(const T&... v) {
  return hash_internal::HashState::combine(hash_internal::HashState(), v...).state;
}
}  // namespace absl
