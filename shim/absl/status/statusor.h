#pragma once
#include <cassert>
#include <new>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
namespace absl {
template<typename T> class [[nodiscard]] StatusOr;
namespace shim_internal {
[[noreturn]] inline void BadStatusOr(const Status& s) {
  std::fprintf(stderr, "Attempting to fetch value instead of handling error %s\n", s.ToString().c_str());
  std::fflush(stderr);
  std::abort();
}
template<typename> inline constexpr bool kIsStatusOr = false;
template<typename T> inline constexpr bool kIsStatusOr<StatusOr<T>> = true;
template<typename T, typename U> concept ConvFromStatusOr = std::is_constructible_v<T, StatusOr<U>&> || std::is_constructible_v<T, const StatusOr<U>&> || std::is_constructible_v<T, StatusOr<U>&&> || std::is_convertible_v<StatusOr<U>&, T> || std::is_convertible_v<const StatusOr<U>&, T> || std::is_convertible_v<StatusOr<U>&&, T>;
}  // namespace shim_internal
// Value and status share no storage and the value outlives a move of the
// StatusOr as `T`'s moved-from state, as in Abseil.
template<typename T>
class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr& o) : status_(o.status_) { if (o.ok()) Make(o.v_); }
  StatusOr(StatusOr&& o) noexcept : status_() { if (o.ok()) Make(std::move(o.v_)); else status_ = std::move(o.status_); }
  StatusOr& operator=(const StatusOr& o) {
    if (this == &o) return *this;
    if (o.ok()) Assign(o.v_); else { Clear(); status_ = o.status_; }
    return *this;
  }
  StatusOr& operator=(StatusOr&& o) noexcept {
    if (this == &o) return *this;
    if (o.ok()) Assign(std::move(o.v_)); else { Clear(); status_ = std::move(o.status_); }
    return *this;
  }
  template<typename U> requires(!std::is_same_v<T, U> && std::is_constructible_v<T, const U&> && !shim_internal::ConvFromStatusOr<T, U>)
  explicit(!std::is_convertible_v<const U&, T>) StatusOr(const StatusOr<U>& o) : status_(o.status()) { if (o.ok()) Make(*o); }
  template<typename U> requires(!std::is_same_v<T, U> && std::is_constructible_v<T, U&&> && !shim_internal::ConvFromStatusOr<T, U>)
  explicit(!std::is_convertible_v<U&&, T>) StatusOr(StatusOr<U>&& o) : status_() { if (o.ok()) Make(*std::move(o)); else status_ = std::move(o).status(); }
  template<typename U = T> requires(!shim_internal::kIsStatusOr<std::remove_cvref_t<U>> && std::is_constructible_v<T, U&&> && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t> && (std::is_same_v<std::remove_cvref_t<U>, T> || (!std::is_constructible_v<Status, U&&>)))
  explicit(!std::is_convertible_v<U&&, T>) StatusOr(U&& u) { Make(std::forward<U>(u)); }
  template<typename U = Status> requires(!shim_internal::kIsStatusOr<std::remove_cvref_t<U>> && !std::is_same_v<std::remove_cvref_t<U>, T> && std::is_constructible_v<Status, U&&> && !std::is_same_v<std::remove_cvref_t<U>, std::in_place_t>)
  explicit(!std::is_convertible_v<U&&, Status>) StatusOr(U&& s) : status_(std::forward<U>(s)) { EnsureNotOk(); }
  template<typename... A> explicit StatusOr(std::in_place_t, A&&... a) { Make(std::forward<A>(a)...); }
  template<typename U = T> requires(!shim_internal::kIsStatusOr<std::remove_cvref_t<U>> && std::is_constructible_v<T, U&&> && std::is_assignable_v<T&, U&&> && (std::is_same_v<std::remove_cvref_t<U>, T> || !std::is_constructible_v<Status, U&&>))
  StatusOr& operator=(U&& u) { Assign(std::forward<U>(u)); return *this; }
  template<typename U = Status> requires(!shim_internal::kIsStatusOr<std::remove_cvref_t<U>> && !std::is_same_v<std::remove_cvref_t<U>, T> && std::is_constructible_v<Status, U&&>)
  StatusOr& operator=(U&& s) { Clear(); status_ = Status(std::forward<U>(s)); EnsureNotOk(); return *this; }
  ~StatusOr() { if (ok()) v_.~T(); }
  [[nodiscard]] bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return ok() ? OkStatus() : std::move(status_); }
  const T& value() const& { Ensure(); return v_; }
  T& value() & { Ensure(); return v_; }
  const T&& value() const&& { Ensure(); return std::move(v_); }
  T&& value() && { Ensure(); return std::move(v_); }
  const T& operator*() const& { Ensure(); return v_; }
  T& operator*() & { Ensure(); return v_; }
  const T&& operator*() const&& { Ensure(); return std::move(v_); }
  T&& operator*() && { Ensure(); return std::move(v_); }
  const T* operator->() const { Ensure(); return &v_; }
  T* operator->() { Ensure(); return &v_; }
  template<typename U> T value_or(U&& d) const& { return ok() ? v_ : static_cast<T>(std::forward<U>(d)); }
  template<typename U> T value_or(U&& d) && { return ok() ? std::move(v_) : static_cast<T>(std::forward<U>(d)); }
  void IgnoreError() const {}
  template<typename... A> T& emplace(A&&... a) { Clear(); Make(std::forward<A>(a)...); status_ = Status(); return v_; }
  friend bool operator==(const StatusOr& a, const StatusOr& b) requires requires(const T& t) { t == t; } {
    return a.ok() && b.ok() ? a.v_ == b.v_ : a.status() == b.status();
  }
  friend std::ostream& operator<<(std::ostream& os, const StatusOr& s) {
    if (!s.ok()) return os << s.status();
    if constexpr (requires { os << s.v_; }) os << s.v_; else os << "<value>";
    return os;
  }

 private:
  template<typename... A> void Make(A&&... a) { new (const_cast<void*>(static_cast<const void*>(std::addressof(v_)))) T(std::forward<A>(a)...); }
  template<typename U> void Assign(U&& u) {
    if (ok()) { if constexpr (std::is_assignable_v<T&, U&&>) { v_ = std::forward<U>(u); return; } v_.~T(); }
    Make(std::forward<U>(u));
    status_ = Status();
  }
  void Clear() { if (ok()) { v_.~T(); status_ = Status(StatusCode::kUnknown, ""); } }
  void EnsureNotOk() {
    if (status_.ok()) { std::fprintf(stderr, "An OK status is not a valid constructor argument to StatusOr<T>\n"); std::abort(); }
  }
  void Ensure() const { if (!ok()) shim_internal::BadStatusOr(status_); }
  Status status_;
  union { T v_; char none_; };
};
}  // namespace absl
