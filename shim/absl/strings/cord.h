#pragma once
#include <optional>
#include <ostream>
#include <string>
#include <utility>
#include "absl/base/macros_shim.h"
namespace absl {
class Cord {
 public:
  Cord() = default;
  Cord(std::string_view s) : s_(s) {}  // NOLINT (absl: explicit for views, implicit assignments are common)
  Cord(const char* s) : s_(s) {}       // NOLINT
  Cord(const std::string& s) : s_(s) {}  // NOLINT
  std::size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  void Append(std::string_view s) { s_ += s; }
  void Append(const Cord& s) { s_ += s.s_; }
  void Prepend(std::string_view s) { s_.insert(0, s); }
  void Clear() { s_.clear(); }
  std::string_view Flatten() { return s_; }
  std::optional<std::string_view> TryFlat() const { return std::string_view(s_); }
  bool StartsWith(std::string_view p) const { return std::string_view(s_).starts_with(p); }
  bool EndsWith(std::string_view p) const { return std::string_view(s_).ends_with(p); }
  Cord Subcord(std::size_t p, std::size_t n) const { return Cord(p > s_.size() ? std::string() : s_.substr(p, n)); }
  explicit operator std::string() const { return s_; }
  int Compare(std::string_view o) const { return s_.compare(o); }
  int Compare(const Cord& o) const { return s_.compare(o.s_); }
  void swap(Cord& o) { s_.swap(o.s_); }
  friend bool operator==(const Cord& a, const Cord& b) { return a.s_ == b.s_; }
  friend bool operator<(const Cord& a, const Cord& b) { return a.s_ < b.s_; }
  friend bool operator==(const Cord& a, std::string_view b) { return a.s_ == b; }
  friend std::ostream& operator<<(std::ostream& os, const Cord& c) { return os << c.s_; }
  template<typename S> friend void AbslStringify(S& sink, const Cord& c) { sink.Append(c.s_); }
  template<typename H> friend H AbslHashValue(H h, const Cord& c) { return H::combine(std::move(h), std::string_view(c.s_)); }

 private:
  std::string s_;
};
inline void CopyCordToString(const Cord& c, std::string* o) { *o = std::string(c); }
}  // namespace absl
