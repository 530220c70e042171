#pragma once
#include <cerrno>
#include <charconv>
#include <cstdlib>
#include <limits>
#include <string>
#include <type_traits>
#include "absl/strings/ascii.h"
#include "absl/strings/match.h"
namespace absl {
template<typename I> [[nodiscard]] bool SimpleAtoi(std::string_view s, I* out) {
  s = StripAsciiWhitespace(s);
  *out = 0;
  if (s.empty()) return false;
  if (s[0] == '+') { s.remove_prefix(1); if (s.empty() || !ascii_isdigit(s[0])) return false; }
  if constexpr (std::is_unsigned_v<I>) { if (s[0] == '-') return false; }
  I v = 0;
  auto [p, ec] = std::from_chars(s.data(), s.data() + s.size(), v);
  if (ec == std::errc::result_out_of_range) { *out = s[0] == '-' ? std::numeric_limits<I>::min() : std::numeric_limits<I>::max(); return false; }
  if (ec != std::errc()) return false;
  *out = v;
  return p == s.data() + s.size();
}
[[nodiscard]] inline bool SimpleAtod(std::string_view s, double* out) {
  std::string t(StripAsciiWhitespace(s));
  *out = 0;
  if (t.empty()) return false;
  char* e = nullptr;
  *out = std::strtod(t.c_str(), &e);
  return e == t.c_str() + t.size();
}
[[nodiscard]] inline bool SimpleAtof(std::string_view s, float* out) { double d; bool r = SimpleAtod(s, &d); *out = float(d); return r; }
[[nodiscard]] inline bool SimpleAtob(std::string_view s, bool* out) {
  for (auto t : {"true", "t", "yes", "y", "1"}) if (EqualsIgnoreCase(s, t)) { *out = true; return true; }
  for (auto t : {"false", "f", "no", "n", "0"}) if (EqualsIgnoreCase(s, t)) { *out = false; return true; }
  return false;
}
template<typename I> [[nodiscard]] bool SimpleHexAtoi(std::string_view s, I* out) {
  s = StripAsciiWhitespace(s);
  if (s.starts_with("0x") || s.starts_with("0X")) s.remove_prefix(2);
  if (s.empty()) return false;
  auto [p, ec] = std::from_chars(s.data(), s.data() + s.size(), *out, 16);
  return ec == std::errc() && p == s.data() + s.size();
}
}  // namespace absl
