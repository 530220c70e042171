#pragma once
#include <array>
#include <charconv>
#include <cstdio>
#include <string>
#include <utility>
#include "absl/strings/internal_shim.h"
namespace absl {
enum PadSpec : unsigned char { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16, kZeroPad17, kZeroPad18, kZeroPad19, kZeroPad20,
  kSpacePad2 = kZeroPad2 + 64, kSpacePad3, kSpacePad4, kSpacePad5, kSpacePad6, kSpacePad7, kSpacePad8, kSpacePad9, kSpacePad10, kSpacePad16 = kZeroPad16 + 64 };
struct Hex {
  template<typename I> explicit Hex(I v, PadSpec s = kNoPad) : value(sizeof(I) == 1 ? std::uint8_t(v) : sizeof(I) == 2 ? std::uint16_t(v) : sizeof(I) == 4 ? std::uint32_t(v) : std::uint64_t(v)), width(s >= 64 ? s - 64 : s), fill(s >= 64 ? ' ' : '0') {}
  std::uint64_t value;
  int width;
  char fill;
};
struct Dec {
  template<typename I> explicit Dec(I v, PadSpec s = kNoPad) : text(std::to_string(v)), width(s >= 64 ? s - 64 : s), fill(s >= 64 ? ' ' : '0') {}
  std::string text;
  int width;
  char fill;
};
class AlphaNum {
 public:
  AlphaNum(int v) { I(v); }                     // NOLINT
  AlphaNum(unsigned v) { I(v); }                // NOLINT
  AlphaNum(long v) { I(v); }                    // NOLINT
  AlphaNum(unsigned long v) { I(v); }           // NOLINT
  AlphaNum(long long v) { I(v); }               // NOLINT
  AlphaNum(unsigned long long v) { I(v); }      // NOLINT
  AlphaNum(float v) : AlphaNum(double(v)) {}    // NOLINT
  AlphaNum(double v) { char b[40]; own_.assign(b, std::snprintf(b, sizeof b, "%g", v)); use_ = true; }  // NOLINT
  AlphaNum(const char* s) : view_(s ? std::string_view(s) : std::string_view()) {}                      // NOLINT
  AlphaNum(std::string_view s) : view_(s) {}                                                            // NOLINT
  template<typename A> AlphaNum(const std::basic_string<char, std::char_traits<char>, A>& s) : view_(s) {}  // NOLINT
  AlphaNum(Hex h) {  // NOLINT
    char b[24];
    own_.assign(b, std::snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(h.value)));
    if (own_.size() < static_cast<std::size_t>(h.width)) own_.insert(0, h.width - own_.size(), h.fill);
    use_ = true;
  }
  AlphaNum(Dec d) : own_(d.text), use_(true) {  // NOLINT
    if (own_.size() < static_cast<std::size_t>(d.width)) own_.insert(own_[0] == '-' && d.fill == '0' ? 1 : 0, d.width - own_.size(), d.fill);
  }
  template<typename T> requires(HasAbslStringify<T>::value) AlphaNum(const T& v) : own_(strings_internal::ViaStringify(v)), use_(true) {}  // NOLINT
  template<typename T> requires(std::is_enum_v<T> && !HasAbslStringify<T>::value && std::is_convertible_v<T, std::underlying_type_t<T>>) AlphaNum(T v) : AlphaNum(static_cast<std::common_type_t<int, std::underlying_type_t<T>>>(v)) {}  // NOLINT
  template<typename T> requires(std::is_enum_v<T> && !HasAbslStringify<T>::value && !std::is_convertible_v<T, std::underlying_type_t<T>>) AlphaNum(T v) : AlphaNum(static_cast<std::common_type_t<int, std::underlying_type_t<T>>>(v)) {}  // NOLINT
  AlphaNum(char) = delete;
  AlphaNum(const AlphaNum&) = delete;
  AlphaNum& operator=(const AlphaNum&) = delete;
  std::string_view Piece() const { return use_ ? std::string_view(own_) : view_; }

 private:
  template<typename T> void I(T v) { own_ = std::to_string(v); use_ = true; }
  std::string_view view_;
  std::string own_;
  bool use_ = false;
};
namespace strings_internal {
inline void Cat(std::string* out, std::initializer_list<std::string_view> l) {
  std::size_t n = out->size();
  for (auto v : l) n += v.size();
  std::string r;
  r.reserve(n);
  r += *out;
  for (auto v : l) r += v;
  *out = std::move(r);
}
template<typename... A> std::string CatN(const A&... a) { std::string r; Cat(&r, {a.Piece()...}); return r; }
template<typename... A> void AppN(std::string* d, const A&... a) { Cat(d, {a.Piece()...}); }

}  // namespace strings_internal
template<typename... A> [[nodiscard]] std::string StrCat(const A&... a) { return strings_internal::CatN(static_cast<const AlphaNum&>(AlphaNum(a))...); }
template<typename... A> void StrAppend(std::string* d, const A&... a) { strings_internal::AppN(d, static_cast<const AlphaNum&>(AlphaNum(a))...); }
}  // namespace absl
