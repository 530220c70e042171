#pragma once
#include <concepts>
#include <cstdio>
#include <ostream>
#include <string>
#include <type_traits>
#include "absl/base/macros_shim.h"
namespace absl {
namespace strings_internal {
// The sink handed to `AbslStringify`.
class StringifySink {
 public:
  void Append(std::size_t n, char c) { buf_.append(n, c); }
  void Append(std::string_view s) { buf_.append(s); }
  bool PutPaddedString(std::string_view v, int width, int precision, bool left) {
    if (precision >= 0 && v.size() > static_cast<std::size_t>(precision)) v = v.substr(0, precision);
    std::size_t pad = width > 0 && static_cast<std::size_t>(width) > v.size() ? width - v.size() : 0;
    if (!left) Append(pad, ' ');
    Append(v);
    if (left) Append(pad, ' ');
    return true;
  }
  const std::string& str() const { return buf_; }
  friend void AbslFormatFlush(StringifySink* s, std::string_view v) { s->Append(v); }

 private:
  std::string buf_;
};
using UnimplementedSink = StringifySink;
}  // namespace strings_internal
template<typename T>
struct HasAbslStringify : std::bool_constant<requires(strings_internal::StringifySink& s, const T& v) { { AbslStringify(s, v) } -> std::same_as<void>; }> {};
namespace strings_internal {
template<typename T> std::string ViaStringify(const T& v) {
  StringifySink s;
  AbslStringify(s, v);
  return s.str();
}
}  // namespace strings_internal
}  // namespace absl
