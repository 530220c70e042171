#pragma once
#include <cstdio>
#include <string>
#include "absl/strings/ascii.h"
namespace absl {
namespace strings_internal {
inline std::string CEsc(std::string_view s, bool hex, bool utf8) {
  std::string r;
  bool last_hex = false;
  for (unsigned char c : s) {
    bool is_hex = false;
    switch (c) {
      case '\n': r += "\\n"; break;
      case '\r': r += "\\r"; break;
      case '\t': r += "\\t"; break;
      case '"': r += "\\\""; break;
      case '\'': r += "\\'"; break;
      case '\\': r += "\\\\"; break;
      default:
        if ((!utf8 || c < 128) && (!ascii_isprint(c) || (last_hex && ascii_isxdigit(c)))) {
          char b[8];
          if (hex) { std::snprintf(b, sizeof b, "\\x%02x", c); is_hex = true; } else { std::snprintf(b, sizeof b, "\\%03o", c); }
          r += b;
        } else {
          r += char(c);
        }
    }
    last_hex = is_hex;
  }
  return r;
}
}  // namespace strings_internal
inline std::string CEscape(std::string_view s) { return strings_internal::CEsc(s, false, false); }
inline std::string CHexEscape(std::string_view s) { return strings_internal::CEsc(s, true, false); }
inline std::string Utf8SafeCEscape(std::string_view s) { return strings_internal::CEsc(s, false, true); }
inline std::string Utf8SafeCHexEscape(std::string_view s) { return strings_internal::CEsc(s, true, true); }
inline std::string BytesToHexString(std::string_view s) { std::string r; char b[3]; for (unsigned char c : s) { std::snprintf(b, 3, "%02x", c); r += b; } return r; }
}  // namespace absl
