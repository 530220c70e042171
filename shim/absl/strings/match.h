#pragma once
#include <algorithm>
#include "absl/strings/ascii.h"
namespace absl {
inline bool StrContains(std::string_view h, std::string_view n) { return h.find(n) != h.npos; }
inline bool StrContains(std::string_view h, char n) { return h.find(n) != h.npos; }
inline bool StartsWith(std::string_view s, std::string_view p) { return s.starts_with(p); }
inline bool EndsWith(std::string_view s, std::string_view p) { return s.ends_with(p); }
inline bool EqualsIgnoreCase(std::string_view a, std::string_view b) { return std::equal(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return ascii_tolower(x) == ascii_tolower(y); }); }
inline bool StartsWithIgnoreCase(std::string_view s, std::string_view p) { return s.size() >= p.size() && EqualsIgnoreCase(s.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(std::string_view s, std::string_view p) { return s.size() >= p.size() && EqualsIgnoreCase(s.substr(s.size() - p.size()), p); }
inline bool StrContainsIgnoreCase(std::string_view h, std::string_view n) { return AsciiStrToLower(h).find(AsciiStrToLower(n)) != std::string::npos; }
}  // namespace absl
