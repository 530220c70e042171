#pragma once
#include <initializer_list>
#include <string>
#include <utility>
#include <vector>
#include "absl/base/macros_shim.h"
namespace absl {
namespace strings_internal {
template<typename M> std::string ReplaceAll(std::string_view s, const M& reps, int* count) {
  std::string r;
  std::size_t pos = 0;
  while (pos < s.size()) {
    // the earliest match wins, among those the longest
    std::size_t best = s.npos;
    std::string_view from, to;
    for (const auto& p : reps) {
      std::string_view f(p.first);
      if (f.empty()) continue;
      std::size_t at = s.find(f, pos);
      if (at == s.npos) continue;
      if (best == s.npos || at < best || (at == best && f.size() > from.size())) { best = at; from = f; to = std::string_view(p.second); }
    }
    if (best == s.npos) break;
    r += s.substr(pos, best - pos);
    r += to;
    pos = best + from.size();
    ++*count;
  }
  r += s.substr(pos);
  return r;
}
}  // namespace strings_internal
[[nodiscard]] inline std::string StrReplaceAll(std::string_view s, std::initializer_list<std::pair<std::string_view, std::string_view>> r) { int n = 0; return strings_internal::ReplaceAll(s, r, &n); }
template<typename M> [[nodiscard]] std::string StrReplaceAll(std::string_view s, const M& r) { int n = 0; return strings_internal::ReplaceAll(s, r, &n); }
inline int StrReplaceAll(std::initializer_list<std::pair<std::string_view, std::string_view>> r, std::string* t) { int n = 0; *t = strings_internal::ReplaceAll(*t, r, &n); return n; }
template<typename M> int StrReplaceAll(const M& r, std::string* t) { int n = 0; *t = strings_internal::ReplaceAll(*t, r, &n); return n; }
}  // namespace absl
