#pragma once
#include <initializer_list>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include "absl/strings/str_cat.h"
namespace absl {
struct AlphaNumFormatterShim { template<typename T> void operator()(std::string* o, const T& v) const { if constexpr (std::is_pointer_v<T> && !std::is_convertible_v<T, std::string_view>) StrAppend(o, *v); else StrAppend(o, v); } };
inline auto AlphaNumFormatter() { return AlphaNumFormatterShim{}; }
struct StreamFormatterShim { template<typename T> void operator()(std::string* o, const T& v) const { std::ostringstream s; s << v; *o += s.str(); } };
inline auto StreamFormatter() { return StreamFormatterShim{}; }
template<typename F1, typename F2> struct PairFormatterShim { F1 a; std::string sep; F2 b; template<typename P> void operator()(std::string* o, const P& p) { a(o, p.first); *o += sep; b(o, p.second); } };
template<typename F1, typename F2> auto PairFormatter(F1 a, std::string_view sep, F2 b) { return PairFormatterShim<F1, F2>{a, std::string(sep), b}; }
inline auto PairFormatter(std::string_view sep) { return PairFormatter(AlphaNumFormatter(), sep, AlphaNumFormatter()); }
template<typename It, typename F> std::string StrJoin(It b, It e, std::string_view sep, F&& f) {
  std::string r;
  bool first = true;
  for (; b != e; ++b) { if (!first) r += sep; first = false; f(&r, *b); }
  return r;
}
template<typename R, typename F> requires requires(const R& r) { std::begin(r); } std::string StrJoin(const R& r, std::string_view sep, F&& f) { using std::begin; using std::end; return StrJoin(begin(r), end(r), sep, f); }
template<typename T, typename F> std::string StrJoin(std::initializer_list<T> r, std::string_view sep, F&& f) { return StrJoin(r.begin(), r.end(), sep, f); }
template<typename R> requires requires(const R& r) { std::begin(r); } std::string StrJoin(const R& r, std::string_view sep) { return StrJoin(r, sep, AlphaNumFormatter()); }
template<typename T> std::string StrJoin(std::initializer_list<T> r, std::string_view sep) { return StrJoin(r.begin(), r.end(), sep, AlphaNumFormatter()); }
template<typename It> requires(!std::is_convertible_v<It, std::string_view>) std::string StrJoin(It b, It e, std::string_view sep) { return StrJoin(b, e, sep, AlphaNumFormatter()); }
}  // namespace absl
