#pragma once
#include <sstream>
#include "absl/log/absl_log.h"
#include "absl/status/status.h"
namespace absl::shim {
template<typename T> void Print(std::ostream& os, const T& v) {
  if constexpr (HasAbslStringify<T>::value) os << strings_internal::ViaStringify(v);
  else if constexpr (requires { os << v; }) os << v;
  else os << "?";
}
inline void Print(std::ostream& os, std::nullptr_t) { os << "(null)"; }
template<typename A, typename B> std::string CheckText(const char* t, const A& a, const B& b) {
  std::ostringstream os;
  os << "Check failed: " << t << " (";
  Print(os, a);
  os << " vs. ";
  Print(os, b);
  os << ") ";
  return os.str();
}
inline Status AsStatus(const Status& s) { return s; }
template<typename S> Status AsStatus(const S& s) { return s.status(); }
}  // namespace absl::shim
#define SHIM_CHECK(c, q) SHIM_LOG_IF_AT(!(c), ::absl::LogSeverity::kFatal, q) << "Check failed: " #c " "
#define SHIM_CHECK_OP(a, b, op, q) \
  switch (0) case 0: default: \
  if (auto&& shim_a = (a); false) {} else if (auto&& shim_b = (b); shim_a op shim_b) {} else SHIM_LOG_AT(::absl::LogSeverity::kFatal, q) << ::absl::shim::CheckText(#a " " #op " " #b, shim_a, shim_b)
#define SHIM_CHECK_OK(s, q) \
  for (::absl::Status shim_st = ::absl::shim::AsStatus(s); !shim_st.ok();) SHIM_LOG_AT(::absl::LogSeverity::kFatal, q) << "Check failed: " #s " is OK (" << shim_st << ") "
#define ABSL_CHECK(c) SHIM_CHECK(c, false)
#define ABSL_QCHECK(c) SHIM_CHECK(c, true)
#define ABSL_DCHECK(c) SHIM_CHECK(c, false)
#define ABSL_CHECK_OK(s) SHIM_CHECK_OK(s, false)
#define ABSL_QCHECK_OK(s) SHIM_CHECK_OK(s, true)
#define ABSL_CHECK_EQ(a, b) SHIM_CHECK_OP(a, b, ==, false)
#define ABSL_CHECK_NE(a, b) SHIM_CHECK_OP(a, b, !=, false)
#define ABSL_CHECK_LT(a, b) SHIM_CHECK_OP(a, b, <, false)
#define ABSL_CHECK_LE(a, b) SHIM_CHECK_OP(a, b, <=, false)
#define ABSL_CHECK_GT(a, b) SHIM_CHECK_OP(a, b, >, false)
#define ABSL_CHECK_GE(a, b) SHIM_CHECK_OP(a, b, >=, false)
#define ABSL_QCHECK_EQ(a, b) SHIM_CHECK_OP(a, b, ==, true)
#define ABSL_QCHECK_NE(a, b) SHIM_CHECK_OP(a, b, !=, true)
#define ABSL_DCHECK_EQ(a, b) SHIM_CHECK_OP(a, b, ==, false)
#define ABSL_DCHECK_LT(a, b) SHIM_CHECK_OP(a, b, <, false)
