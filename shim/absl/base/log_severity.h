#pragma once
#include <ostream>
#include "absl/base/macros_shim.h"
namespace absl {
enum class LogSeverity : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3 };
enum class LogSeverityAtLeast : int { kInfo = 0, kWarning = 1, kError = 2, kFatal = 3, kInfinity = 1000 };
enum class LogSeverityAtMost : int { kNegativeInfinity = -1000, kInfo = 0, kWarning = 1, kError = 2, kFatal = 3 };
constexpr const char* LogSeverityName(LogSeverity s) {
  switch (s) {
    case LogSeverity::kInfo: return "INFO";
    case LogSeverity::kWarning: return "WARNING";
    case LogSeverity::kError: return "ERROR";
    case LogSeverity::kFatal: return "FATAL";
  }
  return "UNKNOWN";
}
inline std::ostream& operator<<(std::ostream& os, LogSeverity s) { return os << LogSeverityName(s); }
template<typename Sink> void AbslStringify(Sink& sink, LogSeverity s) { sink.Append(LogSeverityName(s)); }
constexpr LogSeverity NormalizeLogSeverity(int s) { return static_cast<LogSeverity>(s < 0 ? 0 : s > 3 ? 2 : s); }
}  // namespace absl
