#pragma once
#include "absl/log/absl_log.h"
namespace absl {
inline void SetStderrThreshold(LogSeverityAtLeast s) { shim::StderrThreshold() = int(s); }
inline void SetMinLogLevel(LogSeverityAtLeast s) { shim::MinLogLevel() = int(s); }
}  // namespace absl
