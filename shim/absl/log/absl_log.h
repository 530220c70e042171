#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sstream>
#include <string>
#include <unistd.h>
#include "absl/base/log_severity.h"
#include "absl/strings/internal_shim.h"
namespace absl {
namespace shim {
// Where messages go; a test replaces it to capture them.
using LogHook = std::function<void(LogSeverity, std::string_view file, int line, std::string_view msg)>;
inline LogHook& TheLogHook() { static LogHook hook; return hook; }
inline int& StderrThreshold() { static int t = 2; return t; }
inline int& MinLogLevel() { static int t = 0; return t; }
class LogMessage {
 public:
  LogMessage(const char* file, int line, LogSeverity s, bool quiet_fatal = false) : file_(file), line_(line), sev_(s), q_(quiet_fatal) {}
  LogMessage(const LogMessage&) = delete;
  ~LogMessage() {
    const std::string m = os_.str();
    if (int(sev_) >= MinLogLevel() || sev_ == LogSeverity::kFatal) {
      if (TheLogHook()) TheLogHook()(sev_, file_, line_, m);
      else if (int(sev_) >= StderrThreshold()) std::fprintf(stderr, "%c %s:%d] %s\n", LogSeverityName(sev_)[0], file_.c_str(), line_, m.c_str());
    }
    if (sev_ == LogSeverity::kFatal) {
      std::fflush(stderr);
      if (q_) _exit(1);
      std::abort();
    }
  }
  LogMessage& stream() { return *this; }
  LogMessage& AtLocation(std::string_view f, int l) { file_ = f; line_ = l; return *this; }
  LogMessage& ToSinkOnly(void*) { return *this; }
  LogMessage& NoPrefix() { return *this; }
  template<typename T> LogMessage& operator<<(const T& v) {
    if constexpr (HasAbslStringify<T>::value) os_ << strings_internal::ViaStringify(v); else os_ << v;
    return *this;
  }
  LogMessage& operator<<(std::ostream& (*f)(std::ostream&)) { os_ << f; return *this; }

 private:
  std::string file_;
  int line_;
  LogSeverity sev_;
  bool q_;
  std::ostringstream os_;
};
struct Voidify { void operator&&(const LogMessage&) const {} };
struct NullLog { template<typename T> NullLog& operator<<(const T&) { return *this; } };
struct NullVoidify { void operator&&(const NullLog&) const {} };
}  // namespace shim
}  // namespace absl
#define SHIM_SEV_INFO ::absl::LogSeverity::kInfo
#define SHIM_SEV_WARNING ::absl::LogSeverity::kWarning
#define SHIM_SEV_ERROR ::absl::LogSeverity::kError
#define SHIM_SEV_FATAL ::absl::LogSeverity::kFatal
#define SHIM_SEV_QFATAL ::absl::LogSeverity::kFatal, true
#define SHIM_SEV_DFATAL ::absl::LogSeverity::kFatal
#define SHIM_SEV_LEVEL(x) ::absl::NormalizeLogSeverity(static_cast<int>(x))
#define SHIM_LOG_AT(...) ::absl::shim::LogMessage(__FILE__, __LINE__, __VA_ARGS__).stream()
#define SHIM_LOG_IF_AT(c, ...) switch (0) case 0: default: !(c) ? (void)0 : ::absl::shim::Voidify() && SHIM_LOG_AT(__VA_ARGS__)
#define ABSL_LOG(s) SHIM_LOG_AT(SHIM_SEV_##s)
#define ABSL_LOG_IF(s, c) SHIM_LOG_IF_AT(c, SHIM_SEV_##s)
#ifdef NDEBUG
#define ABSL_DLOG(s) switch (0) case 0: default: true ? (void)0 : ::absl::shim::Voidify() && SHIM_LOG_AT(SHIM_SEV_##s)
#else
#define ABSL_DLOG(s) ABSL_LOG(s)
#endif
