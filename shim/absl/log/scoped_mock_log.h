#pragma once
#include <string>
#include "absl/log/absl_log.h"
#include "gmock/gmock.h"
namespace absl {
enum class MockLogDefault { kIgnoreUnexpected, kDisallowUnexpected };
class ScopedMockLog {
 public:
  explicit ScopedMockLog(MockLogDefault d = MockLogDefault::kIgnoreUnexpected) {
    if (d == MockLogDefault::kDisallowUnexpected) EXPECT_CALL(*this, Log).Times(0);
    else EXPECT_CALL(*this, Log).Times(testing::AnyNumber());
  }
  ~ScopedMockLog() { shim::TheLogHook() = nullptr; }
  void StartCapturingLogs() {
    shim::TheLogHook() = [this](LogSeverity s, std::string_view f, int, std::string_view m) { Log(s, std::string(f), std::string(m)); };
  }
  void StopCapturingLogs() { shim::TheLogHook() = nullptr; }
  MOCK_METHOD(void, Log, (LogSeverity, const std::string&, const std::string&));
};
}  // namespace absl
