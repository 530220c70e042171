#pragma once
#include <ctime>
#include "absl/time/time.h"
namespace absl {
inline Time Now() {
  std::timespec ts{};
  clock_gettime(CLOCK_REALTIME, &ts);
  return FromUnixNanos(std::int64_t(ts.tv_sec) * 1000000000 + ts.tv_nsec);
}
inline std::int64_t GetCurrentTimeNanos() { return ToUnixNanos(Now()); }
inline void SleepFor(Duration d) {
  std::timespec ts{d.raw() / 1000000000, d.raw() % 1000000000};
  nanosleep(&ts, nullptr);
}
}  // namespace absl
