#pragma once
#include <chrono>
#include <cmath>
#include <compare>
#include <cstdint>
#include <cstdio>
#include <ctime>
#include <limits>
#include <ostream>
#include <string>
#include "absl/base/macros_shim.h"
namespace absl {
// Nanosecond resolution; the extreme values stand for the infinities.
class Duration {
 public:
  constexpr Duration() = default;
  static constexpr Duration Raw(std::int64_t n) { Duration d; d.ns_ = n; return d; }
  constexpr std::int64_t raw() const { return ns_; }
  constexpr bool inf() const { return ns_ == kMax || ns_ == kMin; }
  friend constexpr auto operator<=>(Duration, Duration) = default;
  friend constexpr Duration operator-(Duration d) { return Raw(d.ns_ == kMin ? kMax : d.ns_ == kMax ? kMin : -d.ns_); }
  friend constexpr Duration operator+(Duration a, Duration b) {
    if (a.inf()) return a;
    if (b.inf()) return b;
    std::int64_t r = 0;
    return __builtin_add_overflow(a.ns_, b.ns_, &r) ? Raw(a.ns_ < 0 ? kMin : kMax) : Raw(r);
  }
  friend constexpr Duration operator-(Duration a, Duration b) { return a + -b; }
  template<typename I> requires std::is_integral_v<I> friend constexpr Duration operator*(Duration a, I n) {
    std::int64_t r = 0;
    return a.inf() || __builtin_mul_overflow(a.ns_, n, &r) ? Raw((a.ns_ < 0) != (n < 0) ? kMin : kMax) : Raw(r);
  }
  Duration& operator+=(Duration o) { return *this = *this + o; }
  Duration& operator-=(Duration o) { return *this = *this - o; }
  static constexpr std::int64_t kMax = std::numeric_limits<std::int64_t>::max();
  static constexpr std::int64_t kMin = std::numeric_limits<std::int64_t>::min();

 private:
  std::int64_t ns_ = 0;
};
constexpr Duration ZeroDuration() { return {}; }
constexpr Duration InfiniteDuration() { return Duration::Raw(Duration::kMax); }
constexpr Duration Nanoseconds(std::int64_t n) { return Duration::Raw(n); }
constexpr Duration Microseconds(std::int64_t n) { return Duration::Raw(1000) * n; }
constexpr Duration Milliseconds(std::int64_t n) { return Duration::Raw(1000000) * n; }
constexpr Duration Seconds(std::int64_t n) { return Duration::Raw(1000000000) * n; }
inline Duration Seconds(double n) { return Duration::Raw(static_cast<std::int64_t>(n * 1e9)); }
inline Duration Milliseconds(double n) { return Duration::Raw(static_cast<std::int64_t>(n * 1e6)); }
constexpr Duration Seconds(int n) { return Seconds(static_cast<std::int64_t>(n)); }
constexpr Duration Milliseconds(int n) { return Milliseconds(static_cast<std::int64_t>(n)); }
constexpr Duration Minutes(std::int64_t n) { return Seconds(static_cast<std::int64_t>(60)) * n; }
constexpr Duration Hours(std::int64_t n) { return Minutes(60) * n; }
constexpr std::int64_t ToInt64Nanoseconds(Duration d) { return d.raw(); }
constexpr std::int64_t ToInt64Microseconds(Duration d) { return d.raw() / 1000; }
constexpr std::int64_t ToInt64Milliseconds(Duration d) { return d.raw() / 1000000; }
constexpr std::int64_t ToInt64Seconds(Duration d) { return d.raw() / 1000000000; }
constexpr double ToDoubleSeconds(Duration d) { return double(d.raw()) / 1e9; }
inline std::string FormatDuration(Duration d) {
  if (d == InfiniteDuration()) return "inf";
  if (d == -InfiniteDuration()) return "-inf";
  if (d == ZeroDuration()) return "0";
  std::string r;
  std::uint64_t n = d.raw() < 0 ? 0ULL - std::uint64_t(d.raw()) : std::uint64_t(d.raw());
  if (d.raw() < 0) r = "-";
  auto frac = [&](std::uint64_t v, std::uint64_t unit, const char* name) {
    r += std::to_string(v / unit);
    if (std::uint64_t f = v % unit) {
      std::string s;
      for (std::uint64_t u = unit / 10; f; u /= 10) { s += char('0' + f / u); f %= u; }
      r += "." + s;
    }
    r += name;
  };
  if (n < 1000) frac(n, 1, "ns");
  else if (n < 1000000) frac(n, 1000, "us");
  else if (n < 1000000000) frac(n, 1000000, "ms");
  else {
    if (std::uint64_t h = n / 3600000000000ULL) r += std::to_string(h) + "h";
    n %= 3600000000000ULL;
    if (std::uint64_t m = n / 60000000000ULL) r += std::to_string(m) + "m";
    n %= 60000000000ULL;
    if (n) frac(n, 1000000000, "s");
  }
  return r;
}
inline std::ostream& operator<<(std::ostream& os, Duration d) { return os << FormatDuration(d); }
template<typename S> void AbslStringify(S& s, Duration d) { s.Append(FormatDuration(d)); }
bool ParseDuration(std::string_view s, Duration* d);
inline bool ParseDuration(std::string_view s, Duration* d) {
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty()) return false;
  if (s == "0") { *d = {}; return true; }
  if (s == "inf") { *d = neg ? -InfiniteDuration() : InfiniteDuration(); return true; }
  double total = 0;
  while (!s.empty()) {
    std::size_t i = 0;
    while (i < s.size() && ((s[i] >= '0' && s[i] <= '9') || s[i] == '.')) ++i;
    if (!i) return false;
    double v = std::strtod(std::string(s.substr(0, i)).c_str(), nullptr);
    s.remove_prefix(i);
    double u = 0;
    if (s.starts_with("ns")) { u = 1; s.remove_prefix(2); } else if (s.starts_with("us")) { u = 1e3; s.remove_prefix(2); } else if (s.starts_with("ms")) { u = 1e6; s.remove_prefix(2); } else if (s.starts_with("s")) { u = 1e9; s.remove_prefix(1); } else if (s.starts_with("m")) { u = 6e10; s.remove_prefix(1); } else if (s.starts_with("h")) { u = 3.6e12; s.remove_prefix(1); } else return false;
    total += v * u;
  }
  *d = Duration::Raw(static_cast<std::int64_t>(neg ? -total : total));
  return true;
}
class Time {
 public:
  constexpr Time() = default;  // The unix epoch.
  static constexpr Time Raw(Duration d) { Time t; t.d_ = d; return t; }
  constexpr Duration raw() const { return d_; }
  friend constexpr auto operator<=>(Time, Time) = default;
  friend constexpr Time operator+(Time t, Duration d) { return Raw(t.d_ + d); }
  friend constexpr Time operator-(Time t, Duration d) { return Raw(t.d_ - d); }
  friend constexpr Duration operator-(Time a, Time b) { return a.d_ - b.d_; }
  Time& operator+=(Duration d) { d_ += d; return *this; }

 private:
  Duration d_;
};
constexpr Time UnixEpoch() { return Time(); }
constexpr Time InfiniteFuture() { return Time::Raw(InfiniteDuration()); }
constexpr Time InfinitePast() { return Time::Raw(-InfiniteDuration()); }
constexpr Time FromUnixSeconds(std::int64_t s) { return Time::Raw(Seconds(s)); }
constexpr Time FromUnixMillis(std::int64_t s) { return Time::Raw(Milliseconds(s)); }
constexpr Time FromUnixMicros(std::int64_t s) { return Time::Raw(Microseconds(s)); }
constexpr Time FromUnixNanos(std::int64_t s) { return Time::Raw(Nanoseconds(s)); }
constexpr Time FromTimeT(std::time_t s) { return FromUnixSeconds(s); }
constexpr std::int64_t ToUnixSeconds(Time t) { std::int64_t n = t.raw().raw(); return n >= 0 ? n / 1000000000 : -((-n + 999999999) / 1000000000); }
constexpr std::int64_t ToUnixMillis(Time t) { std::int64_t n = t.raw().raw(); return n >= 0 ? n / 1000000 : -((-n + 999999) / 1000000); }
constexpr std::int64_t ToUnixNanos(Time t) { return t.raw().raw(); }
inline Time FromChrono(const std::chrono::system_clock::time_point& tp) { return FromUnixNanos(std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count()); }
inline std::chrono::system_clock::time_point ToChronoTime(Time t) { return std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds(ToUnixNanos(t)))); }
class TimeZone {
 public:
  TimeZone() = default;
  explicit TimeZone(int off, std::string name) : off_(off), name_(std::move(name)) {}
  std::string name() const { return name_; }
  int offset() const { return off_; }
  friend bool operator==(const TimeZone& a, const TimeZone& b) { return a.off_ == b.off_ && a.name_ == b.name_; }
  friend std::ostream& operator<<(std::ostream& os, const TimeZone& t) { return os << t.name_; }

 private:
  int off_ = 0;
  std::string name_ = "UTC";
};
inline TimeZone UTCTimeZone() { return {}; }
inline TimeZone LocalTimeZone() { return {}; }
inline TimeZone FixedTimeZone(int seconds) {
  if (!seconds) return {};
  char b[32];
  int a = std::abs(seconds);
  std::snprintf(b, sizeof b, "Fixed/UTC%c%02d:%02d:%02d", seconds < 0 ? '-' : '+', a / 3600, a / 60 % 60, a % 60);
  return TimeZone(seconds, b);
}
inline constexpr char RFC3339_full[] = "%Y-%m-%d%ET%H:%M:%E*S%Ez";
inline constexpr char RFC3339_sec[] = "%Y-%m-%d%ET%H:%M:%S%Ez";
inline std::string FormatTime(std::string_view fmt, Time t, TimeZone tz) {
  if (t == InfiniteFuture()) return "infinite-future";
  if (t == InfinitePast()) return "infinite-past";
  std::int64_t sec = ToUnixSeconds(t), sub = ToUnixNanos(t) - sec * 1000000000;
  std::time_t tt = sec + tz.offset();
  std::tm tm{};
  gmtime_r(&tt, &tm);
  char z[16];
  int a = std::abs(tz.offset());
  char sign = tz.offset() < 0 ? '-' : '+';
  std::string r;
  char b[128];
  for (std::size_t i = 0; i < fmt.size(); ++i) {
    if (fmt[i] != '%' || i + 1 == fmt.size()) { r += fmt[i]; continue; }
    char c = fmt[++i];
    if (c == 'z') { std::snprintf(z, sizeof z, "%c%02d%02d", sign, a / 3600, a / 60 % 60); r += z; continue; }
    if (c == 'Z') { r += tz.offset() ? FixedTimeZone(tz.offset()).name().substr(6) : std::string("UTC"); continue; }
    if (c == 'Y') { r += std::to_string(tm.tm_year + 1900); continue; }
    if (c == 's') { r += std::to_string(sec); continue; }
    if (c == 'E' && i + 1 < fmt.size()) {
      char d = fmt[i + 1];
      if (d == 'z') { ++i; std::snprintf(z, sizeof z, "%c%02d:%02d", sign, a / 3600, a / 60 % 60); r += z; continue; }
      if (d == 'T') { ++i; r += 'T'; continue; }
      std::size_t j = i + 1;
      int n = -1;
      if (d == '*') { ++j; } else { n = 0; while (j < fmt.size() && fmt[j] >= '0' && fmt[j] <= '9') n = n * 10 + (fmt[j++] - '0'); if (j == i + 1) { r += "%E"; continue; } }
      if (j < fmt.size() && (fmt[j] == 'S' || fmt[j] == 'f')) {
        char digits[16];
        std::snprintf(digits, sizeof digits, "%09lld", static_cast<long long>(sub));
        std::string f = digits;
        if (n < 0) { while (!f.empty() && f.back() == '0') f.pop_back(); } else { f.resize(n, '0'); }
        if (fmt[j] == 'S') { std::snprintf(b, sizeof b, "%02d", tm.tm_sec); r += b; if (!f.empty()) r += "." + f; } else { r += f.empty() ? "0" : f; }
        i = j;
        continue;
      }
      r += "%E";
      continue;
    }
    char f[3] = {'%', c, 0};
    if (std::size_t n = std::strftime(b, sizeof b, f, &tm)) r.append(b, n);
    else if (c != 'p') { /* empty expansion */ }
  }
  return r;
}
inline std::string FormatTime(Time t, TimeZone tz) { return FormatTime(RFC3339_full, t, tz); }
inline std::string FormatTime(Time t) { return FormatTime(t, LocalTimeZone()); }
inline std::ostream& operator<<(std::ostream& os, Time t) { return os << FormatTime(t); }
template<typename S> void AbslStringify(S& s, Time t) { s.Append(FormatTime(t)); }
}  // namespace absl
