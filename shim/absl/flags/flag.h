#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/base/log_severity.h"
#include "absl/time/time.h"
namespace absl {
class CommandLineFlag {
 public:
  CommandLineFlag(const CommandLineFlag&) = delete;
  virtual ~CommandLineFlag() = default;
  std::string_view Name() const { return name_; }
  virtual std::string CurrentValue() const = 0;
  virtual std::string DefaultValue() const = 0;
  virtual bool IsBool() const = 0;
  virtual bool ParseFrom(std::string_view v, std::string* error) = 0;
  virtual void Reset() = 0;
  bool IsSpecifiedOnCommandLine() const { return on_command_line_; }
  void MarkSpecifiedOnCommandLine() { on_command_line_ = true; }

 protected:
  explicit CommandLineFlag(const char* name) : name_(name) {}

 private:
  const char* name_;
  bool on_command_line_ = false;
};
namespace shim {
inline std::map<std::string_view, CommandLineFlag*>& Registry() { static auto* m = new std::map<std::string_view, CommandLineFlag*>; return *m; }
bool ParseInt(std::string_view s, __int128* v);
inline bool ParseInt(std::string_view s, __int128* v) {
  while (!s.empty() && s.front() == ' ') s.remove_prefix(1);
  while (!s.empty() && s.back() == ' ') s.remove_suffix(1);
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty()) return false;
  int base = 10;
  if (s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { base = 16; s.remove_prefix(2); }
  __int128 r = 0;
  for (char c : s) {
    int d = c >= '0' && c <= '9' ? c - '0' : base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : base == 16 && c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
    if (d >= base) return false;
    r = r * base + d;
    if (r > (__int128(1) << 70)) return false;
  }
  *v = neg ? -r : r;
  return true;
}
inline bool IEquals(std::string_view a, std::string_view b) {
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i) if ((a[i] >= 'A' && a[i] <= 'Z' ? a[i] + 32 : a[i]) != b[i]) return false;
  return true;
}
template<typename T> bool ParseFlagText(std::string_view s, T* v) {
  if constexpr (std::is_same_v<T, bool>) {
    for (auto t : {"true", "t", "yes", "y", "1"}) if (IEquals(s, t)) { *v = true; return true; }
    for (auto t : {"false", "f", "no", "n", "0"}) if (IEquals(s, t)) { *v = false; return true; }
    return false;
  } else if constexpr (std::is_integral_v<T>) {
    __int128 i = 0;
    if (!ParseInt(s, &i) || i < std::numeric_limits<T>::min() || i > __int128(std::numeric_limits<T>::max())) return false;
    *v = static_cast<T>(i);
    return true;
  } else if constexpr (std::is_floating_point_v<T>) {
    char* e = nullptr;
    std::string c(s);
    *v = static_cast<T>(std::strtod(c.c_str(), &e));
    return !c.empty() && !*e;
  } else if constexpr (std::is_same_v<T, std::string>) {
    *v = std::string(s);
    return true;
  } else if constexpr (std::is_same_v<T, std::vector<std::string>>) {
    v->clear();
    if (s.empty()) return true;
    for (std::size_t p = 0;;) {
      std::size_t e = s.find(',', p);
      v->emplace_back(s.substr(p, e == s.npos ? e : e - p));
      if (e == s.npos) return true;
      p = e + 1;
    }
  } else if constexpr (std::is_same_v<T, Duration>) {
    return ParseDuration(s, v);
  } else if constexpr (std::is_same_v<T, LogSeverity>) {
    for (int i = 0; i < 4; ++i) if (IEquals(s, i == 0 ? "info" : i == 1 ? "warning" : i == 2 ? "error" : "fatal") || s == std::to_string(i)) { *v = static_cast<LogSeverity>(i); return true; }
    return false;
  } else {
    std::string err;
    return AbslParseFlag(s, v, &err);
  }
}
template<typename T> std::string UnparseFlagText(const T& v) {
  if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
  else if constexpr (std::is_arithmetic_v<T>) return std::to_string(v);
  else if constexpr (std::is_same_v<T, std::string>) return v;
  else if constexpr (std::is_same_v<T, std::vector<std::string>>) { std::string r; for (auto& s : v) r += (r.empty() ? "" : ",") + s; return r; }
  else if constexpr (std::is_same_v<T, Duration>) return FormatDuration(v);
  else if constexpr (std::is_same_v<T, LogSeverity>) return LogSeverityName(v);
  else return AbslUnparseFlag(v);
}
}  // namespace shim
template<typename T>
class Flag final : public CommandLineFlag {
 public:
  Flag(const char* name, T def) : CommandLineFlag(name), def_(def), v_(std::move(def)) { shim::Registry()[name] = this; }
  T Get() const { std::lock_guard l(mu_); return v_; }
  void Set(T v) { std::lock_guard l(mu_); v_ = std::move(v); }
  std::string CurrentValue() const override { return shim::UnparseFlagText(Get()); }
  std::string DefaultValue() const override { return shim::UnparseFlagText(def_); }
  bool IsBool() const override { return std::is_same_v<T, bool>; }
  bool ParseFrom(std::string_view s, std::string*) override { T v{}; if (!shim::ParseFlagText(s, &v)) return false; Set(std::move(v)); return true; }
  void Reset() override { Set(def_); }

 private:
  mutable std::mutex mu_;
  const T def_;
  T v_;
};
template<typename T> T GetFlag(const Flag<T>& f) { return f.Get(); }
template<typename T, typename V> void SetFlag(Flag<T>* f, const V& v) { f->Set(T(v)); }
template<typename T> bool ParseFlag(std::string_view s, T* v, std::string*) { return shim::ParseFlagText(s, v); }
template<typename T> std::string UnparseFlag(const T& v) { return shim::UnparseFlagText(v); }
}  // namespace absl
#define ABSL_FLAG(Type, name, def, help) ::absl::Flag<Type> FLAGS_##name(#name, Type(def))
#define ABSL_RETIRED_FLAG(Type, name, def, help) static_assert(true)
