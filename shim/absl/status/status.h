#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <utility>
#include <vector>
#include "absl/strings/cord.h"
#include "absl/strings/internal_shim.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12,
  kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16, kDoNotUseReservedForFutureExpansionUseDefaultInSwitchInstead_ = 20
};
inline std::string StatusCodeToString(StatusCode c) {
  static const char* const kN[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  return int(c) >= 0 && int(c) <= 16 ? kN[int(c)] : "";
}
inline std::ostream& operator<<(std::ostream& os, StatusCode c) { return os << StatusCodeToString(c); }
enum class StatusToStringMode : int { kWithNoExtraData = 0, kWithPayload = 1, kWithSourceLocation = 2, kWithEverything = ~0, kDefault = kWithPayload };
class [[nodiscard]] Status final {
 public:
  Status() noexcept = default;
  Status(StatusCode code, std::string_view msg) {
    if (code != StatusCode::kOk) rep_ = std::make_shared<Rep>(Rep{code, std::string(msg), {}});
  }
  Status(const Status&) = default;
  Status& operator=(const Status&) = default;
  Status(Status&& o) noexcept : rep_(std::move(o.rep_)), moved_(o.moved_) { o.rep_.reset(); o.moved_ = true; }
  Status& operator=(Status&& o) noexcept {
    if (this != &o) {
      rep_ = std::move(o.rep_);
      moved_ = o.moved_;
      o.rep_.reset();
      o.moved_ = true;
    }
    return *this;
  }
  ~Status() = default;
  void Update(const Status& n) { if (ok()) *this = n; }
  void Update(Status&& n) { if (ok()) *this = std::move(n); }
  [[nodiscard]] bool ok() const { return !rep_ && !moved_; }
  StatusCode code() const { return moved_ ? StatusCode::kInternal : rep_ ? Canon(rep_->code) : StatusCode::kOk; }
  int raw_code() const { return moved_ ? 13 : rep_ ? int(rep_->code) : 0; }
  std::string_view message() const { return moved_ ? std::string_view("Status accessed after move.") : rep_ ? std::string_view(rep_->msg) : std::string_view(); }
  friend bool operator==(const Status& a, const Status& b) {
    if (a.moved_ || b.moved_) return a.raw_code() == b.raw_code() && a.message() == b.message();
    if (!a.rep_ || !b.rep_) return !a.rep_ && !b.rep_;
    if (a.rep_ == b.rep_) return true;
    if (a.rep_->code != b.rep_->code || a.rep_->msg != b.rep_->msg || a.rep_->payloads.size() != b.rep_->payloads.size()) return false;
    for (auto& [u, c] : a.rep_->payloads) if (auto p = b.GetPayload(u); !p || !(*p == c)) return false;
    return true;
  }
  std::string ToString(StatusToStringMode mode = StatusToStringMode::kDefault) const {
    if (ok()) return "OK";
    std::string r = StatusCodeToString(code()) + ": " + std::string(message());
    if (rep_ && (int(mode) & 1)) for (auto& [u, c] : rep_->payloads) r += " [" + u + "='" + EscapePayload(std::string(c)) + "']";
    return r;
  }
  void IgnoreError() const {}
  friend void swap(Status& a, Status& b) noexcept { std::swap(a.rep_, b.rep_); std::swap(a.moved_, b.moved_); }
  std::optional<Cord> GetPayload(std::string_view url) const {
    if (rep_) for (auto& [u, c] : rep_->payloads) if (u == url) return c;
    return std::nullopt;
  }
  void SetPayload(std::string_view url, Cord c) {
    if (ok() || moved_) return;
    Own();
    for (auto& [u, v] : rep_->payloads) if (u == url) { v = std::move(c); return; }
    rep_->payloads.emplace_back(std::string(url), std::move(c));
  }
  bool ErasePayload(std::string_view url) {
    if (!rep_) return false;
    for (std::size_t i = 0; i < rep_->payloads.size(); ++i) if (rep_->payloads[i].first == url) { Own(); rep_->payloads.erase(rep_->payloads.begin() + long(i)); return true; }
    return false;
  }
  template<typename F> void ForEachPayload(F&& f) const {
    if (!rep_) return;
    auto keep = rep_;
    for (auto& [u, c] : keep->payloads) f(std::string_view(u), c);
  }
  template<typename Sink> friend void AbslStringify(Sink& sink, const Status& s) { sink.Append(s.ToString(StatusToStringMode::kWithEverything)); }
  friend std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(StatusToStringMode::kWithEverything); }
  bool shim_moved_from() const { return moved_; }

 private:
  struct Rep {
    StatusCode code;
    std::string msg;
    std::vector<std::pair<std::string, Cord>> payloads;
  };
  static StatusCode Canon(StatusCode c) { return int(c) >= 0 && int(c) <= 16 ? c : StatusCode::kUnknown; }
  static std::string EscapePayload(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
      if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t";
      else if (c == '"' || c == '\'' || c == '\\') { r += '\\'; r += char(c); }
      else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
      else r += char(c);
    }
    return r;
  }
  void Own() { if (rep_.use_count() > 1) rep_ = std::make_shared<Rep>(*rep_); }
  std::shared_ptr<Rep> rep_;
  bool moved_ = false;
};
inline Status OkStatus() { return Status(); }
inline Status CancelledError() { return Status(StatusCode::kCancelled, ""); }
#define SHIM_E(N, C) \
  inline Status N##Error(std::string_view m) { return Status(StatusCode::C, m); } \
  [[nodiscard]] inline bool Is##N(const Status& s) { return s.code() == StatusCode::C; }
SHIM_E(Cancelled, kCancelled) SHIM_E(Unknown, kUnknown) SHIM_E(InvalidArgument, kInvalidArgument) SHIM_E(DeadlineExceeded, kDeadlineExceeded) SHIM_E(NotFound, kNotFound) SHIM_E(AlreadyExists, kAlreadyExists) SHIM_E(PermissionDenied, kPermissionDenied) SHIM_E(ResourceExhausted, kResourceExhausted) SHIM_E(FailedPrecondition, kFailedPrecondition) SHIM_E(Aborted, kAborted) SHIM_E(OutOfRange, kOutOfRange) SHIM_E(Unimplemented, kUnimplemented) SHIM_E(Internal, kInternal) SHIM_E(Unavailable, kUnavailable) SHIM_E(DataLoss, kDataLoss) SHIM_E(Unauthenticated, kUnauthenticated)
#undef SHIM_E
}  // namespace absl
