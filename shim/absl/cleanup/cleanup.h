#pragma once
#include <utility>
#include "absl/base/macros_shim.h"
namespace absl {
template<typename F>
class [[nodiscard]] Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)), on_(true) {}  // NOLINT
  Cleanup(Cleanup&& o) : f_(std::move(o.f_)), on_(std::exchange(o.on_, false)) {}
  ~Cleanup() { if (on_) std::move(f_)(); }
  void Cancel() && { on_ = false; }
  void Invoke() && { on_ = false; std::move(f_)(); }

 private:
  F f_;
  bool on_;
};
template<typename F> Cleanup(F) -> Cleanup<F>;
template<typename F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }
}  // namespace absl
