// A value type that audits its own lifetime: every construction is counted, every
// destruction must be of a live object at its own address, and every access must
// be to a live object. Violations abort the case through pbt::Fail.
#ifndef VERIF_TRACKED_H_
#define VERIF_TRACKED_H_
#include <compare>
#include <cstdint>
#include <ostream>
#include <string>
#include <unordered_set>

#include "pbt.h"

struct TrackedStats {
  static std::unordered_set<const void*>& Live() { static std::unordered_set<const void*> s; return s; }
  static size_t Count() { return Live().size(); }
  static void Clear() { Live().clear(); }
};

template<int kTag>
class TrackedT {
 public:
  static constexpr int kMoved = -777;
  TrackedT() : TrackedT(0) {}
  TrackedT(int v) : v_(v) { Born(); }  // NOLINT
  TrackedT(int a, int b) : v_(a * 100 + b) { Born(); }
  TrackedT(const TrackedT& o) : v_(o.Get()) { Born(); }
  TrackedT(TrackedT&& o) noexcept : v_(o.Get()) { o.v_ = kMoved; Born(); }
  TrackedT& operator=(const TrackedT& o) { Alive(); v_ = o.Get(); return *this; }
  TrackedT& operator=(TrackedT&& o) noexcept { Alive(); int v = o.Get(); o.v_ = kMoved; v_ = v; return *this; }
  TrackedT& operator=(int v) { Alive(); v_ = v; return *this; }
  ~TrackedT() {
    Alive();
    TrackedStats::Live().erase(this);
    self_ = nullptr;
    v_ = -999;
  }
  int Get() const { Alive(); return v_; }
  void Set(int v) { Alive(); v_ = v; }
  friend bool operator==(const TrackedT& a, const TrackedT& b) { return a.Get() == b.Get(); }
  friend auto operator<=>(const TrackedT& a, const TrackedT& b) { return a.Get() <=> b.Get(); }
  friend bool operator==(const TrackedT& a, int b) { return a.Get() == b; }
  friend auto operator<=>(const TrackedT& a, int b) { return a.Get() <=> b; }
  friend std::ostream& operator<<(std::ostream& os, const TrackedT& t) { return os << t.Get(); }
  template<typename H> friend H AbslHashValue(H h, const TrackedT& t) { return H::combine(std::move(h), t.Get()); }
  template<typename Sink> friend void AbslStringify(Sink& sink, const TrackedT& t) { sink.Append("T" + std::to_string(t.Get())); }

 private:
  void Born() {
    if (!TrackedStats::Live().insert(this).second) pbt::Fail(__FILE__, __LINE__, "an object was constructed on top of a live one (never destroyed)");
    self_ = this;
  }
  void Alive() const {
    if (TrackedStats::Live().count(this) == 0) pbt::Fail(__FILE__, __LINE__, "access to (or destruction of) an object that is not alive");
    if (self_ != this) pbt::Fail(__FILE__, __LINE__, "an object was copied or moved bytewise");
  }
  int v_;
  const void* self_ = nullptr;
};
using Tracked = TrackedT<0>;
#endif
