#pragma once
#include <mutex>
#include "absl/base/macros_shim.h"
#include "absl/base/thread_annotations.h"
namespace absl {
enum ConstInitType { kConstInit };
class Mutex {
 public:
  constexpr Mutex() = default;
  explicit constexpr Mutex(ConstInitType) {}
  void Lock() { m_.lock(); }
  void Unlock() { m_.unlock(); }
  void lock() { m_.lock(); }
  void unlock() { m_.unlock(); }
  bool TryLock() { return m_.try_lock(); }
  void ReaderLock() { m_.lock(); }
  void ReaderUnlock() { m_.unlock(); }
  void AssertHeld() const {}

 private:
  std::mutex m_;
};
class MutexLock {
 public:
  explicit MutexLock(Mutex* m) : m_(*m) { m_.Lock(); }
  explicit MutexLock(Mutex& m) : m_(m) { m_.Lock(); }
  ~MutexLock() { m_.Unlock(); }
  MutexLock(const MutexLock&) = delete;

 private:
  Mutex& m_;
};
using ReaderMutexLock = MutexLock;
using WriterMutexLock = MutexLock;
}  // namespace absl
