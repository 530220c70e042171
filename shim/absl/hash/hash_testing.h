#pragma once
#include <initializer_list>
#include <tuple>
#include "absl/hash/hash.h"
#include "gtest/gtest.h"
namespace absl {
namespace shim_internal {
template<typename C, typename Eq> testing::AssertionResult VerifyHash(const C& vals, Eq eq) {
  for (const auto& a : vals)
    for (const auto& b : vals)
      if (eq(a, b) && HashOf(a) != HashOf(b)) return testing::AssertionFailure() << "equal values hash differently";
  // Different values should (here: must) feed different states.
  for (const auto& a : vals)
    for (const auto& b : vals)
      if (!eq(a, b) && HashOf(a) == HashOf(b)) return testing::AssertionFailure() << "different values hash alike";
  return testing::AssertionSuccess();
}
}  // namespace shim_internal
template<typename C> testing::AssertionResult VerifyTypeImplementsAbslHashCorrectly(const C& v) { return shim_internal::VerifyHash(v, std::equal_to<>()); }
template<typename C, typename Eq> testing::AssertionResult VerifyTypeImplementsAbslHashCorrectly(const C& v, Eq eq) { return shim_internal::VerifyHash(v, eq); }
template<typename T> testing::AssertionResult VerifyTypeImplementsAbslHashCorrectly(std::initializer_list<T> v) { return shim_internal::VerifyHash(v, std::equal_to<>()); }
}  // namespace absl
