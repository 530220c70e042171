// Part of a small stand-in for the parts of Abseil that helly25/mbo uses (there
// is no usable Abseil in this environment). See DESIGN.md, "Stand-ins".
#ifndef SHIM_ABSL_MACROS_H_
#define SHIM_ABSL_MACROS_H_
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#define ABSL_CONST_INIT constinit
#define ABSL_MUST_USE_RESULT [[nodiscard]]
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_ALWAYS_INLINE
#define ABSL_ATTRIBUTE_NOINLINE
#define ABSL_ATTRIBUTE_UNUSED [[maybe_unused]]
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_DEPRECATED(x)
#define ABSL_ASSERT(x) assert(x)
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
namespace absl {
using string_view = std::string_view;
inline constexpr bool kShim = true;
}  // namespace absl
#endif
