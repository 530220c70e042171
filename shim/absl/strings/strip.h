#pragma once
#include "absl/base/macros_shim.h"
namespace absl {
inline bool ConsumePrefix(std::string_view* s, std::string_view p) { if (!s->starts_with(p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(std::string_view* s, std::string_view p) { if (!s->ends_with(p)) return false; s->remove_suffix(p.size()); return true; }
[[nodiscard]] inline std::string_view StripPrefix(std::string_view s, std::string_view p) { ConsumePrefix(&s, p); return s; }
[[nodiscard]] inline std::string_view StripSuffix(std::string_view s, std::string_view p) { ConsumeSuffix(&s, p); return s; }
}  // namespace absl
