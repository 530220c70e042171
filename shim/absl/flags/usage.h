#pragma once
#include <string>
#include <string_view>
namespace absl {
namespace shim { inline std::string& Usage() { static std::string u; return u; } }
inline void SetProgramUsageMessage(std::string_view m) { shim::Usage() = m; }
inline std::string_view ProgramUsageMessage() { return shim::Usage(); }
}  // namespace absl
