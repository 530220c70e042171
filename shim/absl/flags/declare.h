#pragma once
#include "absl/flags/flag.h"
#define ABSL_DECLARE_FLAG(Type, name) extern ::absl::Flag<Type> FLAGS_##name
