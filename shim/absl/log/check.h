#pragma once
#include "absl/log/absl_check.h"
#define CHECK(c) ABSL_CHECK(c)
#define QCHECK(c) ABSL_QCHECK(c)
#define CHECK_OK(c) ABSL_CHECK_OK(c)
#define CHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define CHECK_NE(a, b) ABSL_CHECK_NE(a, b)
