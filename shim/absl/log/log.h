#pragma once
#include "absl/log/absl_log.h"
#define LOG(s) ABSL_LOG(s)
#define LOG_IF(s, c) ABSL_LOG_IF(s, c)
#define DLOG(s) ABSL_DLOG(s)
