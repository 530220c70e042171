// The two Abseil log flags that helly25/mbo's diff tool adjusts.
#include "absl/flags/flag.h"
ABSL_FLAG(int, stderrthreshold, 2, "");
ABSL_FLAG(int, minloglevel, 0, "");
