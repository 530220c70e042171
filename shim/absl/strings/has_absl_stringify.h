#pragma once
#include "absl/strings/internal_shim.h"
