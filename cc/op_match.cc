// The operation own source.
#include "absl/log/log.h"
#include "absl/log/check.h"
#include "absl/strings/str_cat.h"
#include "waymo_open_dataset/metrics/ops/matcher_ops.cc"
