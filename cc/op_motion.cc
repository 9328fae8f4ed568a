// The operation own source.
#include "vh_pool.h"
#include "waymo_open_dataset/metrics/ops/motion_metrics_ops.cc"
