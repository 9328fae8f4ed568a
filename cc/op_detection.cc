// The operation own source.
#include "vh_pool.h"
#include "waymo_open_dataset/metrics/ops/detection_metrics_ops.cc"
