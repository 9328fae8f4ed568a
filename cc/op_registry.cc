// The registrations of the operations.
#include "waymo_open_dataset/metrics/ops/metrics_ops.cc"
