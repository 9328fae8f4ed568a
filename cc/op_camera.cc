// The operations own source.
#include "waymo_open_dataset/wdl_limited/camera/ops/camera_model_ops.cc"
