// The program's own source, its main() renamed.
#include <map>
#include <set>
#define main tool_seg_main
#include "waymo_open_dataset/metrics/tools/compute_segmentation_metrics_main.cc"
