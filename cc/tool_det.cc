// The program's own source, its main() renamed.
#include <map>
#include <set>
#define main tool_det_main
#include "waymo_open_dataset/metrics/tools/compute_detection_metrics_main.cc"
