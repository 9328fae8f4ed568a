// The program's own source, its main() renamed.
#include <map>
#include <set>
#define main tool_let_main
#include "waymo_open_dataset/metrics/tools/compute_detection_let_metrics_main.cc"
