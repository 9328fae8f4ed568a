// The program's own source, its main() renamed.
#include <map>
#include <set>
#define main tool_trk_main
#include "waymo_open_dataset/metrics/tools/compute_tracking_metrics_main.cc"
