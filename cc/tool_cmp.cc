// The program's own source, its main() renamed, with a small flag parser: the
// flag library is not installed here.
#include "flags_stub.h"
#define main tool_cmp_main
#include "waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc"
