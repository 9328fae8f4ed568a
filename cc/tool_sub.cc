// The program's own source, its main() renamed, with a small flag parser: the
// flag library is not installed here.
#include "flags_stub.h"
#define main tool_sub_main
#include "waymo_open_dataset/metrics/tools/create_submission.cc"
