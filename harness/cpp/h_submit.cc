// Drives the create_submission tool.
#include "common.h"
#define main tool_main
#include "waymo_open_dataset/metrics/tools/create_submission.cc"
#undef main
#include "tool.h"
