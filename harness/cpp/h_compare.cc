// Drives the compare_objects_file_to_submission tool.
#include "common.h"
#define main tool_main
#include "waymo_open_dataset/latency/compare_objects_file_to_submission_main.cc"
#undef main
#include "tool.h"
