// oneTBB stand-in for the removed classic header (see DESIGN.md, "shims")
#pragma once
#include <tbb/version.h>
#include <tbb/blocked_range.h>
