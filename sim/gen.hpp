#pragma once
#include "plan.hpp"
Plan gen_plan(const string &prop, u64 vseed, u64 index, bool thorough);
