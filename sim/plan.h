// A plan is one complete simulated execution: configuration of every seam,
// the callers' operations, the faults and (optionally) the explicit schedule.
// It is also the replay file format.
#pragma once
#include <string>
#include <vector>

#include "model.h"
#include "rt.h"

struct Plan {
  std::string prop;
  std::string vkind, vop;    // what the replay is expected to show
  uint64_t seed = 0, index = 0;
  RtCfg rt;
  int allocator = 1;         // allocator installed at start: 0 libc, 1, 2
  int nthr = 0;              // concurrent callers in phase 1
  std::vector<Op> ops;
};

Plan plan_generate(const std::string& prop, uint64_t seed, uint64_t index);
std::string plan_text(const Plan& p);
bool plan_parse(const std::string& text, Plan& p, std::string& err);
std::string op_text(const Op& o);
