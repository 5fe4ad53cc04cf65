#pragma once
#include "plan.h"
struct ExecCfg {
  bool skip_noise = false;    // the variant with another history
  bool no_faults = false;     // counterfactual: nothing fails
  bool no_failing = false;    // counterfactual: nothing fails, invalid calls dropped
  bool serial = false;        // counterfactual: callers one after the other
  int fill = -1, policy = -1; // variant of the memory environment
  int scrub = 0x33;
};
void exec_plan(const Plan& p, const ExecCfg& c);  // runs in a forked child
