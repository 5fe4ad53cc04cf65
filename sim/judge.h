#pragma once
#include "exec.h"
struct Verdict {
  bool bad = false;
  Vio v{};
  int opkind = -1;
  std::string note;
  uint64_t hash = 0;
};
// run the plan in a forked child; the result is left in *SH
void run_child(const Plan& p, const ExecCfg& c);
Verdict judge(const Plan& p, bool accumulate);
struct Acc {  // accumulated over the runs of a worker
  uint64_t runs = 0, child_runs = 0, foreign = 0, irrelevant = 0, ops_done = 0, ops_lib = 0, ops_ok = 0, ops_rejected = 0, ops_faulted = 0,
           ops_retried = 0, ops_skipped = 0, events = 0, switches = 0, allocs = 0, bytes = 0, model_checked = 0,
           clock_jumps = 0, clock_stalls = 0, sim_seconds = 0, conc_runs = 0, dropmasks = 0, dropelems = 0;
  uint64_t fired[F_NKINDS] = {}, fired_ops[F_NKINDS] = {}, opkind[32] = {}, opok[32] = {}, opmodel[32] = {}, oprej[32] = {};
  std::map<uint64_t, int> outcomes, scheds, faultsigs;
  std::map<uint64_t, std::pair<uint64_t, uint64_t>> sites;
  std::map<int, uint64_t> policy, fill, foreign_kinds;
  std::vector<char> edge;
};
extern Acc ACC;
