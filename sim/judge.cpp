// Decides, for one property, whether a simulated execution violates it. A
// violation is attributed to a property by what was observed and, where the
// property is about faults, failed calls or interleavings, by a counterfactual
// execution: the same plan without them must not show it.
#include "judge.h"

#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

Acc ACC;

void run_child(const Plan& p, const ExecCfg& c) {
  // the tail of Shared is large but rarely used: clear what a run can have set
  memset((void*)SH, 0, offsetof(Shared, sw));
  SH->nsw = 0;
  memset((char*)SH + offsetof(Shared, nsw), 0, sizeof(Shared) - offsetof(Shared, nsw));
  SH->hash = SH->odigest = SH->sched_hash = SH->faultsig = 1469598103934665603ull;
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    if (!g_trace) { int fd = 2; (void)fd; if (!freopen("/dev/null", "w", stderr)) {} }
    alarm(120);
    exec_plan(p, c);
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  ACC.child_runs++;
  bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0 && SH->phase == 2;
  bool reported = WIFEXITED(st) && WEXITSTATUS(st) >= 77 && WEXITSTATUS(st) <= 79 && SH->nvio > 0;
  if (clean || reported) return;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
    fprintf(stderr, "simulator: run did not finish in 120 s of real time (seed %lu run %lu)\n", p.seed, p.index);
    FILE* f = fopen("sim_stuck.plan", "w");
    if (f) { fputs(plan_text(p).c_str(), f); fclose(f); }
    _exit(3);
  }
  // died without leaving a report: the death itself is the observation
  if (SH->nvio < MAXVIO) {
    Vio& v = SH->vio[SH->nvio++];
    memset(&v, 0, sizeof v);
    int t = SH->cur_thr;
    v.kind = V_CRASH;
    v.op = SH->cur_op[t];
    v.flags = (SH->fault_this[t] ? VF_FAULT_THIS : 0) | (SH->fault_before ? VF_FAULT_BEFORE : 0) |
              (SH->invalid_this[t] ? VF_INVALID : 0) | (SH->conc ? VF_THREADS : 0) | (SH->retry_this[t] ? VF_RETRY : 0) |
              (SH->destroying[t] ? VF_DESTROYING : 0);
    snprintf(v.msg, sizeof v.msg, "the process died (wait status 0x%x) in op %d", st, v.op);
  }
}

static int kind_of(const Plan& p, int op) {
  for (auto& o : p.ops)
    if (o.id == op) return o.kind;
  return -1;
}

static bool is_crash(int k) { return k == V_CRASH || k == V_MEM_OOB || k == V_MEM_UAF || k == V_HANG; }
static bool is_wrong(int k) { return k == V_DATA || k == V_META || k == V_STATUS || k == V_SELF; }

// does this observation speak against the property? cf: which counterfactual
// must make it disappear (0 none, 1 no faults, 2 no failing calls, 3 serial)
static bool matches(const std::string& prop, const Vio& v, int opkind, int& cf) {
  cf = 0;
  int k = v.kind, f = v.flags;
  bool fault = f & VF_FAULT_THIS, inv = f & VF_INVALID, retry = f & VF_RETRY, before = f & VF_FAULT_BEFORE;
  bool thr = f & VF_THREADS;
  int fam = opkind >= 0 ? family(opkind) : FAM_NONE;
  if (prop == "C01") {
    cf = 1;
    if (!fault) return false;
    return is_crash(k) || k == V_FAULT_REPORT || k == V_FAULT_SUCCESS || k == V_SELF || k == V_LEAK || k == V_HANDLE ||
           k == V_DOUBLE_FREE || k == V_FOREIGN_FREE || k == V_OPERAND || k == V_ALIAS || k == V_ARG;
  }
  if (prop == "C02") return k == V_LEAK;
  if (prop == "C03")
    return k == V_DOUBLE_FREE || k == V_FOREIGN_FREE || k == V_BYPASS || k == V_ADOPT || k == V_DESTROY ||
           (k == V_ALIAS && (f & VF_RELEASED)) || ((f & VF_DESTROYING) && is_crash(k));
  if (prop == "C04") {
    if (k == V_HANDLE || (k == V_LEAK && (fault || inv))) return true;
    if ((k == V_OPERAND || k == V_ARG || k == V_ALIAS) && (fault || inv)) { cf = 2; return true; }
    if ((is_wrong(k) || k == V_OPERAND || k == V_ALIAS || is_crash(k)) && !fault && !inv) { cf = 2; return true; }
    if (k == V_BYPASS || k == V_DOUBLE_FREE || k == V_FOREIGN_FREE || k == V_ADOPT) { cf = 2; return true; }
    (void)retry;
    return false;
  }
  if (prop == "C05") return k == V_OPERAND || k == V_ALIAS || k == V_ARG;
  if (prop == "C07") return (k == V_MEM_OOB || k == V_MEM_UAF) && !((fault || before) && (f & VF_NULLISH));
  if (prop == "C08") {
    cf = 3;
    return true;
  }
  if (prop == "C09" || prop == "C10" || prop == "C11") {
    int want = prop == "C09" ? FAM_MOVE : prop == "C10" ? FAM_ARITH : FAM_NN;
    if ((opkind == K_POKE || opkind == K_INDEX) && prop == "C09" && (k == V_DATA || is_crash(k))) return true;
    if (opkind == K_BCAST && prop == "C10" && (k == V_DATA || k == V_STATUS || (is_crash(k) && !inv))) return true;
    if (fam != want || fault || inv || thr) return false;
    return k == V_DATA || k == V_META || k == V_STATUS || k == V_SELF || k == V_OPERAND || k == V_ALIAS || is_crash(k);
  }
  if (prop == "C12") {
    if (k == V_DROPOUT || k == V_DROPRATE || k == V_DROPSAME) return true;
    return opkind == K_DROPOUT && !fault && !inv && (is_wrong(k) || is_crash(k));
  }
  if (prop == "C13") return k == V_ACCEPTED || k == V_CODE || (inv && !fault && is_crash(k));
  if (prop == "C14") return (k == V_META || k == V_SELF) && !fault;
  return false;
}

static void accumulate_run(const Plan& p) {
  Acc& a = ACC;
  a.ops_done += SH->ops_done; a.ops_lib += SH->ops_lib; a.ops_ok += SH->ops_ok; a.ops_rejected += SH->ops_rejected;
  a.ops_faulted += SH->ops_faulted; a.ops_retried += SH->ops_retried; a.ops_skipped += SH->ops_skipped;
  a.events += SH->events; a.switches += SH->switches; a.allocs += SH->allocs; a.bytes += SH->bytes_alloc;
  a.irrelevant += SH->irrelevant; a.model_checked += SH->model_checked; a.clock_jumps += SH->clock_jumps; a.clock_stalls += SH->clock_stalls;
  a.sim_seconds += SH->sim_seconds;
  a.dropmasks += (uint64_t)SH->dstat[0];
  a.dropelems += (uint64_t)SH->dstat[1];
  for (int i = 0; i < F_NKINDS; i++) a.fired[i] += SH->fired[i], a.fired_ops[i] += SH->fired_ops[i];
  for (int i = 0; i < 32; i++)
    a.opkind[i] += SH->opkind_count[i], a.opok[i] += SH->opkind_ok[i], a.opmodel[i] += SH->opkind_model[i], a.oprej[i] += SH->opkind_rej[i];
  if (a.outcomes.size() < 4000000) a.outcomes[SH->odigest]++;
  if (p.nthr) { a.conc_runs++; if (SH->switches) a.scheds[SH->sched_hash]++; }
  if (SH->ops_faulted) a.faultsigs[SH->faultsig]++;
  for (int i = 0; i < SH->nsite; i++) {
    auto& s = a.sites[SH->site_pc[i]];
    s.first += SH->site_alloc[i];
    s.second += SH->site_fail[i];
  }
  a.policy[p.rt.policy]++;
  a.fill[p.rt.fill]++;
  if (a.edge.empty()) a.edge.assign(NEDGE, 0);
  for (int i = 0; i < NEDGE; i++) a.edge[i] |= SH->edge[i];
}

static Verdict judge_diverge(const Plan& p, bool acc) {
  Verdict r;
  static uint64_t dig[3][MAXOPS];
  static int st[3][MAXOPS];
  int nv[3];
  Vio vv[3];
  ExecCfg cfgs[3];
  Rng g(p.rt.mem_seed ^ 0xD1FF);
  for (int i = 1; i < 3; i++) {
    int fl[] = {0, 255, 256, 0xA5, 0x01, 257, 0x80};
    cfgs[i].fill = fl[g.below(7)];
    if (i == 1 && cfgs[i].fill == p.rt.fill) cfgs[i].fill = 0xC3;
    cfgs[i].policy = (p.rt.policy + i) % 3;
    cfgs[i].skip_noise = i == 1;
    cfgs[i].scrub = (int)g.below(256);
  }
  uint64_t hash = 0;
  int exhausted = 0;
  for (int i = 0; i < 3; i++) {
    Plan q = p;
    if (i) q.rt.mem_seed = p.rt.mem_seed * 31 + i, q.rt.clock0 += i * 1000;
    run_child(q, cfgs[i]);
    if (acc) { accumulate_run(q); }
    exhausted |= SH->exhausted;
    hash = fnv64(hash, SH->hash);
    memcpy(dig[i], SH->opdig, sizeof dig[i]);
    memcpy(st[i], SH->opst, sizeof st[i]);
    nv[i] = SH->nvio;
    if (nv[i]) vv[i] = SH->vio[0];
  }
  r.hash = hash;
  if (exhausted) return r;
  auto mk = [&](int op, const std::string& m) {
    r.bad = true;
    memset(&r.v, 0, sizeof r.v);
    r.v.kind = V_DIVERGE;
    r.v.op = op;
    snprintf(r.v.msg, sizeof r.v.msg, "%s", m.c_str());
    r.opkind = kind_of(p, op);
  };
  for (int i = 1; i < 3; i++) {
    // a run that died or was flagged in one environment only, at an op both reached
    for (auto& o : p.ops) {
      if (o.noise || o.id >= MAXOPS || o.kind >= K_NLIB) continue;
      int a = st[0][o.id], b = st[i][o.id];
      bool stop0 = nv[0] && vv[0].op == o.id, stopi = nv[i] && vv[i].op == o.id;
      if (stop0 && stopi) {
        if (vv[0].kind != vv[i].kind && !is_crash(vv[0].kind)) {
          mk(o.id, std::string(KIND_NAME[o.kind]) + " misbehaves differently (" + V_NAME[vv[0].kind] + " / " + V_NAME[vv[i].kind] +
                       ") when only the contents of fresh memory, its placement or earlier unrelated calls differ");
          return r;
        }
        break;
      }
      if (stop0 || stopi) {
        const Vio& v = stop0 ? vv[0] : vv[i];
        mk(o.id, std::string(KIND_NAME[o.kind]) + ": " + v.msg +
                     " - but only for some contents of fresh memory, placements or earlier unrelated calls");
        return r;
      }
      if (a && b && (a != b || dig[0][o.id] != dig[i][o.id])) {
        mk(o.id, std::string(KIND_NAME[o.kind]) + " gives " + (a != b ? std::string(st_name(a - 1)) + " or " + st_name(b - 1) : "different results") +
                     " for the same arguments depending on the contents of fresh memory, its placement or earlier unrelated calls");
        return r;
      }
    }
  }
  if (nv[0] && acc) { ACC.foreign++; ACC.foreign_kinds[vv[0].kind]++; }
  return r;
}

Verdict judge(const Plan& p, bool acc) {
  if (acc) ACC.runs++;
  if (p.prop == "C06") return judge_diverge(p, acc);
  Verdict r;
  run_child(p, ExecCfg());
  if (acc) accumulate_run(p);
  r.hash = SH->hash;
  int n = SH->nvio;
  if (!n) return r;
  std::vector<Vio> vs(SH->vio, SH->vio + n);
  static std::vector<SwRec> sw;
  sw.assign(SH->sw, SH->sw + (SH->nsw < MAXSW ? SH->nsw : MAXSW));
  for (auto& v : vs) {
    int ok = kind_of(p, v.op), cf;
    if (!matches(p.prop, v, ok, cf)) continue;
    if (cf) {
      ExecCfg c;
      c.no_faults = cf == 1;
      c.no_failing = cf == 2;
      c.serial = cf == 3;
      run_child(p, c);
      bool still = false;
      for (int i = 0; i < SH->nvio; i++) {
        const Vio& w = SH->vio[i];
        if (cf == 3) still = true;
        else if (kind_of(p, w.op) == ok && (w.kind == v.kind || (is_crash(w.kind) && is_crash(v.kind)))) still = true;
        else if (w.op >= 0 && v.op >= 0 && w.op <= v.op && is_crash(w.kind)) still = true;
      }
      if (still) continue;
      if (cf == 3) r.note = "the same calls issued one after the other show nothing";
      if (cf == 1) r.note = "without the injected allocation failures nothing is wrong";
      if (cf == 2) r.note = "without the failing calls nothing is wrong";
      // leave the schedule of the violating run where the shrinker finds it
      SH->nsw = (int)sw.size();
      std::copy(sw.begin(), sw.end(), SH->sw);
    }
    r.bad = true;
    r.v = v;
    r.opkind = ok;
    return r;
  }
  if (acc) { ACC.foreign++; ACC.foreign_kinds[vs[0].kind]++; }
  return r;
}
