#include <sys/mman.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <stdlib.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>

#include "judge.h"

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string jesc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += '?';
    else o += c;
  }
  return o;
}
static std::string verdict_text(const Plan& p, const Verdict& v) {
  std::ostringstream s;
  s << V_NAME[v.v.kind] << " in " << (v.opkind >= 0 ? KIND_NAME[v.opkind] : "session") << ": " << v.v.msg;
  if (!v.note.empty()) s << " [" << v.note << "]";
  (void)p;
  return s.str();
}
static bool same_class(const Verdict& a, const Verdict& b) {
  return b.bad && a.v.kind == b.v.kind && a.opkind == b.opkind;
}

// ---------------------------------------------------------------- shrink -----
static int g_tries;
static double g_deadline;
static bool still(const Plan& q, const Verdict& want, Verdict* got = nullptr) {
  if (now() > g_deadline) return false;
  g_tries++;
  Verdict v = judge(q, false);
  if (got && same_class(want, v)) *got = v;
  return same_class(want, v);
}
template <class T> static void ddmin(std::vector<T>& v, std::function<bool(const std::vector<T>&)> ok) {
  size_t chunk = std::max<size_t>(1, v.size() / 2);
  while (!v.empty()) {
    bool removed = false;
    for (size_t i = 0; i < v.size();) {
      std::vector<T> w(v.begin(), v.begin() + i);
      size_t e = std::min(v.size(), i + chunk);
      w.insert(w.end(), v.begin() + e, v.end());
      if (w.size() < v.size() && ok(w)) {
        v = w;
        removed = true;
      } else {
        i += chunk;
      }
    }
    if (chunk == 1 && !removed) break;
    if (!removed || chunk > v.size()) chunk = std::max<size_t>(1, chunk / 2);
  }
}
static Plan shrink(Plan p, const Verdict& want, double secs) {
  g_deadline = now() + secs;
  if (p.nthr && !p.rt.sched_explicit) {  // pin the schedule that was drawn
    judge(p, false);
    Plan q = p;
    q.rt.sched_explicit = true;
    q.rt.sw.assign(SH->sw, SH->sw + std::min<int>(SH->nsw, MAXSW));
    if (SH->nsw <= MAXSW && still(q, want)) p = q;
  }
  for (int round = 0; round < 3; round++) {
    size_t before = p.ops.size() + p.rt.sw.size();
    ddmin<Op>(p.ops, [&](const std::vector<Op>& o) { Plan q = p; q.ops = o; return still(q, want); });
    for (size_t i = 0; i < p.ops.size(); i++) {
      auto attempt = [&](std::function<void(Op&)> f) {
        Plan q = p;
        f(q.ops[i]);
        if (op_text(q.ops[i]) != op_text(p.ops[i]) && still(q, want)) { p = q; return true; }
        return false;
      };
      if (p.ops[i].sweep || p.ops[i].fault.kind)
        attempt([](Op& o) { o.sweep = 0; o.fault = Fault(); o.probe = false; });
      if (p.ops[i].sweep || p.ops[i].probe || p.ops[i].fault.kind > F_KTH) {
        for (int k = 0; k < 260; k++)
          if (attempt([k](Op& o) { o.sweep = 0; o.probe = false; o.fault = Fault{F_KTH, k, 0}; })) break;
      }
      attempt([](Op& o) { o.preset = 0; });
      attempt([](Op& o) { o.twice = 0; });
      if (p.ops[i].fault.kind) attempt([](Op& o) { o.retry = false; });
      if (p.ops[i].kind == K_CREATE || p.ops[i].kind == K_POKE) attempt([](Op& o) { o.style = 0; o.dseed = 1; });
      if (p.ops[i].kind == K_CREATE) attempt([](Op& o) { o.dmode = 0; });
    }
    if (!p.rt.sw.empty())
      ddmin<SwRec>(p.rt.sw, [&](const std::vector<SwRec>& o) { Plan q = p; q.rt.sw = o; return still(q, want); });
    auto cfg = [&](std::function<void(Plan&)> f) {
      Plan q = p;
      f(q);
      if (still(q, want)) p = q;
    };
    cfg([](Plan& q) { q.rt.policy = 0; });
    cfg([](Plan& q) { q.rt.fill = 0; });
    cfg([](Plan& q) { q.rt.clock_mode = 0; });
    cfg([](Plan& q) { q.rt.mem_seed = 1; });
    if (p.ops.size() + p.rt.sw.size() >= before) break;
  }
  return p;
}

static void replay_result(const Verdict& v, const Plan& p) {
  printf("hash=%016lx\n", v.hash);
  if (v.bad) printf("VIOLATES %s: %s\n", p.prop.c_str(), verdict_text(p, v).c_str());
  else printf("HOLDS\n");
}

int main(int argc, char** argv) {
  int per = personality(0xffffffff);
  if (!(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    personality(per | ADDR_NO_RANDOMIZE);
    setenv("SIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  // a fixed environment: stack contents and addresses must not depend on it
  std::map<std::string, std::string> o;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  SH = (Shared*)mmap((void*)0x210000000000ull, sizeof(Shared), PROT_READ | PROT_WRITE,
                     MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (SH == MAP_FAILED) { perror("shared"); return 3; }
  rt_init_arena();
  auto num = [&](const char* k, long long d) { return o.count(k) ? atoll(o[k].c_str()) : d; };

  if (mode == "batch") {
    std::string prop = o["--prop"];
    uint64_t seed = num("--seed", 1);
    uint64_t start = num("--start", 0), stride = num("--stride", 1), maxruns = num("--runs", 1000);
    double limit = now() + num("--secs", 20), t0 = now();
    std::string hashfile = o["--hashes"];
    FILE* hf = hashfile.empty() ? nullptr : fopen(hashfile.c_str(), "w");
    std::string sample;
    uint64_t done = 0, foreign_idx = ~0ull;
    Plan bad;
    Verdict bv;
    uint64_t f0 = 0;
    for (uint64_t i = start; done < maxruns && now() < limit; i += stride, done++) {
      Plan p = plan_generate(prop, seed, i);
      Verdict v = judge(p, true);
      if (hf) fprintf(hf, "%lu %016lx\n", i, v.hash);
      if (done < 1 || (done % 997 == 3 && sample.size() < 4000)) sample += plan_text(p);
      if (ACC.foreign > f0) { f0 = ACC.foreign; if (foreign_idx == ~0ull) foreign_idx = i; }
      if (v.bad) { bad = p; bv = v; done++; break; }
    }
    if (hf) fclose(hf);
    double el = now() - t0;
    std::string out = o["--out"];
    if (bv.bad) {
      bad.vkind = V_NAME[bv.v.kind];
      bad.vop = bv.opkind >= 0 ? KIND_NAME[bv.opkind] : "session";
      std::ofstream(out + ".plan") << plan_text(bad);
    }
    std::ofstream j(out);
    Acc& a = ACC;
    int edges = 0;
    for (char c : a.edge) edges += c;
    j << "{\"runs\":" << a.runs << ",\"child_runs\":" << a.child_runs << ",\"foreign\":" << a.foreign << ",\"irrelevant\":" << a.irrelevant << ",\"secs\":" << el
      << ",\"ops_done\":" << a.ops_done << ",\"ops_lib\":" << a.ops_lib << ",\"ops_ok\":" << a.ops_ok
      << ",\"ops_rejected\":" << a.ops_rejected << ",\"ops_faulted\":" << a.ops_faulted << ",\"ops_retried\":" << a.ops_retried
      << ",\"ops_skipped\":" << a.ops_skipped << ",\"events\":" << a.events << ",\"switches\":" << a.switches
      << ",\"allocs\":" << a.allocs << ",\"bytes\":" << a.bytes << ",\"model_checked\":" << a.model_checked
      << ",\"clock_jumps\":" << a.clock_jumps << ",\"clock_stalls\":" << a.clock_stalls << ",\"sim_seconds\":" << a.sim_seconds
      << ",\"conc_runs\":" << a.conc_runs << ",\"dropmasks\":" << a.dropmasks << ",\"dropelems\":" << a.dropelems
      << ",\"foreign_first\":" << (foreign_idx == ~0ull ? -1 : (long long)foreign_idx) << ",\"nguards\":" << g_nguards
      << ",\"edges\":" << edges;
    j << ",\"fired\":{";
    for (int i = 1; i < F_NKINDS; i++) j << (i > 1 ? "," : "") << "\"" << FAULT_NAME[i] << "\":[" << a.fired[i] << "," << a.fired_ops[i] << "]";
    j << "},\"opkinds\":{";
    bool first = true;
    for (int i = 0; i < K_NLIB; i++) { j << (first ? "" : ",") << "\"" << KIND_NAME[i] << "\":[" << a.opkind[i] << ',' << a.opok[i] << ',' << a.opmodel[i] << ',' << a.oprej[i] << ']'; first = false; }
    j << "},\"policy\":{";
    first = true;
    for (auto& kv : a.policy) { j << (first ? "" : ",") << "\"" << kv.first << "\":" << kv.second; first = false; }
    j << "},\"foreign_kinds\":{";
    first = true;
    for (auto& kv : a.foreign_kinds) { j << (first ? "" : ",") << "\"" << V_NAME[kv.first] << "\":" << kv.second; first = false; }
    j << "},\"sites\":{";
    first = true;
    for (auto& kv : a.sites) { j << (first ? "" : ",") << "\"" << std::hex << kv.first << std::dec << "\":[" << kv.second.first << "," << kv.second.second << "]"; first = false; }
    j << "}";
    auto dump = [&](const char* n, std::map<uint64_t, int>& m) {
      std::ofstream b(out + "." + n, std::ios::binary);
      for (auto& kv : m) b.write((const char*)&kv.first, 8);
    };
    dump("outcomes", a.outcomes);
    dump("scheds", a.scheds);
    dump("faultsigs", a.faultsigs);
    j << ",\"edge_bits\":\"";
    for (int i = 0; i < NEDGE; i += 4) {
      int v = 0;
      for (int k = 0; k < 4; k++) v |= (a.edge.empty() ? 0 : a.edge[i + k]) << k;
      j << "0123456789abcdef"[v];
    }
    j << "\",\"sample\":\"" << jesc(sample) << "\"";
    if (bv.bad) j << ",\"violation\":\"" << jesc(verdict_text(bad, bv)) << "\",\"index\":" << bad.index;
    j << "}\n";
    return bv.bad ? 10 : 0;
  }
  if (mode == "gen") {
    Plan p = plan_generate(o["--prop"], num("--seed", 1), num("--start", 0));
    fputs(plan_text(p).c_str(), stdout);
    return 0;
  }
  if (mode == "replay" || mode == "shrink" || mode == "trace") {
    std::ifstream f(o["--file"]);
    std::stringstream ss;
    ss << f.rdbuf();
    Plan p;
    std::string err;
    if (!plan_parse(ss.str(), p, err)) { printf("cannot read replay file: %s\n", err.c_str()); return 3; }
    if (o.count("--prop")) p.prop = o["--prop"];
    if (mode == "trace") {
      g_trace = true;
      setvbuf(stdout, nullptr, _IOLBF, 0);
      Verdict v = judge(p, false);
      replay_result(v, p);
      return v.bad ? 10 : 0;
    }
    Verdict v = judge(p, false);
    if (mode == "replay") {
      Verdict w = judge(p, false);
      if (w.hash != v.hash || w.bad != v.bad) { printf("NONDETERMINISTIC %016lx %016lx\n", v.hash, w.hash); return 4; }
      if (v.bad && !p.vkind.empty() && (p.vkind != V_NAME[v.v.kind] || p.vop != (v.opkind >= 0 ? KIND_NAME[v.opkind] : "session"))) {
        printf("note: the file says %s in %s\n", p.vkind.c_str(), p.vop.c_str());
      }
      replay_result(v, p);
      return v.bad ? 10 : 0;
    }
    if (!v.bad) { printf("HOLDS (nothing to shrink)\n"); return 4; }
    Plan q = shrink(p, v, (double)num("--secs", 60));
    Verdict w = judge(q, false);
    if (!same_class(v, w)) { q = p; w = v; }
    q.vkind = V_NAME[w.v.kind];
    q.vop = w.opkind >= 0 ? KIND_NAME[w.opkind] : "session";
    std::ofstream(o["--out"]) << plan_text(q);
    printf("%s\n", verdict_text(q, w).c_str());
    printf("shrunk: %zu -> %zu ops, %zu switches, %d candidate executions\n", p.ops.size(), q.ops.size(), q.rt.sw.size(), g_tries);
    return 10;
  }
  fprintf(stderr, "usage: sim batch|replay|shrink|trace|gen ...\n");
  return 3;
}
