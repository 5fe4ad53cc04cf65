#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, runs seeded simulated
executions for one property on all cores, and decides:
  exit 0  nothing explored speaks against the property
  exit 1  a line "VIOLATION property=<id> replay=<path>"
A violation counts only once its minimised plan has been replayed twice, in
fresh processes, with the same verdict and the same event-log hash.
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))

# per property: quick runs per worker, cap in seconds (quick), thorough seconds
BUDGET = {
    "C06": (1200, 100, 600), "C12": (3500, 100, 600), "C08": (2000, 100, 900),
}
DEFAULT_BUDGET = (3500, 100, 600)

RULE = {
    "default": "a case is one simulated execution: a seeded history of library calls on up to 64 tensors, with the allocation "
               "placement policy, the contents of fresh memory, the clock, the random source and every injected fault drawn from "
               "(seed, run); two runs are distinct when the digest over every call's status and every result differs; the digest of "
               "a run that executed nothing is one value, so at most one trivial run is counted",
    "C08": "a case is one simulated execution in which 2 to 4 callers work on disjoint tensors, pre-empted at loads and stores the "
           "scheduler picks; distinct = distinct sequences of (caller, event, next caller) switch points among the runs that "
           "switched inside a library call at least once",
    "C06": "a case is one plan executed three times from the same calls with different contents of fresh memory, different placement "
           "of blocks, and with or without unrelated earlier calls; distinct = distinct digests over every call's status and result",
    "C15": "a case is one seeded history of constructions, copies, moves, assignments, replacements and destructions over 26 handle "
           "slots; distinct = distinct digests over the reference counts and contents after every step",
}
ASSUME = [
    "the compiler's address sanitizer reports accesses outside live blocks truthfully",
    "fresh memory, its placement, time, randomness and the order of callers come only through the calls listed in sim/redefine.txt "
    "(and operator new/delete for C15); anything else the code might consult is not varied",
    "exploration samples: a quiet run is evidence about the executions it made, not a proof",
]
COMPONENTS = {
    "real": "every file of src/ (and for C15 auto_test/) compiled from the working tree, including the header-inline accessors",
    "stub": "libc heap and the installable allocator (simulated arena), time(), rand()/srand() (libc's own generator behind a "
            "seam), mutexes/once, thread scheduling (real threads, one runs at a time, the scheduler decides)",
}


def log(*a):
    print(*a, flush=True)


def known_findings(prop, exe, tmp):
    """replay every recorded finding; the bits of those that still fail"""
    bits = 0
    try:
        lines = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
    except FileNotFoundError:
        return 0
    for line in lines:
        m = re.match(r"known: property=(\S+) plan=(\S+) bit=(\d+) (.*)", line)
        if not m or m.group(1) != prop:
            continue
        r = subprocess.run([exe, "replay", "--file", os.path.join(HERE, m.group(2)), "--prop", prop], capture_output=True,
                           text=True, cwd=tmp)
        if r.returncode == 10:
            bits |= int(m.group(3))
            log(f"KNOWN-FINDING: property={prop} {m.group(4)}")
        else:
            log(f"recorded finding no longer fails, searched like everything else: {m.group(4)}")
    return bits


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="aitisa_sim_")
    procs = []

    def cleanup(*_):
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)

    def on_term(sig, frame):
        cleanup()
        os._exit(3)

    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    try:
        return run(prop, tier, seed, t0, tmp, procs)
    finally:
        cleanup()


def build(prop, tmp):
    which = "handles" if prop == "C15" else "sim"
    env = dict(os.environ)
    if prop == "C07":  # accesses have to stay inside by themselves, not because an assertion ends the process first
        env["SIM_DEFS"] = "-DNDEBUG"
    r = subprocess.run(["bash", f"{HERE}/bin/build_{which}.sh", tmp, REPO], capture_output=True, text=True, env=env)
    exe = f"{tmp}/{which}"
    if r.returncode or not os.path.exists(exe):
        log("cannot build the simulator from the working tree:")
        log((r.stderr or r.stdout)[-3000:])
        sys.exit(3)
    return exe


def gate(exe, tmp, prop, plan, out):
    """shrink, then the same file twice in fresh processes: same verdict, same hash"""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cand = []
    r = subprocess.run([exe, "shrink", "--file", plan, "--prop", prop, "--out", out + ".min", "--secs", "60"],
                       capture_output=True, text=True, cwd=tmp)
    if r.returncode == 10:
        cand.append(out + ".min")
    cand.append(plan)
    for c in cand:
        res = []
        for _ in range(2):
            q = subprocess.run([exe, "replay", "--file", c, "--prop", prop], capture_output=True, text=True, cwd=tmp)
            res.append((q.returncode, q.stdout))
        if res[0][0] == 10 and res[0] == res[1]:
            shutil.copyfile(c, out)
            if os.path.exists(out + ".min"):
                os.unlink(out + ".min")
            return res[0][1].strip().splitlines()[-1], r.stdout.strip()
    if os.path.exists(out + ".min"):
        os.unlink(out + ".min")
    return None, r.stdout


def merge(results):
    tot = {}
    for j in results:
        for k, v in j.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if k in ("nguards",):
                    tot[k] = v
                elif k == "secs":
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
            elif isinstance(v, dict):
                d = tot.setdefault(k, {})
                for kk, vv in v.items():
                    if isinstance(vv, list):
                        old = d.get(kk, [0] * len(vv))
                        d[kk] = [a + b for a, b in zip(old, vv)]
                    else:
                        d[kk] = d.get(kk, 0) + vv
    edges = 0
    bits = 0
    for j in results:
        bits |= int(j["edge_bits"][::-1] or "0", 16)
    edges = bin(bits).count("1")
    tot["edges"] = edges
    return tot


def uniq(tmp, name):
    s = set()
    for w in range(WORKERS):
        try:
            b = open(f"{tmp}/w{w}.{name}", "rb").read()
        except FileNotFoundError:
            continue
        s.update(struct.unpack(f"{len(b)//8}Q", b[: len(b) // 8 * 8]))
    return len(s)


def symbolize(exe, pcs):
    out = {}
    if not pcs:
        return out
    base = 0x555555554000
    r = subprocess.run(["addr2line", "-e", exe] + [hex(int(p, 16) - base - 1) for p in pcs], capture_output=True, text=True)
    for p, l in zip(pcs, r.stdout.splitlines()):
        out[p] = l.replace(REPO + "/", "").split(" (")[0]
    return out


def run(prop, tier, seed, t0, tmp, procs):
    exe = build(prop, tmp)
    tb = time.time() - t0
    runs, cap, deep = BUDGET.get(prop, DEFAULT_BUDGET)
    secs = cap
    if tier == "thorough":
        runs, secs = 10 ** 9, int(os.environ.get("SIM_SECS", deep))
    known = known_findings(prop, exe, tmp)
    started = time.time()
    for w in range(WORKERS):
        wd = f"{tmp}/d{w}"
        os.mkdir(wd)
        procs.append(subprocess.Popen(
            [exe, "batch", "--prop", prop, "--seed", str(seed), "--start", str(w), "--stride", str(WORKERS), "--runs", str(runs),
             "--secs", str(secs), "--out", f"{tmp}/w{w}"] + (["--known", str(known)] if known else []),
            cwd=wd, stdout=open(f"{tmp}/log{w}", "w"), stderr=subprocess.STDOUT, start_new_session=True))
    pending = set(range(WORKERS))
    broken, verdict, ungated = [], None, []
    while pending and not verdict:
        for w in sorted(pending):
            rc = procs[w].poll()
            if rc is None:
                continue
            pending.discard(w)
            if rc == 10:
                plan = f"{tmp}/w{w}.plan"
                idx = json.load(open(f"{tmp}/w{w}"))["index"]
                out = f"{HERE}/evidence/replays/{prop}-s{seed}-r{idx}.plan"
                line, note = gate(exe, tmp, prop, plan, out)
                if line:
                    verdict = (out, line, note)
                    break
                ungated.append((w, note))
            elif rc != 0:
                broken.append((w, rc))
        time.sleep(0.05)
    if verdict:
        for p in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
        for p in procs:
            p.wait()
    explore = time.time() - started
    results = []
    for w in range(WORKERS):
        try:
            results.append(json.load(open(f"{tmp}/w{w}")))
        except (FileNotFoundError, ValueError):
            pass
    tot = merge(results) if results else {}
    nruns = int(tot.get("runs", 0))
    outcomes, scheds, faultsigs = uniq(tmp, "outcomes"), uniq(tmp, "scheds"), uniq(tmp, "faultsigs")
    sites = tot.get("sites", {})
    sym = symbolize(exe, list(sites))
    per_site = {}
    for p, (a, f) in sites.items():
        k = sym.get(p, p)
        if "/sim/" in k or k.startswith("??"):
            continue
        o = per_site.setdefault(k, [0, 0])
        o[0] += a
        o[1] += f
    hours = max(explore, 1e-9) / 3600.0
    cov = {
        "evaluations": int(tot.get("child_runs", 0)) if prop == "C06" else nruns,
        "distinct_nontrivial": scheds if prop == "C08" else outcomes,
        "rule": RULE.get(prop, RULE["default"]),
        "samples": [j.get("sample", "")[:1500] for j in results[:2]],
        "simulated_runs": nruns,
        "executions_including_counterfactuals": int(tot.get("child_runs", 0)),
        "runs_per_hour": int(nruns / hours),
        "seeds": f"master seed {seed}, runs 0..{max(nruns - 1, 0)} (each run has its own generator derived from both)",
        "seeds_per_hour": int(nruns / hours),
        "library_calls": int(tot.get("ops_lib", 0)),
        "calls_accepted": int(tot.get("ops_ok", 0)),
        "calls_rejected": int(tot.get("ops_rejected", 0)),
        "calls_checked_against_model": int(tot.get("model_checked", 0)),
        "calls_hit_by_a_fault": int(tot.get("ops_faulted", 0)),
        "retries_after_a_fault": int(tot.get("ops_retried", 0)),
        "allocation_failures_by_kind": {k: v[0] for k, v in tot.get("fired", {}).items()},
        "calls_failed_by_kind": {k: v[1] for k, v in tot.get("fired", {}).items()},
        "distinct_fault_signatures": faultsigs,
        "allocation_sites_reached": len(per_site),
        "allocation_sites_failed_at_least_once": sum(1 for a, f in per_site.values() if f),
        "allocation_sites_never_failed": sorted(k for k, v in per_site.items() if not v[1])[:40],
        "simulated_seconds": int(tot.get("sim_seconds", 0)),
        "clock_reads_jumping": int(tot.get("clock_jumps", 0)),
        "clock_reads_stalled": int(tot.get("clock_stalls", 0)),
        "instrumented_events": int(tot.get("events", 0)),
        "concurrent_runs": int(tot.get("conc_runs", 0)),
        "preemptions": int(tot.get("switches", 0)),
        "distinct_interleavings": scheds,
        "distinct_outcomes": outcomes,
        "placement_policies": tot.get("policy", {}),
        "calls_by_operation": {k: {"calls": v[0], "accepted": v[1], "results_compared_with_the_model": v[2], "rejected_as_documented": v[3]}
                               for k, v in tot.get("opkinds", {}).items()} if prop != "C15" else tot.get("opkinds", {}),
        "control_flow_edges_reached": int(tot.get("edges", 0)),
        "control_flow_edges_total": int(tot.get("nguards", 0)),
        "dropout_masks_drawn": int(tot.get("dropmasks", 0)),
        "dropout_elements_drawn": int(tot.get("dropelems", 0)),
        "observations_belonging_to_other_properties": tot.get("foreign_kinds", {}),
        "observations_passed_over": int(tot.get("irrelevant", 0)),
        "components": COMPONENTS,
        "build_s": round(tb, 2),
        "workers": WORKERS,
    }
    if verdict:
        cov["violation"] = verdict[1]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": 1 if verdict else 0}
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    log(f"{prop}: {nruns} simulated runs, {cov['library_calls']} calls, {cov['calls_hit_by_a_fault']} hit by faults, "
        f"{outcomes} outcomes, {scheds} interleavings, {explore:.0f} s (+{tb:.0f} s build)")
    if verdict:
        out, line, note = verdict
        log(line)
        log(note.splitlines()[-1] if note else "")
        log(f"replay with: bash {HERE}/bin/replay.sh {out}")
        log(f"VIOLATION property={prop} replay={out}")
        return 1
    for w, note in ungated:
        log(f"worker {w} saw something that did not replay identically; not reported as a violation: {note[:300]}")
    if broken:
        for w, rc in broken:
            log(f"worker {w} ended with {rc}:")
            log(open(f"{tmp}/log{w}").read()[-1000:])
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
