#!/usr/bin/env python3
"""Decides one property by seeded simulation.

check.py PROPERTY [--tier quick|thorough] [--seconds N] [--workers N]
exit 0: held on everything explored, 1: violation (VIOLATION line), 2: error of the check
"""
import argparse, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))

# seconds of search per worker (quick, thorough)
TIME = {"default": (30, 900)}
VARIANTS = {"C08": ("asan", "race"), "C15": ("asan", "race"), "C24": ("plain", "asan")}

FAULTS = {
    "fault_interrupt_inside": "search interrupted while a callback propagates", "fault_absent_thread": "thread not started before an interrupt",
    "fault_alloc": "failed allocation", "fault_api": "failed call into clingo", "fault_interrupt": "search interrupted",
    "fault_model_limit": "stopped by model limit", "fault_client_stop": "stopped by the model callback",
    "fault_clock_jump": "clock jump", "fault_stall": "stalled thread", "fault_bad_input": "malformed input",
    "fault_callback_error": "failing client callback", "thread_switches": "preemptions", "restarts": "restarts of the search",
    "forgotten_clauses": "forgotten clauses", "thread_count_changes": "thread count changed between steps",
    "shared_clauses": "clauses delivered to other threads", "repeat_compared": "other memory contents, addresses and clock",
}
REAL = ["libclingo-dl (all sources, compiled from the working tree with AddressSanitizer and coverage hooks)",
        "app (main.cc, where the application is driven)", "clingo.hh wrapper", "libclingo: parser, grounder, symbols, AST, configuration"]
STUB = ["clasp's search: simulated CDNL solver (decisions, backjumps, restarts, clause forgetting and exchange, thread schedule drawn from the seed)",
        "theory propagator interface, models, statistics and theory atom interface (simulated on top of the observed ground program)",
        "std::chrono::steady_clock (simulated)", "operator new and delete (ledger, injected failures)", "clingo_main (simulated driver)"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SIM_WORKERS", "8")))
    a = ap.parse_args()
    start = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    print("check %s tier %s VERIF_SEED %d" % (a.prop, a.tier, seed), flush=True)
    import importlib.util
    spec = importlib.util.spec_from_file_location("simbuild", os.path.join(VERIF, "sim", "Makefile.py"))
    sb = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(sb)
    variants = VARIANTS.get(a.prop, ("asan",))
    bins = [sb.build(v) for v in variants]
    secs = a.seconds or TIME.get(a.prop, TIME["default"])[0 if a.tier == "quick" else 1]
    out = os.path.join(VERIF, "build", "out", a.prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    procs = []
    per = max(1, a.workers // len(bins))
    for vi, b in enumerate(bins):
        for i in range(per):
            o = os.path.join(out, "%s.%d.json" % (variants[vi], i))
            env = dict(os.environ, SIM_MINIMISE=os.environ.get("SIM_MINIMISE", "30"))
            # the variants share the sequence of seeds but not the seeds themselves
            procs.append((variants[vi], b, o, subprocess.Popen(
                [b, "worker", a.prop, str(seed + 1000003 * vi), str(i), str(per), str(secs), o], env=env,
                stdout=subprocess.DEVNULL, stderr=open(o + ".err", "w"))))
    first = None
    pending = list(procs)
    while pending:
        for p in list(pending):
            rc = p[3].poll()
            if rc is None:
                continue
            pending.remove(p)
            if rc == 1 and first is None:
                first = p
                # one violation is enough
                for q in pending:
                    q[3].terminate()
        time.sleep(0.05)
    results, errors = [], []
    for v, b, o, p in procs:
        if p.returncode < 0 and first is not None:
            continue
        try:
            results.append((v, b, json.load(open(o))))
        except (OSError, ValueError):
            errors.append("worker %s ended with status %d: %s" % (o, p.returncode, open(o + ".err").read()[-500:]))
            continue
        if p.returncode not in (0, 1):
            errors.append(results[-1][2].get("info", "?"))
    violation = None
    for v, b, r in results:
        if r["verdict"] == "violation":
            # a fresh process has to reproduce it
            for _ in range(3):
                q = subprocess.run([b, "replay", r["replay"]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
                if q.returncode == 1:
                    break
            if q.returncode == 1:
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                path = os.path.join("replays", "%s-%d.replay" % (a.prop, seed))
                with open(r["replay"], errors="replace") as f, open(os.path.join(VERIF, path), "w") as g:
                    g.write("variant: %s\n" % v + f.read())
                violation = (path, r["info"])
                break
            errors.append("violation is not reproduced by a fresh process: " + r["info"])
    total = lambda k: sum(r[k] for _, _, r in results)
    counters, with_ = {}, {}
    for _, _, r in results:
        for k, (n, w) in r["counters"].items():
            counters[k] = max(counters.get(k, 0), n) if k.endswith("_max") else counters.get(k, 0) + n
            with_[k] = with_.get(k, 0) + w
    def union(k):
        s = set()
        for _, _, r in results:
            s.update(r[k])
        return s
    wall = time.time() - start
    search = max([r["wall"] for _, _, r in results] or [1])
    cov = {v: len(set(x for vv, _, r in results for x in r["cov"] if vv == v)) for v in variants}
    covt = {v: max([r["cov_total"] for vv, _, r in results if vv == v] or [0]) for v in variants}
    runs = total("runs") if results else 0
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(union("nthashes")) if results else 0,
            "rule": "one evaluation is one simulated run (program, configuration, search, schedule and faults drawn from one seed); "
                    "it is non-trivial if the scenario's own condition holds (the theory derived something or solutions were compared, "
                    "and the fault, stop, step or thread interaction the property is about happened); distinct by the hash of the event log",
            "samples": [s for _, _, r in results for s in r["samples"]][:4] or ["no non-trivial run"],
            "seeds": runs,
            "runs_per_hour": int(runs / max(search, 0.001) * 3600),
            "nontrivial_runs": total("nontrivial") if results else 0,
            "inconclusive_runs": total("inconclusive") if results else 0,
            "runs_executed_twice": total("repeats") if results else 0,
            "runs_not_repeatable": total("unrepeatable") if results else 0,
            "notes": [n for _, _, r in results for n in r["notes"]][:5],
            "simulated_seconds": round(sum(r["sim_ns"] for _, _, r in results) / 1e9, 1),
            "distinct_event_logs": len(union("hashes")) if results else 0,
            "distinct_interleavings": len(union("scheds")) if results else 0,
            "interleaving_measure": "hash of the sequence of (thread switched to, number of basic blocks executed)",
            "faults": {d: {"fired": counters.get(k, 0), "runs": with_.get(k, 0)} for k, d in FAULTS.items() if counters.get(k, 0) > 0},
            "probes": {k: {"total": n, "runs": with_.get(k, 0)} for k, n in sorted(counters.items()) if k not in FAULTS},
            "basic_blocks_of_repo_reached": {v: "%d of %d" % (cov[v], covt[v]) for v in variants},
            "real_code": REAL, "stubs": STUB,
        },
        "assumptions": ["sampling: a clean batch is evidence, not proof",
                        "the simulated solver stands for clasp: every behaviour it draws is one the propagator interface allows",
                        "weights are small enough that sums do not overflow"],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    known = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(known):
        for line in open(known):
            if line.startswith("known: property=%s " % a.prop):
                print("KNOWN-FINDING: " + line[len("known: "):].strip())
    print("%d runs, %d non-trivial, %d inconclusive, %.0f s" % (
        runs, ev["coverage"]["distinct_nontrivial"], ev["coverage"]["inconclusive_runs"], wall))
    if violation:
        print(violation[1][:2000])
        print("replay with: python3 replay.py %s" % violation[0])
        print("VIOLATION property=%s replay=%s" % (a.prop, violation[0]))
        return 1
    if errors or not results or runs == 0:
        sys.stdout.write("ERROR: " + "\n".join(errors[:3]) + "\n")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
