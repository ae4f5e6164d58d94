#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C21": "no clingo Python module is installed (the bindings import it), so the Python layer cannot be executed here at all; it is a thin cffi wrapper without scheduling, time or faults of its own. The C interface behind it is simulated under the other properties.",
 "C22": "parsing an option value or a term is a pure function of its input: there is no schedule, clock, fault or interleaving for a simulator to control. The consequences inside a simulated system (options taking effect per thread, bad input rejected cleanly) are covered by C05, C11, C14 and C15.",
}
NOTE = {
 "C01": "Seeded search; every value of every reported solution is checked against an independent evaluation of the constraint text.",
 "C02": "Seeded search; each complete enumeration is compared with a brute-force enumeration of the program.",
 "C03": "Seeded search; every clause is checked against all theory-consistent assignments of the constraint literals (small programs).",
 "C04": "Seeded search; a Bellman-Ford oracle is evaluated at every propagation fixpoint and decision.",
 "C05": "Seeded search; an all-pairs shortest path oracle is evaluated at every conflict-free fixpoint.",
 "C06": "Seeded search; values of equal sets of enforced constraints are compared over several configurations and searches.",
 "C07": "Seeded search over histories of steps; each solve is compared with brute force over the accumulated program.",
 "C08": "Seeded search over interleavings at basic-block granularity; each thread's transcript is replayed alone and compared, and a happens-before-free access log finds unsynchronised sharing.",
 "C09": "Seeded search; the sequence of solutions, the published values and the end are compared with the true minimum found by brute force.",
 "C10": "Seeded search over programs and the position of the failing allocation in each kind of call.",
 "C11": "Seeded search over programs, the position of a failing solver call and kinds of malformed input.",
 "C12": "Seeded search over stop points; after each stop the search is repeated and compared with brute force.",
 "C13": "Seeded search; counters are compared with the work observed by the simulated solver on the simulated clock.",
 "C14": "Seeded search; each decide callback is compared with the documented rule.",
 "C15": "Seeded search; the transcript of each instance is compared with the one it has alone in a process.",
 "C16": "Seeded search; the assignment interface is walked at models and at arbitrary instants and compared with the oracle.",
 "C17": "As C01 and C02 for real-valued constraints with integer, dyadic and decimal weights; strictness and comparisons up to 1e-9.",
 "C18": "Seeded search; a ledger of all allocations of the library has to return to its level after each repetition, with and without faults.",
 "C19": "Seeded search; basic blocks per call are bounded by a polynomial of the instance, and complete searches have to end within a bound.",
 "C20": "Seeded search; each complete enumeration with shifting is compared with brute force over the unshifted program.",
 "C24": "Seeded search; each scenario is executed twice in processes that differ in the contents and addresses of fresh memory (heap and stack), the clocks and random numbers only, and every call with its arguments is compared.",
 "C23": "Seeded search; every clause is classified by thread, level and mode, the order of constraints is observed through the conflict of a batch, and the work of initialisation is bounded on the simulated clock.",
}
have = subprocess.run([os.path.join(V, "build/asan/sim"), "list"], stdout=subprocess.PIPE, text=True).stdout.split()
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = []
for i in ids:
    if i in have:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules, searches and faults)",
            "level": "exploration",
            "level_note": NOTE[i] + " Sampling only; trusts the simulated solver as a stand-in for clasp and the oracle in sim/."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not finished")})
json.dump({"version": 1, "setup_cmd": "python3 sim/Makefile.py asan race plain", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the library's calls into clingo are redirected at link time (objcopy), see DESIGN.md."},
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
