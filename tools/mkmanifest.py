#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built worlds."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = {
 "C01": "deterministic simulation: seeded thread scheduler over multistart, verdict against the list of results",
 "C02": "deterministic simulation: seeded thread scheduler with throwing solves and failing thread creation",
 "C03": "deterministic simulation: seeded thread scheduler with vector-clock race detection, each thread compared with running alone",
 "C04": "deterministic simulation: simulated clock, stalls and deadlines injected at any point, compared with the uninterrupted history",
 "C05": "deterministic simulation: iteration limits injected at any point, compared with the uninterrupted history",
 "C06": "deterministic simulation: stop requests injected at any callback, compared with the uninterrupted history",
 "C07": "deterministic simulation: random histories of registrations and interrupted solves against a list model of callbacks",
 "C08": "deterministic simulation: interrupted and faulted solves, exit status checked against an independent KKT oracle",
 "C09": "deterministic simulation: NaN, infinity and exceptions injected at any evaluation, bounded progress and exact convergence oracle",
 "C10": "deterministic simulation: solves aborted at any point, then compared bit for bit with freshly built problems",
 "C11": "deterministic simulation: random allocation histories with aborted solves, conservation against a model of the pool",
 "C12": "deterministic simulation: simulated disk with injected faults, bytes compared with a reference writer",
 "C13": "deterministic simulation: the same solve under different simulated environments, compared bit for bit",
 "C14": "deterministic simulation: random histories with aborted solves against a reference evaluator",
 "C15": "deterministic simulation: injected evaluation faults and interruptions, feasibility checked at every iterate",
 "C16": "deterministic simulation: every callback's snapshot under injected faults checked against a reference evaluator",
 "C21": "deterministic simulation: allocations failing at any point of any operation, compared bit for bit with an unfaulted shadow",
 "C22": "deterministic simulation: attempts aborted by injected faults at any point, then bounded progress to the known solution",
 "C23": "deterministic simulation: captured output of solves on simulated clocks compared with the recorded history",
 "C24": "deterministic simulation: attempts aborted by injected faults at any point, every iterate and evaluated point checked against the bounds, then bounded progress to the known solution",
 "C17": "deterministic simulation: receding-horizon loop with disturbances, deadlines and stops against an independent integrator",
}
NA = {
 "C18": "A pure function of the expression: no schedule, clock, fault, I/O or history enters it, so deterministic simulation has nothing to vary; it would only be input generation in simulator vocabulary.",
 "C19": "A pure function of its operands: index and matrix algebra without any schedule, clock, fault or interleaving for a simulator to decide.",
 "C20": "A pure function of one matrix; the factorization object's only state is the last regularization. Deciding inertia for arbitrary matrices is numerical analysis, not simulation; the effect of a wrong inertia on solves is covered by C08/C09.",
}
LEVEL = ("Seeded sampling of runs, not enumeration: a clean batch is strong evidence within the generated problems, workloads, faults and schedules, not a proof. "
         "Every violation is re-executed twice, minimised and reproduced by a fresh process from its replay file before it is reported. "
         "Trusts: the harness's reference model and simulated environment, g++-14 -O1, Eigen 3.4 and the stand-in for gch::small_vector.")
worlds = dict(re.findall(r'"(C\d\d)": \("(\w+\.cpp)"', open(f"{V}/check").read()))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f"{V}/sim/{worlds[i]}"):
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration", "level_note": LEVEL})
    else:
        na.append({"property": i, "reason": "Not claimed: its simulated world has not been built yet."})
json.dump({"version": 1, "setup_cmd": "python3 --version && g++-14 --version", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "SLEIPNIR_POOL_FREED", "enable": "-DSIM_POOL_HOOK: shim/prelude.hpp then defines SLEIPNIR_POOL_FREED(p, bytes), called with every block given back to the expression pool (poisoned by sim/seams.cpp)", "source_commits": ["277f4db"]},
           "notes": "One hook in /repo (freed expression storage is poisoned); every other seam is a C-library symbol, a user callback or a public solver entry point. Each check builds what it needs from /repo's working tree (about 20 s) into /verif/.build."},
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
