#!/usr/bin/env python3
"""Writes MANIFEST.json from check.PLAN and properties.jsonl."""
import json, os, check
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
    "wrun": "stateless model checking of the compiled library: exhaustive enumeration of configurations and host-answer sequences within bounds, lock-step reference model",
    "mrun": "controlled-scheduler exploration of all rank interleavings and k-point distributions (model MPI)",
    "cmpi": "exhaustive enumeration of distributions/types on a controlled model MPI",
    "cla10": "exhaustive bounded enumeration of operands on the real routines against an exact oracle",
    "cla11": "exhaustive bounded enumeration of operands on the real routines against an exact oracle",
    "csmear": "exhaustive enumeration of an argument grid with all branch points against series/quadrature oracles",
    "cmv": "exhaustive enumeration of key sets and evaluation orders on the real templates",
    "wasan": "the same exploration with address and undefined-behaviour monitors on every execution",
    "masan": "exploration of k-point distributions on several ranks with the same monitors",
    "cmpiasan": "exhaustive enumeration of gathers with the same monitors",
    "cop": "exhaustive enumeration of shapes, layouts and k-point lists on the real templates",
    "cls": "exhaustive enumeration of answer sequences on the real line search and Newton search",
    "clog": "exhaustive enumeration of operation sequences on the real log writers against a state-machine model",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in check.PLAN:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i} --tier thorough",
        "technique": "; ".join(TECH[b] for b in check.PLAN[i]),
        "level": "model_checking",
        "level_note": "Exhaustive within the bounds stated in DESIGN.md and in the evidence file, executed on the real code compiled from /repo; nothing is sampled. Trusts the compiler, BLAS/LAPACK, the model host, the model MPI and the reference model in /verif/harness. CPU build only.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check rebuilds from /repo's working tree into /verif/build (content-addressed, git-ignored)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
