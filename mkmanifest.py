#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = ("Exhaustive enumeration, within the bounds listed per harness in the evidence file, of executions of the real "
        "crate compiled from /repo with overflow and debug checks, each compared with an independent reference model. "
        "Trusted: the reference model, rustc, the bounds (values outside the alphabets are not claimed).")
T = {
    "state": "explicit-state model checking of the real code: breadth over all operation sequences with state deduplication against a reference model",
    "inputs": "bounded exhaustive model checking of the real code: all inputs, claims and parameters of a finite alphabet against a reference model",
    "hist": "bounded exhaustive model checking of the real code: all call histories and environment answers against a reference model",
    "sched": "stateless model checking of the real code: all thread schedules under a controlled scheduler, linearizability oracle",
}
kind = {i: "inputs" for i in ids}
for i in ("C01", "C31", "C35"):
    kind[i] = "state"
for i in "C13 C14 C15 C16 C17 C18 C19 C22 C23 C25 C26 C27 C30 C33 C36 C37 C38 C39".split():
    kind[i] = "hist"
kind["C24"] = "sched"
extra = {
    "C24": " Scheduling points are the crate's lock operations and accesses to the caller's resources; the crate is compiled against a "
           "facade of std::sync whose locks hand control to the scheduler. Sequentially consistent interleavings only.",
}
m = {
    "version": 1,
    "setup_cmd": "./check --build",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": T[kind[i]],
            "level": "model_checking",
            "level_note": NOTE + extra.get(i, ""),
        }
        for i in ids
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks use only the public API. C24 compiles /repo/src against a facade of std (sched/facade).",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
