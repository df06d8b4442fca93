#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when it is in TECH."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "bounded exhaustive enumeration of operation histories of the real code (explicit-state model checking), checked against a reference model"
CONC = "stateless model checking of the real code under a controlled scheduler (every interleaving of the scenario up to commutation of independent steps, sleep-set partial-order reduction; race detection and linearizability check per schedule)"
TECH = {
 "P01": SEQ, "P02": SEQ, "P03": SEQ,
 "P04": "explicit-state reachability to a bounded size/depth over the real structures, with the skip list's random level choice enumerated as a nondeterministic action, against a sorted-multiset model",
 "P05": "explicit-state reachability over the real trees (every reachable shape up to the bound) with depth invariants checked in each state",
 "P06": "enumeration of ultimately periodic histories (lassos) of the real code with a retained-heap invariant",
 "P07": SEQ, "P08": SEQ, "P09": SEQ, "P10": SEQ, "P11": SEQ,
 "P12": SEQ, "P13": CONC, "P14": CONC, "P15": SEQ + "; and " + CONC, "P16": CONC, "P23": SEQ + "; and " + CONC,
 "P20": "exhaustive enumeration of the outcomes of every random draw (the generator is a nondeterministic choice point of the explorer) on the real code, with exact counting of the resulting samples",
 "P17": SEQ, "P18": SEQ, "P19": SEQ, "P21": SEQ, "P22": SEQ, "P24": SEQ,
 "P25": "enumeration of patterned and ultimately periodic histories (lassos) of the real code compiled with step counters, with a growth invariant on the steps of every call between two sizes of the state",
}
NOTE = {
 "*": "exhaustive within the stated bounds (operations alphabet, depth, window sizes); nothing is claimed beyond them",
}
PENDING = {}
try:
    exec(open(os.path.join(here, "tools", "manifest_more.py")).read())
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in TECH:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": TECH[i], "level": "model_checking", "level_note": NOTE.get(i, NOTE["*"])})
    else:
        m["not_applicable"].append({"property": i, "reason": PENDING.get(i, "the check for this property is still being built")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
