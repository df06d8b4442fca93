#!/usr/bin/env python3
"""merge_evidence.py OUT PART...: one evidence file from the runs of a check."""
import json, sys
parts = []
for p in sys.argv[2:]:
    try:
        parts.append(json.load(open(p)))
    except FileNotFoundError:
        pass
if not parts:
    sys.exit(1)
out = parts[0]
if len(parts) > 1:
    cov = {}
    for p in parts:
        c = p["coverage"]
        for k, v in c.items():
            if k not in cov:
                cov[k] = v
            elif k == "exhaustive":
                cov[k] = cov[k] and v
            elif k == "max_depth":
                cov[k] = max(cov[k], v)
            elif isinstance(v, bool):
                pass
            elif isinstance(v, (int, float)):
                cov[k] += v
            elif isinstance(v, list):
                cov[k] = cov[k] + v
            elif isinstance(v, dict):
                cov[k] = {**v, **cov[k]}
            elif isinstance(v, str) and v not in cov[k]:
                cov[k] = cov[k] + " || " + v
    out = dict(parts[0], coverage=cov, wall_s=sum(p["wall_s"] for p in parts),
               violations=sum(p["violations"] for p in parts),
               assumptions=sorted({a for p in parts for a in p["assumptions"]}))
json.dump(out, open(sys.argv[1], "w"), indent=1)
