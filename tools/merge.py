#!/usr/bin/env python3
"""Joins the evidence parts of one property (one per monitor binary) into evidence/<id>.json."""
import json, sys, os
pid, wall, parts = sys.argv[1], float(sys.argv[2]), sys.argv[3:]
ev, cov = None, {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "parts": [], "workloads": [], "events": {}, "oracle_evaluations": {}, "distinct_states": {}, "maxima": {}, "inconclusive": []}
rules, assume, viol = [], [], 0
for p in parts:
    f = f'/verif/build/parts/{pid}.{p}.json'
    if not os.path.exists(f): cov["inconclusive"].append(f"{p}: no result"); continue
    d = json.load(open(f)); c = d["coverage"]; ev = ev or d
    cov["parts"].append({"monitor": p, "evaluations": c["evaluations"], "wall_s": d["wall_s"]})
    for k in ("evaluations", "distinct_nontrivial"): cov[k] += c[k]
    for k in ("samples", "workloads", "inconclusive"): cov[k] += c[k]
    for k in ("events", "oracle_evaluations", "distinct_states", "maxima"): cov[k].update(c[k])
    if c["rule"]: rules.append(c["rule"])
    assume += [a for a in d["assumptions"] if a not in assume]; viol += d["violations"]
cov["rule"] = " | ".join(rules)
out = {"property": pid, "tier": ev["tier"] if ev else "quick", "seed": ev["seed"] if ev else 0, "level": "exploration", "coverage": cov, "assumptions": assume, "wall_s": wall, "violations": viol}
os.makedirs('/verif/evidence', exist_ok=True)
json.dump(out, open(f'/verif/evidence/{pid}.json', 'w'), indent=1)
