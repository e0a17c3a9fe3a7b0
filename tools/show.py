#!/usr/bin/env python3
"""Show replays: tools/show.py replays/P02-0.json [-p]: schedule tree, clause, programs."""
import json, sys

d = json.load(open(sys.argv[1]))
print(d["clause"], str(d["detail"])[:3000])
c = d["replay"]["case"]
for i, n in enumerate(c.get("nodes", []), 1):
    if n["k"] == "sched":
        print(i, "sched", "reps", n["reps"])
        for j, it in enumerate(n["items"], 1):
            print("    ", j, "->", it["n"], it["cons"])
    else:
        print(i, json.dumps(n)[:400])
for i, p in enumerate(c.get("pcs", []), 1):
    print("pc", i, p)
if "-p" in sys.argv:
    for s in c["seqs"]:
        print("SEQ pc", s["pc"], s["sett"], s["acqs"])
        for i, x in enumerate(s["prog"], 1):
            print("  ", i, x["op"], [{"i": "", "r": "R", "l": "@"}[a["k"]] + str(a["v"]) for a in x["a"]])
