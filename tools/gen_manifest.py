#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
fl = {}
for c in CHECKS.values():
    for r in c["runs"]:
        if r["flavour"] != "script":
            fl.setdefault(r["flavour"], set()).add(r["driver"])
setup = "python3 tools/build.py " + " ".join("%s:%s" % (f, ",".join(sorted(d))) for f, d in sorted(fl.items()))
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c: continue
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/check.py %s" % p["id"],
                       thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                       technique=c.get("technique") or ("runtime monitoring: " + "; ".join(sorted({{"asan": "ASan+UBSan build", "tsan": "ThreadSanitizer build", "plain": "plain build", "script": "scripted runs"}[r["flavour"]] for r in c["runs"]})) + " under generated workloads, reference-model oracle over observed results"),
                       level=c["level"], level_note=c.get("note") or ("Held on the executions generated from the seed; counts and observed events are in the evidence file. " + ("Assumes: " + "; ".join(c["assumptions"]) if c["assumptions"] else ""))))
m = dict(version=1, setup_cmd=setup, checks=checks,
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in CHECKS])
hooks = os.path.join(V, "tools", "hooks.json")
if os.path.exists(hooks): m["hooks"] = json.load(open(hooks))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import importlib.util
print(len(checks), "checks;", len(m["not_applicable"]), "not claimed")
