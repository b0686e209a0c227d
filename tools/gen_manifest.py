#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in mc/props is claimed, the others are listed as not applicable."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    f = os.path.join(V, "mc", "props", i.lower() + ".py")
    if i in NA or not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "no check built yet in this revision")})
        continue
    src = open(f).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    tech = {"model_checking": "explicit-state breadth-first model checking of the real implementation against a reference model (bounded operation histories), plus exhaustive bounded enumeration",
            "exploration": "bounded exhaustive exploration of inputs and configurations on the real implementation against a reference model",
            "fault_enumeration": "exhaustive fault injection: every interrupt point of bounded histories on the real implementation"}[level]
    note = re.search(r'^LEVEL_NOTE = \(?"(.*?)"\)?$', src, re.M | re.S)
    checks.append({"property": i, "quick_cmd": "./run_check.py %s quick" % i, "thorough_cmd": "./run_check.py %s thorough" % i,
                   "technique": tech, "level": level,
                   "level_note": note.group(1) if note else "Exhaustive within the bounds written in the module and in the evidence file; matrix entries and k points are fixed generic reals.",
                   "evidence_file": "evidence/%s.json" % i})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import numpy, scipy, skimage; print(numpy.__version__)'", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: everything is driven through the public API. VERIF_REPO may point the checks at another tree for development; the registered commands use /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
