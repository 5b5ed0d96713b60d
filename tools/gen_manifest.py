#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from props import PROPS
NA = {}
nf = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(nf): NA = json.load(open(nf))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, evidence_file="evidence/%s.json" % i,
            technique=s.get("technique", "stateless bounded-exhaustive exploration of the real code against a reference model"),
            level=s["level"], level_note=s.get("note", "Every case within the stated bounds is executed on the real code, rebuilt from /repo, under ASan/UBSan and compared with an independent reference. Bounds: " + s["bounds"]["quick"] + ". Trusts the reference written from the property, the compiler and the sanitizers.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks in /repo are needed: the checks compile /repo/source with their own betterthreads stand-in", source_commits=[]),
    checks=checks, not_applicable=na, notes="check.py --replay <file> re-executes one recorded case."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
