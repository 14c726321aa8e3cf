#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NOTE = ("Holds on every execution the run observed, no claim beyond. Drivers are compiled from /repo's working tree twice "
        "(ASan+UBSan+libstdc++ assertions, and -O2 as shipped); an oracle independent of the library judges each result. ")
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py check " + i,
            thorough_cmd="VERIF_TIER=thorough python3 run.py check " + i, evidence_file="evidence/%s.json" % i,
            technique=c.get("technique", "runtime monitoring: result oracle over generated workloads, under ASan/UBSan"),
            level="exploration", level_note=NOTE + "; ".join(c.get("assumptions", []))))
    else:
        na.append(dict(property=i, reason="no check built yet (not claimed)"))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="run.py builds drivers/*.cc against /repo at check time; see DESIGN.md.")
if "--hooks" in sys.argv or os.path.exists(os.path.join(R, "tools", "hooks.json")):
    m["hooks"] = json.load(open(os.path.join(R, "tools", "hooks.json")))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
