#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
from checks import PROPS, NOT_APPLICABLE
props = [json.loads(l) for l in open("properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(
            property=i, quick_cmd="python3 run.py check %s" % i,
            thorough_cmd="python3 run.py check %s" % i,
            evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection: " + c.get("technique", "seeded search over schedules and faults"),
            level="exploration",
            level_note=c.get("note", "Seeded search: no violation in the runs explored; says nothing about runs not explored. "
                             "Trusts the simulator's schedule, memory and fault models (DESIGN.md).")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 run.py build", checks=checks, not_applicable=na,
         notes="quick and thorough run the same command; VERIF_TIER selects the time budget and run lengths.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
