#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and suites.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import suites
props = [json.loads(x) for x in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in suites.PROPS:
        s = suites.PROPS[i]
        mods = sorted({m["module"] for m in s.get("models", [])})
        traces = sorted({x["trace"] for x in s.get("parts", [])} | set(s.get("trace_modules", [])))
        checks.append(dict(
            property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
            evidence_file="evidence/%s.json" % i, level="model_checking",
            technique="TLA+/TLC: " + ("design model checking (%s), tests from its transitions; " % ", ".join(mods) if mods else "") +
                      "trace validation of the real code (%s)" % ", ".join(traces),
            level_note="The design is checked within small constants; the code is bound to it by validating recorded histories, so assurance on the code is that of the histories played. Assumes: " +
                       "; ".join(s.get("assumptions", [])) + "."))
    else:
        na.append(dict(property=i, reason=suites.NOT_APPLICABLE.get(i, "not built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks: everything is observed through the public API. Repairs in /repo are the fix: commits listed in known_findings.txt.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
