#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    s = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 vrun.py %s" % i,
        "thorough_cmd": "python3 vrun.py %s --tier thorough" % i,
        "technique": s.get("technique", "differential runtime monitoring against an independent reference, under AddressSanitizer and UBSan"),
        "level": "exploration",
        "level_note": s.get("note", "Observes real executions of seeded random and fixed workloads; says nothing about inputs not generated. Trusts the reference model in /verif/harness and the compiler's sanitizers."),
    })
json.dump({"version": 1, "setup_cmd": "python3 -c \"import checks\" && clang++ --version", "checks": checks, "not_applicable": na,
           "notes": "Needs no hooks in /repo: the library is header-only and its machine tables are observable through its interface. Each check compiles its drivers from /repo/include on every run. See DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
