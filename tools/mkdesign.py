#!/usr/bin/env python3
# Writes /verif/DESIGN.md: head + one section per property + defects + seeded bugs.
import json, os, re
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
import sys; sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
D = {}
exec(open(H + "/design_notes.py").read(), D)
out = [open(H + "/design_head.md").read()]
out.append("\n## The properties, one by one\n\nWorkloads as `name quick/thorough cases`. `Reaches`: what tests cannot.\n")
for p in props:
    i = p["id"]; c = CHECKS[i]
    out.append("### %s %s\n" % (i, p["title"]))
    wl = "; ".join("%s: %s" % (e["name"], ", ".join("%s %s/%s" % tuple(l) for l in e["loads"])) for e in c["exes"])
    out.append("*Runs*: %s\n\n*Workloads* (%s): %s\n" % (c["rule"], "san " + ", ".join(sorted({e.get("san", "asan") for e in c["exes"]})), wl))
    n = D["N"][i]
    for k in ("Oracle", "Bounds", "Reaches"):
        if k in n: out.append("*%s*: %s\n" % (k, n[k]))
    out.append("*Must observe*: " + ", ".join("%s >= %d" % kv for kv in c.get("expect", {}).items()) + "\n")
out.append(D["TAIL"])
out.append("\n## Planted bugs and what catches them\n\nEach was written from the property and the code, verified with its demo.sh, and run against the property's quick check. `first missed` ones led to the strengthening named.\n")
out.append("| bug | check | what it breaks | first run |\n|---|---|---|---|")
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % b))
    out.append("| %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "\\|"), D["MISSED"].get(b, "caught")))
out.append("")
out.append(D["DROPPED"])
open(V + "/DESIGN.md", "w").write("\n".join(out))
