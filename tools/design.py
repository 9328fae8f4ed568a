#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in, the property definitions, the known findings and the planted changes."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.path.insert(0, V + "/tools")
import registry
from propdefs import PROPS, NOT_APPLICABLE
import designtext as T

out = open(V + "/tools/DESIGN.in").read()
ps = []
for p in PROPS:
    c = registry.CHECKS[p["id"]]
    x = T.PROPS.get(p["id"], {})
    ps.append("### %s %s\n\n%s\n\n- Quantified over: %s.\n- Decided by: %s.\n- Workload: %s\n- Must be met in every run: %s.\n- %s\n%s" % (
        p["id"], p["title"], p["statement"], p["forall"], p["technique"], c["rule"],
        ", ".join("`%s`" % r for r in c.get("required", [])) or "(non-trivial cases)", "Beyond the tests: " + p["tests"],
        "".join("- %s\n" % n for n in ([x] if isinstance(x, str) else x))))
for n in NOT_APPLICABLE:
    ps.append("### %s: not applicable\n\n%s\n" % (n["property"], n["reason"]))
kf = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.startswith("{")]
fx = ["- " + k["entry"][len("fixed: property="):] for k in kf if k["status"] == "fixed"]
kn = ["- %s: %s" % (k["property"], k["what"]) for k in kf if k["status"] == "known"]
if kn:
    fx += ["", "Recorded, not repaired (reported as KNOWN-FINDING):", ""] + kn
rows = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], T.CAUGHT.get(d, m["property"])))
for k, v in (("PROPS", "\n".join(ps)), ("FIXES", "\n".join(fx)), ("SEEDED", "\n".join(rows)), ("JUDGE", T.JUDGE), ("STRENGTHENED", T.STRENGTHENED)):
    out = out.replace("@@%s@@" % k, v)
open(V + "/DESIGN.md", "w").write(out)
