#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in this directory."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.path.insert(0, V + "/tools")
import registry
from propdefs import PROPS, NOT_APPLICABLE

W = "src/waymo_open_dataset/"


def full(p):
    return p if p.startswith(("docs/", "src/", "tutorial/", "README", "LOG")) else W + p


with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["forall"]),
                 why_tests_cant=p["tests"],
                 anchors=dict(files=[full(x) for x in p["files"]],
                              mechanism=[dict(name=n, where=full(w)) for n, w in p["mech"]],
                              observe_at=p.get("observe", []), hook_needed=None))
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")

checks, na = [], list(NOT_APPLICABLE)
for p in PROPS:
    if p["id"] not in registry.CHECKS:
        assert any(n["property"] == p["id"] for n in na), p["id"]
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                       technique=p["technique"], level="exploration", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0, 'lib'); import registry\"",
         checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
