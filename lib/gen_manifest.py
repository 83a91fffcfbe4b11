#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from proplist.py and props/."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V]
sys.dont_write_bytecode = True
from proplist import PROPS, NOT_APPLICABLE_PROPS  # noqa: E402

DEFAULT_NOTE = (
    "TLC checks the specification exhaustively within the stated constants and "
    "every transition of its state graph, plus seeded random walks, is executed "
    "on the code built from the working tree; TLC validates each recorded "
    "execution step by step. Assumes the driver's projection of the observable "
    "state is faithful; nothing is claimed beyond the explored histories.")
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
na = dict(NOT_APPLICABLE_PROPS)
checks, nal = [], []
for p in PROPS:
    i = p["id"]
    if i in na:
        nal.append({"property": i, "reason": na[i]})
    elif os.path.exists("%s/props/%s.py" % (V, i)):
        m = importlib.import_module("props." + i)
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": getattr(m, "TECHNIQUE",
                                 "TLA+ specification checked with TLC; model-generated histories run on the code; recorded traces validated by TLC"),
            "level": "model_checking",
            "level_note": getattr(m, "LEVEL_NOTE", DEFAULT_NOTE)})
    else:
        nal.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "bash lib/setup.sh", "checks": checks,
     "not_applicable": nal,
     "notes": "TLA+ with TLC. One specification module per component in spec/, "
              "explored exhaustively, walked at random, and used to validate the "
              "executions recorded by the drivers; see DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
assert all(len(p["title"]) <= 80 for p in PROPS), [p["title"] for p in PROPS if len(p["title"]) > 80]
print(len(checks), "checks,", len(nal), "not applicable")
