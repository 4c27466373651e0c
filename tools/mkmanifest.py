#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    "C30": "eigenpy and the Python bindings cannot be built here (no eigenpy, no pinocchio); the bindings cannot be executed.",
    "C31": "CppAD/CppADCodeGen are not installed here: the code generator cannot be compiled or executed.",
}
TODO = "Not claimed yet: the specification and its conformance check for this property are still to be built."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        m = importlib.import_module("checks." + i)
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": getattr(m, "TECHNIQUE", "TLA+ specification checked with TLC; trace validation of the real code"),
                       "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, TODO)})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "Specifications in spec/ (TLA+, TLC); drivers in harness/drivers; no hooks in /repo. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
