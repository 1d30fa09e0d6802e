#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the header constants of checks/*.py."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(V, "lib"), V]
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        if getattr(m, "NOT_READY", False):
            na.append({"property": i, "reason": m.NOT_READY})
            continue
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet (not a limit of the method)"})
man = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
       "notes": "Specifications are TLA+ checked by TLC (spec/); drivers in harness/ are compiled from /repo's working tree by every check. No hooks in /repo are needed: everything is observed through the public interface."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [n["property"] for n in na], "not")
