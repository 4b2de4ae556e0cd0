#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module checks/<id>.py is claimed."""
import importlib.util, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here + "/lib", here + "/checks"]
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(here + "/properties.jsonl"):
    p = json.loads(line)["id"]
    f = "%s/checks/%s.py" % (here, p.lower())
    if not os.path.exists(f):
        na.append({"property": p, "reason": "no check has been built for it yet"}); continue
    m = importlib.import_module(p.lower())
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 run.py %s" % p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p,
                   "technique": getattr(m, "TECHNIQUE", "TLA+ specification model-checked with TLC; recorded tool runs validated against it (trace validation)"),
                   "level": "model_checking",
                   "level_note": getattr(m, "NOTE", "Exhaustive for the specification within the constants of its models; for the code, every recorded run is decided by the specification (bounded-exhaustive small inputs plus random and directed ones). Trusts gcc, TLC, the Python driver that runs the tools and reads their output layout.")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "Specification: spec/*.tla (TLA+, TLC). No hooks in /repo are needed: the tools expose the abstract state."},
          open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
