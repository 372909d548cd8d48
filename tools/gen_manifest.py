#!/opt/veriftools/pyvenv/bin/python
"""Writes /verif/MANIFEST.json from the plans."""
import json
import os
import sys
sys.dont_write_bytecode = True
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from harness import plan
checks = []
for i in sorted(plan.PLAN):
    p = plan.PLAN[i]()
    note = "Within: " + p["bounds"] + ". Not covered: " + p["outside"] + ". Assumes: " + "; ".join(p["assumptions"]) + "."
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt -B check.py %s --tier quick" % i,
        "thorough_cmd": "python3-vt -B check.py %s --tier thorough" % i,
        "technique": "symbolic execution of the Python source with z3: all paths within bounds, counterexamples replayed on the real package",
        "level": "model_checking",
        "level_note": note})
m = {"version": 1,
     "setup_cmd": "python3-vt -B -c 'import z3, ast; print(z3.get_version_string())' && /opt/venv/bin/python -c 'import rlp, Crypto'",
     "checks": checks, "not_applicable": []}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks))
