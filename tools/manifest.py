"""Write MANIFEST.json from the list of built checks."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ("Contracts on the real functions, symbolically executed from /repo's current source for array axes of any length; "
        "every obligation discharged by z3 / exact polynomial algebra. Reals for floats; contracts of numpy, quaternion, scipy "
        "operations are trusted and cross-checked by bounded concrete trials (labelled bounded in the evidence).")
EXTRA = {}
p = os.path.join(H, "tools", "notes.json")
if os.path.exists(p):
    EXTRA = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(H, "contracts", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i,
                       "technique": "contract-based deductive verification (symbolic execution of the instrumented source, SMT/polynomial obligations)",
                       "level": "proof", "level_note": NOTE + (" " + EXTRA[i] if i in EXTRA else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, sympy' && /opt/venv/bin/python -c 'import numpy, quaternion'",
     "checks": checks, "not_applicable": na,
     "notes": "Findings (repaired and open) are in known_findings.txt; see DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "na")
