"""Writes MANIFEST.json from the spec modules present and properties.jsonl."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
BASE = ("symbolic execution of the compiled library's LLVM bitcode, obligations decided by z3")
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "spec", i.lower() + ".py")
    if i in NA or not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "the check for this property is not built yet")})
        continue
    ns = {}
    src = open(f).read()
    note = src.split('LEVEL_NOTE = """', 1)[1].split('"""', 1)[0].strip() if 'LEVEL_NOTE = """' in src else \
        "every symbolic input value within the stated bounds is covered by a solver verdict; bounds and what lies outside them are in DESIGN.md and in the evidence file"
    checks.append({"property": i, "quick_cmd": "python3-vt run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3-vt run.py " + i,
                   "technique": BASE, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3-vt engine/build.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
