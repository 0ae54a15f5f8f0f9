#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present in vf/props and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "P37": "accuracy of a numerical ODE integrator relative to the exact solution is a quantitative runtime fact of scipy's error control; no static argument in reach bounds it (P17 decides statically that the integrator is used on the right problem)",
    "P38": "global optimality of an iterative closest-point search and inversion of arc length hold only up to floating tolerances and data-dependent geometry; nothing static bounds them",
    "P39": "geometric correctness of ray casting against arbitrary polygons is decided inside GEOS and by sampling resolution, quantities no static argument over this source bounds",
}
TECH = {}
exec(open(os.path.join(HERE, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "vf", "props", i + ".py")):
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": f"python3 /verif/check.py {i} --tier quick", "thorough_cmd": f"python3 /verif/check.py {i} --tier thorough",
                       "technique": t, "level": LEVEL.get(i, "other"), "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 -m compileall -q vf check.py", "checks": checks, "not_applicable": na,
     "notes": "All checks read /repo/src afresh on every run; nothing of /repo is executed or built. Known findings and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
