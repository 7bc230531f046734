#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "explicit enumeration of a bounded operand space, real code in lockstep with a reference model"
NOTE = ("Every case of the finite operand spaces listed in the evidence is executed on the library built from /repo and compared with "
        "GMP; the argument beyond the bounds is that the spaces cover every length class, algorithm switch and carry pattern of the code. "
        "Trusted: GMP, compiler, libstdc++.")
T = {p: (ENUM, "model_checking", NOTE) for p in [f"C{i:02d}" for i in range(1, 16)]}
for p in ("C02", "C04", "C05"):
    T[p] = (ENUM + "; the same with scaled-down algorithm thresholds", "model_checking", NOTE + " A second exhaustive run uses the library built with its thresholds scaled down (hook), so that recursion, Karatsuba and Barrett are entered with a few limbs.")
NA = []
exec(open(os.path.join(HERE, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "manifest_more.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "BIGINTEGERCPP_MC_THRESHOLD", "enable": "-DBIGINTEGERCPP_MC_THRESHOLD=4 when compiling src/ (only the 'scaled' variants; all other variants build /repo without any hook)",
               "source_commits": ["3ab013c"]},
     "checks": [{"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
                 "technique": T[p][0], "level": T[p][1], "level_note": T[p][2]} for p in props if p in T],
     "not_applicable": NA + [{"property": p, "reason": "its check is not built yet"} for p in props if p not in T and p not in [n["property"] for n in NA]]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
