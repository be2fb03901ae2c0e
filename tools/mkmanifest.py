#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = ("solver-based translation validation: the program's bytecode, emitted by the real compiler, is executed symbolically "
      "(z3) next to a reference evaluator of the source; inputs are symbolic")
INFO = json.load(open(os.path.join(V, "tools", "checks.json"), encoding="utf8"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf8")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i in INFO:
        d = INFO[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3-vt run.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3-vt run.py {i}",
                       "technique": d.get("technique", TV), "level": d.get("level", "translation_validation"),
                       "level_note": d["note"]})
    else:
        na.append({"property": i, "reason": INFO.get(i, {}).get("na", "no check built yet; see DESIGN.md for the plan")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import z3; print(z3.get_version_string())\"", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf8"), indent=1, ensure_ascii=False)
print([c["property"] for c in checks])
