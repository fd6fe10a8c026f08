#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIMED: property -> (technique, level note)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "Bounded exhaustive exploration of the real code through its public API (no hooks, no model of the code); "
CLAIMED = {
 "C01": ("exhaustive length x basis enumeration against the reference model", BASE + "decides the linear map at every length within the bound for f32/f64 up to rounding; assumes linearity (C18) and the textbook reference model."),
 "C02": ("exhaustive length x basis enumeration against the reference model", BASE + "decides the linear map at every length within the bound for f32/f64 up to rounding; assumes linearity (C18) and the textbook reference model."),
 "C03": ("exhaustive length x basis enumeration against the reference model", BASE + "decides the linear map at every length within the bound for f32/f64 up to rounding; assumes linearity (C18) and the textbook reference model."),
}
import importlib.util
extra = os.path.join(V, "tools", "manifest_extra.py")
if os.path.exists(extra):
    spec = importlib.util.spec_from_file_location("x", extra); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    CLAIMED.update(m.claimed(BASE))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
man = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [
  {"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
   "evidence_file": f"evidence/{p}.json", "technique": "model checking: " + CLAIMED[p][0],
   "level": "model_checking", "level_note": CLAIMED[p][1]}
  for p in props if p in CLAIMED],
 "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in CLAIMED],
 "notes": "No hooks in /repo: the checks use the public API, custom element types and mock components. See DESIGN.md.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
