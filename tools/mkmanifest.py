#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from config import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = PROPS.get(i)
    if c is None or c.get("na"):
        na.append({"property": i, "reason": (c or {}).get("na") or "not claimed: the functions this property depends on are not under contract yet"})
        continue
    checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "technique": c.get("technique", "contracts on the real functions, discharged by Verus/Z3 on every run; concrete search as bounded complement"),
                   "level": c.get("level", "proof"), "level_note": c.get("level_note", "every obligation of the %d functions under contract discharged for all inputs; f64 arithmetic idealised" % len(c["own"] + c["deps"]))})
m = {"version": 1, "setup_cmd": "cd extract && cargo build --offline --quiet && cd ../probe && cargo build --offline --quiet", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
