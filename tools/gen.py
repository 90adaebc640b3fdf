#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below and tools/targets.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from targets import TARGETS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "src/DRAMPower/DRAMPower/"
STD = [D + f"standards/{d}/{n}Core.cpp" for d, n in (("ddr4", "DDR4"), ("ddr5", "DDR5"), ("lpddr4", "LPDDR4"), ("lpddr5", "LPDDR5"), ("lpddr6", "LPDDR6"))]
IFC = [p.replace("Core.cpp", "Interface.cpp") for p in STD]
CORE = STD + [D + "dram/Rank.cpp", D + "dram/Bank.h", D + "util/cycle_stats.h", D + "util/ImplicitCommandHandler.h"]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None, tech="", note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m} for n, m in state],
                           "observe_at": list(observe), "hook_needed": hook}, _tech=tech, _note=note))
EXP = "Explicit-state and stateless exhaustive enumeration of executions of the real code, every one compared step by step with a reference model."
from props import define
define(prop, globals())
with open(V + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
claimed = {x for T in TARGETS.values() for x in T["props"]}
checks, na = [], []
for p in P:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + p["_tech"], "level": "model_checking", "level_note": p["_note"]})
    else: na.append({"property": i, "reason": p.get("_na", "no check built yet")})
missing = claimed - {p["id"] for p in P}
if missing: print("claimed but not described:", missing)
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "All checks compile /repo's working tree (content-addressed object cache under build/, never trusted across content changes). No hooks are needed in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
