"""writes MANIFEST.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(H, "tools", "levels.json")))
checks = []
for p in ids:
    lv, note = NOTES.get(p, ["exploration", ""])
    c = os.path.exists(os.path.join(H, "contracts", p.lower() + ".py"))
    tech = "contract-based deductive verification (VCs generated from the real source; z3/cvc5/ring normaliser)" if c else ""
    tech += ("; " if c else "") + "runtime contracts on the real code as bounded stand-in and replay oracle"
    checks.append({"property": p, "quick_cmd": f"python3 run.py {p} --tier quick", "thorough_cmd": f"python3 run.py {p} --tier thorough",
                   "technique": tech, "level": lv, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": [],
     "notes": "no hooks in /repo; every check reads /repo's working tree and builds the kernel in a scratch directory"}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
