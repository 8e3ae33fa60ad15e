"""Writes MANIFEST.json from tools/props.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(f"{V}/tools/props.json"))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for i in ids:
    p = props.get(i)
    if p is None or p.get("not_applicable"):
        na.append(dict(property=i, reason=(p or {}).get("not_applicable", "the contracts for the functions this property depends on are not written yet")))
        continue
    checks.append(dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough",
                       technique=p.get("technique", "contracts on the real code, discharged by Verus (Z3); bounded replay to find failing inputs"),
                       level=p.get("level", "proof"),
                       level_note=p.get("note", "All functions listed under functions_under_contract in the evidence are proved for all inputs; trusted: the assumed contracts listed in trusted_base.")))
json.dump(dict(version=1, setup_cmd="python3 tools/prep.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo. See DESIGN.md."), open(f"{V}/MANIFEST.json", "w"), indent=1)
