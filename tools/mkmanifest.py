"""MANIFEST.json from the check modules"""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C13": "exhaustive crash and write fault enumeration of the real command (kill at every executed line and call, every torn write length)",
    "C24": "stateless model checking of the real code: all two thread interleavings up to a preemption bound under a controlled scheduler",
    "C25": "explicit enumeration of all call sequences to a depth on the real code against results of a fresh process",
    "C11": "explicit enumeration of all operation sequences to a depth on the real code, compared state by state with a model",
}
DEFAULT = "bounded exhaustive enumeration of executions of the real code, each compared with an independent reference model"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
checks, missing = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        missing.append(p)
        continue
    vals = {}
    for n in ast.parse(open(f, encoding="utf-8").read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "BOUNDS"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=TECH.get(p["id"], DEFAULT), level=vals["LEVEL"],
                       level_note="complete within: " + vals["BOUNDS"]["quick"]))
m = dict(version=1, setup_cmd="./check selftest", checks=checks,
         not_applicable=[dict(property=p["id"], reason="check not built yet") for p in missing])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
print(len(checks), "checks", [p["id"] for p in missing])
