"""DESIGN.md from tools/design_*.md, the check modules and the planted bugs"""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")


def read(n):
    return open(os.path.join(T, n), encoding="utf-8").read()


METHOD = ast.literal_eval(read("design_methods.py"))
NOTES = ast.literal_eval(read("design_seeds.py"))
out = [read("design_intro.md"), "## Properties and how each is decided\n\n"]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f, encoding="utf-8"))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
for p in props:
    i = p["id"]
    v = {}
    for n in ast.parse(open(os.path.join(V, "checks", i.lower() + ".py"), encoding="utf-8").read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "BOUNDS", "ASSUME"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    m = METHOD[i]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n")
    out.append(f"- *Enumerated:* {v['RULE']}.\n- *Oracle:* {m[0]}\n- *Beyond the tests:* {p['why_tests_cant']}\n")
    out.append(f"- *Quick ({m[1]}):* {v['BOUNDS']['quick']}.\n- *Thorough ({m[2]}):* {v['BOUNDS']['thorough']}.\n- *Assumed:* {'; '.join(v['ASSUME'])}.\n\n")
out.append("## Planted bugs\n\nEach is in `seeded/` with a patch, a demonstration and what it needs. All pass the 33 tests. \"by\" names the checks that report it "
           "(quick tier).\n\n| bug | needs | by | note |\n|---|---|---|---|\n")
for i in sorted(seeds):
    for n, d in seeds[i]:
        by, note = NOTES.get(n, (i, ""))
        out.append(f"| {n} | {d['needs']} | {by} | {note} |\n")
fixed = sum(l.startswith("fixed:") for l in open(os.path.join(V, "known_findings.txt"), encoding="utf-8"))
out.append("\n" + read("design_end.md").replace("FIXED", str(fixed)))
open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8").write("".join(out))
print(len(props), "properties", sum(map(len, seeds.values())), "planted bugs")
