"""Writes MANIFEST.json from properties.jsonl and the checks' own TECHNIQUE / NOTE strings."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "property-based testing: Hypothesis-generated cases against "
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(V, "checks", p.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": "no check written yet"})
        continue
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECHNIQUE", "NOTE"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": p, "quick_cmd": f"./check {p} quick",
                   "thorough_cmd": f"./check {p} thorough",
                   "evidence_file": f"evidence/{p}.json",
                   "technique": TECH + v["TECHNIQUE"], "level": "exploration",
                   "level_note": v["NOTE"] + " Search over generated inputs: it can miss a "
                   "violation, and it never claims one without a failing input, which the replay "
                   "file reproduces."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Each check builds /repo's working tree into a private scratch directory (about 6 s) "
              "and removes it afterwards. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
