#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the META of the checks and properties.jsonl."""
import ast, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NA = {"C26": "needs CUDA hardware and the CUDA tool chain; neither exists here, so no execution of the GPU code can be explored, and a model of it could not be bound to the code"}
PENDING = "check not built yet"
NOTE = {}


def meta(path):
    src = open(path).read()
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "META":
            env = {}
            return eval(compile(ast.Expression(n.value), path, "eval"), env)
    raise SystemExit("no META in " + path)


checks, na = [], []
for p in props:
    f = os.path.join(here, "vp", "checks", p.lower() + ".py")
    if p in NA or not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, PENDING)})
        continue
    m = meta(f)
    b = m["bounds"]
    note = "Bounds (quick): %s. Thorough: %s. Assumes: %s." % (
        b["quick"] if isinstance(b, dict) else b, b.get("thorough", "same") if isinstance(b, dict) else "same",
        "; ".join(m.get("assumptions", [])) or "nothing beyond the build")
    checks.append({"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "VERIF_TIER=thorough bin/check " + p,
                   "technique": m["technique"], "level": m.get("level", "model_checking"), "level_note": note})
out = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo. bin/check builds /repo's working tree out of tree under .build (plain, AddressSanitizer, scripted random numbers or controlled scheduler) and explores the real code; bin/check Cxx --replay FILE repeats one recorded violation."}
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
