#!/usr/bin/env python3
"""the properties, and whether a check claims them: writes properties.jsonl and MANIFEST.json"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a), note, na))
exec(open(os.path.join(V, "tools", "proplist.py")).read())
TECH = "stateless model checking of the real code: exhaustive exploration of schedules / inputs / environment choices within bounds"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P: f.write(json.dumps(p) + "\n")
checks, nas = [], []
for p, note, na in P:
    if na: nas.append({"property": p["id"], "reason": na}); continue
    assert glob.glob(os.path.join(V, "h", p["id"] + "*.cpp")), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 conform.py 3 --setup", "checks": checks, "not_applicable": nas,
     "notes": "No hooks in /repo: the checks compile /repo's working tree with -fsanitize=thread callbacks answered by the engine in /verif/engine. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(nas), "not claimed")
