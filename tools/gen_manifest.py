"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
NA = {
    "N01": "pure function of its input: no schedule, history, clock, I/O or fault to simulate; needs numerical analysis or proof, not simulation",
    "N02": "pure function of its input: a derivative identity at a point; nothing for a scheduler or fault injector to decide",
    "N03": "pure function of its input: scalar formulas without state or faults",
    "N04": "pure function of robot and joint values; the stateful, reentrant side of kinematics is claimed as C20",
}
NOTE = {}
exec(open(os.path.join(D, "tools", "notes.py")).read(), NOTE)
NOTE = NOTE["NOTE"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(D, "sim", "props", i.lower() + ".py")):
        tech, note = NOTE[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           technique="deterministic simulation with fault injection: " + tech, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="check not built yet in this revision"))
m = dict(version=1, setup_cmd="true",
         hooks=dict(guard="none", enable="no hooks in /repo: every seam is reached from outside (torch dispatch mode, subclassing, module attribute replacement inside the simulated process)", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Pure Python on top of the installed torch: checks import /repo's working tree directly, nothing to build. One VERIF_SEED decides every generated run; ./replay FILE re-executes a violation.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [c["property"] for c in checks])
