import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
note = {}
exec(open(here + "/tools/levels.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif not os.path.exists(f"{here}/sim/scen_{i.lower()}.cpp"):
        na.append(dict(property=i, reason="check under construction"))
    else:
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough", evidence_file=f"evidence/{i}.json",
                           technique="deterministic simulation with fault injection: " + TECH[i], level="exploration", level_note=LEVEL + NOTE.get(i, "")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks were added to /repo: scheduling points come from compiler instrumentation, every other source of nondeterminism is interposed at link time (see DESIGN.md).")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
