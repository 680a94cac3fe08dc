"""Writes MANIFEST.json from the harnesses that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i + ".py")):
        checks.append(dict(
            property=i, quick_cmd=f"python3-vt run.py {i} quick", thorough_cmd=f"python3-vt run.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="path-complete symbolic execution of the repository's Python source, z3 deciding every branch and assertion; counterexamples replayed on the real code",
            level="model_checking",
            level_note="Every path of the real functions within the bounds in the evidence file, for all real values of the symbolic inputs; floats "
                       "are reals with tolerances; math/numpy/plotly/Django are stand-ins; every path witnessed or sampled on the real code."))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3-vt -m compileall -q symex props >/dev/null 2>&1; true",
         hooks=dict(guard="none", enable="no hooks: the checks load the unmodified source", source_commits=[]),
         checks=checks)
if na:
    m["not_applicable"] = na
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
