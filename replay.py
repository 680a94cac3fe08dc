"""Replays a counterexample on the real package:  replay.py <file.json>   (exit 1 when it is reproduced)."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(path):
    d = json.load(open(path))
    from symex.concrete import run_concrete
    m = importlib.import_module("props." + d["property"])
    job = [j for j in m.jobs(d.get("tier", "quick")) if j["name"] == d["job"]]
    r = run_concrete(job[0]["harness"], job[0].get("params", {}), d["inputs"], d["choices"])
    print(json.dumps(dict(violations=r["violations"], error=r["error"]), indent=1, default=str))
    hit = [v for v in r["violations"] if v["label"] == d["label"]] or r["violations"]
    return (1, hit[0]) if hit else (0, None)


if __name__ == "__main__":
    rc, v = main(sys.argv[1])
    print("REPRODUCED" if rc else "NOT REPRODUCED", v or "")
    sys.exit(rc)
