"""Behaviour-preserving rewrites of the package, for testing that the checks stay quiet (a development aid, no check uses it).

   refactors.py make PACK DIR     copy of /repo in DIR/repo with the rewrites of the pack (A, B, C, ...) applied
   refactors.py run PACK [IDS]    make it, run the repository's tests, then the quick checks (all, or IDS) on it
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PS, UT, DV, VW = "pyslope/pyslope.py", "pyslope/utilities.py", "pyslope/data_validation.py", "slope/views.py"


def body(path, name, cls=None):
    """(start, end) character offsets of a function's statements (after the docstring) in path."""
    import ast
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    scope = tree.body
    if cls:
        scope = next(n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == cls).body
    fn = next(n for n in scope if isinstance(n, ast.FunctionDef) and n.name == name)
    stm = fn.body
    if isinstance(stm[0], ast.Expr) and isinstance(stm[0].value, ast.Constant) and isinstance(stm[0].value.value, str):
        stm = stm[1:]
    a = stm[0].lineno - 1
    b = fn.end_lineno
    return src, sum(map(len, lines[:a])), sum(map(len, lines[:b]))


def replace_body(path, name, new, cls=None):
    src, a, b = body(path, name, cls)
    ind = "        " if cls else "    "
    txt = "\n".join(ind + l if l.strip() else "" for l in new.strip("\n").split("\n")) + "\n"
    open(path, "w").write(src[:a] + txt + src[b:])


def apply(ws, pack):
    for item in pack:
        p = os.path.join(ws, item[0])
        if len(item) == 3 and item[1].startswith("@"):       # (file, "@Class.function", new body)
            cls, _, fn = item[1][1:].rpartition(".")
            replace_body(p, fn, item[2], cls or None)
        else:
            t = open(p).read()
            assert t.count(item[1]) == 1, (item[1], t.count(item[1]))
            open(p, "w").write(t.replace(item[1], item[2]))


def make(pack, d):
    import importlib
    sys.path.insert(0, os.path.join(HERE, "tools"))
    mod = importlib.import_module("refactor_packs")
    ws = d + "/repo"
    shutil.copytree("/repo", ws, symlinks=True)
    apply(ws, mod.PACKS[pack])
    return ws


def tests(ws):
    env = dict(os.environ, PYTHONPATH=ws, PYTHONDONTWRITEBYTECODE="1", SECRET_KEY="x")
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov"], cwd=ws, env=env, capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-1500:]


def main():
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3])
        return
    d = tempfile.mkdtemp(prefix="rf.", dir="/tmp")
    try:
        ws = make(sys.argv[2], d)
        ok, out = tests(ws)
        print("tests", ok, "" if ok else out, flush=True)
        if not ok:
            return
        ids = sys.argv[3:] or [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
        for i in ids:
            t = time.time()
            r = subprocess.run(["python3-vt", "run.py", i, "quick"], cwd=HERE, env=dict(os.environ, VERIF_REPO=ws), capture_output=True, text=True)
            tail = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "NO ANSWER", "not reproduced", "KNOWN")) or "undecided" in l or "without answer" in l]
            print(i, r.returncode, f"{time.time()-t:.0f}s", " | ".join(t[:220] for t in tail[:4]), r.stdout.splitlines()[-1][:200] if r.stdout else r.stderr[-300:], flush=True)
    finally:
        subprocess.run(["/bin/rm", "-rf", d])


if __name__ == "__main__":
    main()
