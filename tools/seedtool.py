"""Builds /verif/seeded from tools/seeds.py: every change is confirmed in a scratch copy first.
   seedtool.py build [id...]   patch + demo, tests pass, demo fails with and passes without the change
   seedtool.py check [id...]   run the property's quick check against the changed copy"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
PY = "/opt/venv/bin/python"
SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$D/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))


def stable(ws):
    out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "--junitxml=" + ws + "/../junit.xml"], ws,
             dict(PYTHONPATH=ws, PYTHONDONTWRITEBYTECODE="1", SECRET_KEY="x"))
    return out.returncode == 0, out.stdout[-400:]


def workspace():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    ws = d + "/repo"
    shutil.copytree("/repo", ws, symlinks=True)
    return d, ws


def apply(ws, changes):
    for f, old, new in changes:
        p = os.path.join(ws, f)
        t = open(p).read()
        if t.count(old) != 1:
            return f"{f}: {t.count(old)} matches of {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    return None


def original(ws):
    """The changed lines belong to the original repository."""
    base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()
    bad = []
    for l in sh("git diff -U0", ws).stdout.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        if l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            n, k = int(a[0]), int(a[1]) if len(a) > 1 else 1
            for i in range(n, n + k):
                b = sh(f"git blame -l -L {i},{i} HEAD -- {f}", "/repo").stdout
                if base[:30] not in b and not b.startswith("^"):
                    bad.append(b.strip()[-80:])
    return bad


def build(s):
    d, ws = workspace()
    try:
        e = apply(ws, s["changes"])
        if e:
            return "APPLY " + e
        bad = original(ws)
        out = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(sh("git diff", ws).stdout)
        open(out + "/demo.sh", "w").write(SH)
        open(out + "/demo.py", "w").write(s["demo"].lstrip())
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r = []
        if bad:
            r.append(f"NOT ORIGINAL {bad}")
        ok, msg = stable(ws)
        if not ok:
            r.append("TESTS " + msg)
        a = sh(["bash", out + "/demo.sh"], "/repo", timeout=300)
        b = sh(["bash", out + "/demo.sh"], ws, timeout=300)
        if a.returncode:
            r.append("DEMO fails on clean: " + a.stderr[-300:])
        if not b.returncode:
            r.append("DEMO passes with the change")
        if not r:
            r.append("ok   (" + (b.stderr.strip().splitlines() or ["?"])[-1][:100] + ")")
        return "; ".join(r)
    finally:
        shutil.rmtree(d)


def check(s):
    d, ws = workspace()
    try:
        e = apply(ws, s["changes"])
        if e:
            return "APPLY " + e
        p = sh(["python3-vt", "run.py", s["property"], "quick"], HERE, dict(VERIF_REPO=ws, VERIF_TIER="quick"), timeout=900)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        i = p.stdout.find("VIOLATION")
        return ("CAUGHT " if p.returncode == 1 and v else f"MISSED rc={p.returncode} ") + (p.stdout[i:i + 260].replace("\n", " ") if i >= 0 else p.stdout[-300:] + p.stderr[-200:])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    from seeds import SEEDS
    ids = sys.argv[2:]
    for s in SEEDS:
        if not ids or s["id"] in ids:
            print(s["id"], dict(build=build, check=check)[sys.argv[1]](s), flush=True)
