"""Undoes each repair of known_findings.json in a scratch copy of /repo and runs the quick check of its property there: it must report it again
   (a development aid, no check uses it).   unfix.py [COMMIT...]"""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    d = tempfile.mkdtemp(prefix="uf.", dir="/tmp")
    try:
        ws = d + "/repo"
        subprocess.run(["cp", "-a", "/repo", ws], check=True)
        for f in json.load(open(HERE + "/known_findings.json")):
            if f["status"] != "fixed" or (sys.argv[1:] and f["commit"] not in sys.argv[1:]):
                continue
            subprocess.run(["git", "-C", ws, "reset", "-q", "--hard"], check=True)
            r = subprocess.run(["git", "-C", ws, "revert", "-n", "-X", "theirs", f["commit"]], capture_output=True, text=True)
            if r.returncode:
                subprocess.run(["git", "-C", ws, "revert", "--abort"], capture_output=True)
                print(f["property"], f["commit"], "conflict", flush=True)
                continue
            r = subprocess.run(["python3-vt", "run.py", f["property"], "quick"], cwd=HERE, env=dict(os.environ, VERIF_REPO=ws), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if not l.startswith(("VIOLATION", "KNOWN"))]
            print(f["property"], f["commit"], "reported" if r.returncode == 1 else f"MISSED ({r.returncode})", v[0].strip()[:160] if v else "", flush=True)
    finally:
        subprocess.run(["/bin/rm", "-rf", d])


if __name__ == "__main__":
    main()
