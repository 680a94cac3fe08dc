"""Decides one property:  run.py <ID>   (tier from VERIF_TIER, seed from VERIF_SEED).

exit 0: held on everything explored;  exit 1 + VIOLATION line: a counterexample was replayed on the real code;
exit 2: no answer (budget, unsupported code, or a counterexample that does not replay)."""
import importlib
import json
import multiprocessing as mp
from multiprocessing.connection import wait
import os
import signal
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"


def run_job(args):
    pid, tier, idx, t_end = args
    t0 = time.time()
    try:
        def late(*a):
            raise Budget("wall clock")
        signal.signal(signal.SIGALRM, late)
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from symex.core import Engine, Budget
        m = importlib.import_module("props." + pid)
        j = m.jobs(tier)[idx]
        opts = dict(wall=150.0 if tier == "quick" else 800.0)
        opts.update(j.get("opts", {}))
        if os.environ.get("VERIF_TIES"):
            opts["ties"] = int(os.environ["VERIF_TIES"])
        opts["wall"] = max(2.0, min(opts["wall"], t_end - t0 - 10))
        signal.setitimer(signal.ITIMER_REAL, opts["wall"] + 10, 5)      # in the middle of a path
        e = Engine(j["harness"], j.get("params", {}), opts).explore()
        signal.setitimer(signal.ITIMER_REAL, 0)
        return dict(name=j["name"], st=e.st.as_dict(), cex=e.cex, unknown=e.unknown, unsupported=e.unsupported,
                    functions=sorted(e.functions), samples=e.samples, labels=e.labels, mismatches=e.mismatches,
                    bounds=j.get("bounds", ""), wall=round(time.time() - t0, 2), error=None)
    except BaseException as ex:
        return dict(name=str(idx), error=f"{type(ex).__name__}: {ex}\n" + traceback.format_exc()[-1500:],
                    wall=round(time.time() - t0, 2))


def work(conn, args):
    try:
        conn.send(run_job(args))
        conn.close()
    finally:
        os._exit(0)


def stop(p):
    if p.is_alive():
        p.kill()
    p.join(5)


def replay(pid, tier, job, cex, k, limit):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{k}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, job=job, **cex), f, indent=1, default=str)
    try:
        p = subprocess.run([PY, os.path.join(HERE, "replay.py"), path], capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return path, False, "timeout"
    return path, p.returncode == 1 and "REPRODUCED" in p.stdout, p.stdout[-600:] + p.stderr[-300:]


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)) if x["property"] == pid and x["status"] == "finding"]


def matches(kf, job, cex):
    m = kf["match"]
    return all((k == "job" and job == v) or (k == "label" and cex["label"] == v)
               or (k == "choices" and all(cex["choices"].get(a) == b for a, b in v.items()))
               for k, v in m.items())


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    only = os.environ.get("VERIF_JOB")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    t_end = t0 + (500 if tier == "quick" else 700)      # a check has 900 s
    m = importlib.import_module("props." + pid)
    jobs = m.jobs(tier)
    idxs = [i for i, j in enumerate(jobs) if not only or only in j["name"]]
    kfs = known_findings(pid)
    order = sorted(idxs, key=lambda i: -jobs[i].get("weight", 1))
    nproc = min(8, len(idxs))
    ctx = mp.get_context("fork")
    res, waiting, running, t_stop = [], list(order), {}, t_end + 30
    try:
        while waiting or running:
            while waiting and len(running) < nproc:
                i = waiting.pop(0)
                here, there = ctx.Pipe(duplex=False)
                p = ctx.Process(target=work, args=(there, (pid, tier, i, t_end)))
                p.start()
                there.close()
                running[here] = i, p
            ready = wait(list(running), timeout=max(0.1, min(5, t_stop - time.time())))
            if not ready and time.time() > t_stop:
                break
            for c in ready:
                i, p = running.pop(c)
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    r = dict(name=jobs[i]["name"], error=f"{jobs[i]['name']} was ended", wall=time.time() - t0)
                c.close()
                p.join(5)
                stop(p)
                res.append(r)
                if r["error"] or t_stop < t_end or not any(not any(matches(f, r["name"], x) for f in kfs) and replay(pid, tier, r["name"], x, 0, 60)[1] for x in r["cex"][:2]):
                    continue
                if os.environ.get("VERIF_STOP"):        # mutation runs: the first violation is enough
                    print("VIOLATION", pid, r["name"], r["cex"][0]["label"])
                    return 1
                t_stop = time.time() + (60 if tier == "quick" else 180)       # the answer is known; the others have a little longer to show theirs
    finally:
        for i, p in running.values():
            stop(p)
    for i in [i for i, p in running.values()] + waiting:
        res.append(dict(name=jobs[i]["name"], error=f"{jobs[i]['name']} gave no answer", wall=time.time() - t0))
    res.sort(key=lambda r: order.index(next((i for i in idxs if jobs[i]["name"] == r["name"]), order[0])))
    errors = [r for r in res if r["error"]]
    good = [r for r in res if not r["error"]]
    violations, unrep, known = [], [], []
    k = 0
    for r in good:
        seen = {}
        for c in r["cex"]:
            kf = next((f for f in kfs if matches(f, r["name"], c)), None)
            if seen.get(c["label"], 0) >= (1 if len(violations) > 3 else 6) or seen.get(("ok", c["label"], bool(kf))):
                continue
            seen[c["label"]] = seen.get(c["label"], 0) + 1
            k += 1
            path, ok, out = replay(pid, tier, r["name"], c, k, max(5, min(120, t_end + 150 - time.time())))
            if ok:
                seen[("ok", c["label"], bool(kf))] = True
                if kf:
                    known.append((kf, c))
                else:
                    violations.append((path, r["name"], c))
            else:
                unrep.append((path, r["name"], c, out))
    okl = {(j, c["label"]) for _, j, c in violations}
    unrep = [u for u in unrep if (u[1], u[2]["label"]) not in okl]
    tot = {}
    for r in good:
        for f, v in r["st"].items():
            tot[f] = max(tot.get(f, 0), v) if f == "max_query_s" else round(tot.get(f, 0) + v, 3)
    undecided = [f"{r['name']}: {u}" for r in good for u in r["unknown"]] + \
                [f"{r['name']}: unsupported: {u}" for r in good for u in r["unsupported"]]
    vac = [r["name"] for r in good if not r["st"]["checks"] and not r["cex"]]
    functions = sorted({f for r in good for f in r["functions"]})
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2),
        violations=len(violations),
        assumptions=list(getattr(m, "ASSUMPTIONS", [])) + COMMON,
        coverage=dict(
            states=tot.get("paths", 0), transitions=tot.get("decisions", 0),
            traces_validated_against_impl=tot.get("witnessed", 0) - tot.get("witness_mismatch", 0),
            samples=[s for r in good for s in r["samples"][:1]][:6],
            technique="path-complete symbolic execution of the current /repo sources, z3 deciding branches and assertions",
            functions_encoded=functions,
            bounds={r["name"]: r["bounds"] for r in good},
            per_configuration={r["name"]: dict(r["st"], wall_s=r["wall"], assertions=r["labels"]) for r in good},
            queries=dict(total=tot.get("queries", 0), sat=tot.get("q_sat", 0), unsat=tot.get("q_unsat", 0),
                         unknown=tot.get("q_unknown", 0), solver_s=tot.get("solver_s", 0),
                         max_query_s=tot.get("max_query_s", 0)),
            assertions=dict(total=tot.get("checks", 0), by_normal_form=tot.get("checks_nf", 0),
                            by_solver=tot.get("checks_solver", 0)),
            outside=getattr(m, "OUTSIDE", ""),
            witness_mismatches=[x for r in good for x in r["mismatches"]][:10],
            undecided=undecided, errors=[e["error"] for e in errors],
            not_reproduced=[dict(job=j, label=c["label"], inputs=c["inputs"], choices=c["choices"]) for _, j, c, _ in unrep][:10],
        ))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for kf in kfs:
        if any(x is kf for x, _ in known):
            print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    print(f"{pid} [{tier}] paths={tot.get('paths', 0)} decisions={tot.get('decisions', 0)} queries={tot.get('queries', 0)} "
          f"assertions={tot.get('checks', 0)} witnesses={tot.get('witnessed', 0)} mismatches={tot.get('witness_mismatch', 0)} "
          f"solver={tot.get('solver_s', 0):.1f}s wall={time.time() - t0:.1f}s jobs={len(idxs)}")
    if os.environ.get("VERIF_VERBOSE"):
        for r in good:
            print("   ", r["name"], r["wall"], {a: b for a, b in r["st"].items() if b}, r["labels"])
            for x in r["mismatches"][:3]:
                print("       mismatch", x)
    for path, job, c in violations:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"    {job}: {c['label']}: {c['detail']} inputs={c['inputs']} choices={c['choices']}")
    for u in undecided[:8]:
        print("UNDECIDED", u[:300])
    for path, job, c, out in unrep[:5]:
        print(f"NOT REPRODUCED {job}: {c['label']}: {c['detail']} inputs={c['inputs']} choices={c['choices']}")
        if os.environ.get("VERIF_VERBOSE"):
            print(out)
    for e in errors[:3]:
        print("NO ANSWER", e["error"])
    if violations:
        return 1
    if vac:
        print("VACUOUS", vac)
    # configurations without an answer are reported above and in the evidence; with too many of them there is no answer at all
    bad = {u.split(":")[0] for u in undecided} | {u[1] for u in unrep} | set(vac)
    if (len(bad) + len(errors)) * 2 >= len(idxs) or len(undecided) > 0.02 * max(1, tot.get("checks", 1)):
        return 2
    return 0


COMMON = [
    "floating point numbers are exact reals in the encoding (except where a configuration says bit-exact); "
    "comparisons in the assertions carry the stated tolerance and every path is re-run in floating point",
    "math, numpy, plotly, tqdm and Django are replaced by stand-ins with the documented behaviour of the functions used",
]

if __name__ == "__main__":
    sys.exit(main())
