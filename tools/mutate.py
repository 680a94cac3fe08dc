"""Mutation runs:  mutate.py list | run OUT.jsonl [seed] [count] [workers]     (a development aid, no check uses it)

One small syntactic change each in the package or the web application; those that pass the repository's tests are given
to the checks of the properties of the changed function, until one reports a violation."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = ["pyslope/pyslope.py", "pyslope/utilities.py", "pyslope/data_validation.py", "slope/views.py", "slope/forms.py"]
SKIP = {"__repr__", "print_dynamic_results"}
PROPS = {
    "Material.__post_init__": "V01 M03 M01", "Udl.__post_init__": "V01 L02 L04 P03", "LineLoad.__post_init__": "V01 L03 L04 P03",
    "__init__": "V01 O01 H04 G01", "_reset_results": "H01 R01", "set_external_boundary": "G01 V01 H02 W01 L01 S01 M01 H03",
    "set_water_table": "W01 V01 H01 H02", "remove_water_table": "W01 H01", "set_udls": "L01 L04 H02 H01 H03", "_update_udl_coordinates": "L01 W01 H03",
    "remove_udls": "L04 H01", "set_lls": "L01 L04 H02 H01", "_update_ll_coordinates": "L01 H03", "remove_lls": "L04 H01",
    "set_materials": "M01 M04 H02 H01 H03 G01", "remove_material": "M04 H01 M01", "update_water_analysis_options": "W01 H01 H03",
    "update_analysis_options": "O01 H01 H02 S03", "update_boundary_options": "G01 H01 H02 L01 H03 S01", "remove_analysis_limits": "S01 H01",
    "set_analysis_limits": "S01 H02 H01 S02", "_set_entry_exit_planes": "S03 S02 S01", "_generate_planes": "G04 S02 S03", "add_single_entry_exit_plane": "G04 H01 R01",
    "add_single_circular_plane": "G03 H01 R01", "remove_individual_planes": "H01 R01", "analyse_slope": "R01 H01 B02",
    "_analyse_circular_failure_ordinary": "B01 M02 M03 W02 L02 L03 B02", "_analyse_circular_failure_bishop": "B01 M02 M03 W02 L02 L03 B02 R01",
    "analyse_dynamic": "D01", "_set_dynamic_offset": "D01", "_get_circle_external_intersection": "G03 G04 B01 S02", "_calculate_strip_weights": "M02 B02",
    "_get_material_at_depth": "M03", "get_dynamic_results": "D01", "get_min_FOS": "R01 H01", "get_min_FOS_circle": "R01", "get_min_FOS_end_points": "R01",
    "get_external_y_intersection": "G02 P03 B01", "get_external_x_intersection": "G02 W02 P03 P01", "get_top_coordinates": "G01 G02", "get_bottom_coordinates": "G01 G02",
    "plot_boundary": "P01 P03 P04 P05", "plot_critical": "P02 P05", "plot_all_planes": "P02 P05 P04", "_plot_annotate_FOS": "P02", "_plot_water": "P03", "_plot_limits": "P03",
    "_plot_ll": "P03 P04", "_plot_udl": "P03 P04", "_plot_failure_plane": "P02 U02", "mid_coord": "G04 P02", "dist_points": "S02 G04 S03", "circle_radius_from_abcd": "G04",
    "circle_centre": "G04", "cirle_line_intersection": "G03 G04", "generate_circle_coordinates": "P02 U02", "get_precision": "P03", "draw_line": "P03",
    "draw_arrowhead": "P03", "draw_arrow": "P03", "pdf": "U02 U03", "index": "U01 U03 U02 U04", "create_slope": "U01 U04", "reset": "U03 U04",
    "_plot_material_table": "P04", "_plot_FOS_legend": "P05", "is_color": "P04", "create_fos_color_dictionary": "P05 P02",
}
for f in ("assert_integer", "assert_positive_number", "assert_strictly_positive_number", "assert_number", "assert_range", "assert_length", "assert_list_contents", "assert_contents"):
    PROPS[f] = "V01 H02 S01 U01"
SWAP = {"left": "right", "right": "left", "l_c": "r_c", "r_c": "l_c", "_top_coord": "_bot_coord", "_bot_coord": "_top_coord", "minimum": "maximum", "maximum": "minimum",
        "min": "max", "max": "min", "height": "length", "offset": "length", "sin": "cos", "cos": "sin", "cohesion": "unit_weight", "_udls": "_lls",
        "_external_length": "_external_height", "get_top_coordinates": "get_bottom_coordinates", "get_bottom_coordinates": "get_top_coordinates"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def seg(src, node):
    return ast.get_source_segment(src, node)


def mutants(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(fn, node, new, what):
        out.append(dict(file=path, line=node.lineno, function=fn, a=pos(node)[0], b=pos(node)[1], new=new, what=what))

    def visit(node, fn, cls):
        if isinstance(node, ast.ClassDef):
            for c in node.body:
                visit(c, fn, node.name)
            return
        if isinstance(node, ast.FunctionDef):
            name = node.name
            if name in SKIP:
                return
            fn = f"{cls}.{name}" if name == "__post_init__" else name
            for d in node.args.defaults:
                visit(d, fn, cls)
            for k, c in enumerate(node.body):
                if k == 0 and isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                    continue
                visit(c, fn, cls)
            return
        if fn:
            one(node, fn)
        for c in ast.iter_child_nodes(node):
            visit(c, fn, cls)

    def one(n, fn):
        s = seg(src, n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(fn, n, f"{seg(src, n.left)} {o} {seg(src, n.comparators[0])}", f"{s} -> {o}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(fn, n, f"({seg(src, n.left)} {BIN[type(n.op)]} {seg(src, n.right)})", f"{s} -> {BIN[type(n.op)]}")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(fn, n, str(not n.value), f"{s} -> {not n.value}")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and n.value is not None:
            add(fn, n, {0: "1", 1: "0"}.get(n.value, repr(n.value + 1)), f"{s} -> +1")
            if n.value not in (0, 1):
                add(fn, n, repr(n.value * 1.01 if isinstance(n.value, float) else n.value - 1), f"{s} -> nearby")
        elif isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                rest = [seg(src, v) for i, v in enumerate(n.values) if i != k]
                add(fn, n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(rest) + ")", f"{s} without term {k}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(fn, n, f"({seg(src, n.operand)})", f"{s} without {type(n.op).__name__}")
        elif isinstance(n, ast.If):
            add(fn, n.test, f"not ({seg(src, n.test)})", f"if {seg(src, n.test)} negated")
            add(fn, n.test, "False", f"if {seg(src, n.test)} never")
            add(fn, n.test, "True", f"if {seg(src, n.test)} always")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(fn, n, "pass", f"dropped: {s[:60]}")
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(fn, n, "pass", f"dropped: {s}")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(fn, n, f"{seg(src, n.value)}.{SWAP[n.attr]}", f"{s} -> {SWAP[n.attr]}")
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            add(fn, n, SWAP[n.id], f"{s} -> {SWAP[n.id]}")
        elif isinstance(n, ast.IfExp):
            add(fn, n, f"({seg(src, n.body)})", f"{s} always first")
            add(fn, n, f"({seg(src, n.orelse)})", f"{s} always second")

    visit(tree, None, None)
    return out


def all_mutants():
    out = []
    for f in FILES:
        src = open("/repo/" + f).read()
        for m in mutants(f, src):
            b = src.encode()
            new = (b[:m["a"]] + m["new"].encode() + b[m["b"]:]).decode()
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            m["props"] = PROPS.get(m["function"])
            if m["props"]:
                out.append(m)
    return out


def sh(cmd, cwd, env=None, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


def run(m, verif):
    d = tempfile.mkdtemp(prefix="mut")
    ws = d + "/repo"
    try:
        shutil.copytree("/repo", ws, ignore=shutil.ignore_patterns(".git"))
        p = os.path.join(ws, m["file"])
        b = open(p, "rb").read()
        open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])
        t = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-cov", "--timeout=100"], ws,
               dict(PYTHONPATH=ws, PYTHONDONTWRITEBYTECODE="1", SECRET_KEY="x"), 200)
        if t is None or t.returncode:
            return "tests"
        res = []
        for pid in m["props"].split():
            r = sh(["python3-vt", "run.py", pid, "quick"], verif, dict(VERIF_REPO=ws, VERIF_TIER="quick", VERIF_STOP="1"), 900)
            if r is None:
                res.append(f"{pid}:timeout")
                continue
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return f"CAUGHT {r.stdout[r.stdout.find('VIOLATION'):][:150].strip()} (before: {' '.join(res)})"
            extra = [l for l in r.stdout.splitlines() if l.startswith(("NOT REPRO", "NO ANSWER", "UNDECIDED", "VACUOUS"))]
            res.append(f"{pid}:{r.returncode}" + (f"[{extra[0][:150]}]" if extra else ""))
        return "SURVIVED " + " ".join(res)
    finally:
        shutil.rmtree(d)


def main():
    ms = all_mutants()
    if sys.argv[1] == "list":
        for m in ms:
            print(m["file"], m["line"], m["function"], m["what"].replace("\n", " "))
        print(len(ms))
        return
    out, seed, count, workers = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    only = sys.argv[6].split(",") if len(sys.argv) > 6 else None
    if only:
        ms = [m for m in ms if m["function"] in only or m["file"] in only]
    random.Random(seed).shuffle(ms)
    ms = ms[:count]
    verifs = []
    for k in range(workers):
        v = tempfile.mkdtemp(prefix="mutverif")
        shutil.copytree(HERE, v, dirs_exist_ok=True, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        verifs.append(v)
    free = list(verifs)

    def job(m):
        v = free.pop()
        try:
            r = run(m, v)
        except Exception as e:
            r = f"ERROR {e!r}"
        finally:
            free.append(v)
        with open(out, "a") as f:
            f.write(json.dumps(dict(m, result=r)) + "\n")
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(job, ms))
    for v in verifs:
        shutil.rmtree(v)


if __name__ == "__main__":
    main()
