"""O01 Analysis options are clamped, and omitted ones are kept."""
from .common import slope, options

OUTSIDE = "non-numeric options; option values beyond +-1e6"
NAMES = ["slices", "iterations", "min_failure_dist", "tolerance", "max_iterations"]


def clamp(v, lo, hi):
    if v < lo:
        return lo
    if v > hi:
        return hi
    return v


def update(E, s, tag, cur, names):
    kw = {}
    if "slices" in names:
        kw["slices"] = E.int(tag + "slices", -1000, 100000)
        cur[0] = clamp(kw["slices"], 10, 500)
    if "iterations" in names:
        kw["iterations"] = E.int(tag + "iterations", -1000, 1000000)
        cur[1] = clamp(kw["iterations"], 500, 100000)
    if "min_failure_dist" in names:
        kw["min_failure_dist"] = E.real(tag + "mfd", 0, 1000)
        lim = s._external_length * 9 / 10
        cur[2] = lim if kw["min_failure_dist"] > lim else kw["min_failure_dist"]
    if "tolerance" in names:
        kw["tolerance"] = E.real(tag + "tol", 0, 1)
        cur[3] = kw["tolerance"]
    if "max_iterations" in names:
        kw["max_iterations"] = E.int(tag + "max", 0, 1000)
        cur[4] = kw["max_iterations"]
    s.update_analysis_options(**kw)
    for n, a, b in zip(NAMES, options(s), cur):
        E.close(a, b, n + " in force")
    E.observe("options", options(s))


def some(E, tag, sets):
    return E.choice(tag + "given", sets)


ALL = [[n for k, n in enumerate(NAMES) if m >> k & 1] for m in range(32)]
ONE = [[n] for n in NAMES]


def single(E):
    s = E.ps.Slope(height=3, length=4)
    cur = [25, 1000, 0, 0.005, 15]
    E.close(options(s), cur, "default options")
    update(E, s, "a_", cur, some(E, "a_", ALL))


def twice(E, first, second):
    s = E.ps.Slope(height=3, length=4)
    cur = [25, 1000, 0, 0.005, 15]
    update(E, s, "a_", cur, some(E, "a_", first))
    update(E, s, "b_", cur, some(E, "b_", second))


def section(E):
    s, H, L = slope(E)
    cur = [25, 1000, 0, 0.005, 15]
    update(E, s, "a_", cur, ["min_failure_dist"])


def used(E):
    """The slice count in force is the one the analysis uses."""
    from .refmodel import Ref, setup_plane
    n, it = E.choice("n", [(None, 0), (None, 1), (3, 1), (10, 2), (11, 1), (37, 0), (600, 0)])
    s, ref, plane = setup_plane(E, "toe")
    s.update_analysis_options(max_iterations=it, tolerance=0)
    if n is not None:
        s.update_analysis_options(slices=n)
    c = E.real("c", 0, 50)
    s.set_materials(E.ps.Material(unit_weight=18, friction_angle=30, cohesion=c, depth_to_bottom=9))
    ref.materials = [(9, 18, c, E.tan(30))]
    s.analyse_slope()
    want = ref.fos(plane, 25 if n is None else max(10, min(500, n)), it)
    E.close(s.get_min_FOS(), want, "FOS with the requested slices and iterations", tol=1e-6)
    E.observe("fos", s.get_min_FOS())


def jobs(tier):
    b = "integers -1000..1e6, distance 0..1000, tolerance 0..1"
    out = [dict(name="update", harness=single, bounds="all 32 subsets of options; " + b, opts=dict(witness=3)),
           dict(name="section", harness=section, bounds="slope height 0.1..30, length 0..60; distance 0..1000"),
           dict(name="used", harness=used, bounds="one plane, cohesion 0..50, (slices, Bishop iterations) in (default,0) (default,1) (3,1) (10,2) (11,1) (37,0) (600,0)", opts=dict(dec=True)),
           dict(name="update-twice", harness=twice, params=dict(first=ONE + [NAMES], second=ONE + [[]]), weight=9,
                bounds="one option or all of them, then one option or none; " + b, opts=dict(witness=10))]
    if tier == "thorough":
        for n in ONE + [NAMES]:
            out.append(dict(name="update-twice-" + n[0] + str(len(n)), harness=twice, params=dict(first=[n], second=ALL), weight=9,
                            bounds=f"{n}, then every subset; " + b, opts=dict(witness=40)))
    return out
