"""H01 No stale results after a model change."""
from .common import rejects, state, same_state
from .refmodel import CIRCLES

OUTSIDE = "results of the automatic search (the same code analyses every plane); changes made by writing to attributes directly"


class Model:
    """A recipe for a model: a freshly built one and the changed one are built from the same inputs."""

    def __init__(self, E, few=False):
        self.sec = dict(height=3, length=4)
        self.min = {}
        self.mats = [dict(unit_weight=18, friction_angle=30, cohesion=E.real("c", 0, 50), depth_to_bottom=2),
                     dict(unit_weight=20, friction_angle=20, cohesion=8, depth_to_bottom=6.5)]
        self.udls = [dict(magnitude=20 if few else E.real("q", 1, 50), offset=1, length=2)]
        self.lls = [dict(magnitude=10 if few else E.real("p", 1, 50), offset=1.5)]
        self.water = 2
        self.head = dict(auto=True)
        self.opt = dict(slices=10, max_iterations=0, tolerance=0)
        self.limits = None
        self.planes = ["toe"]
        self.entry = []

    def build(self, E):
        ps = E.ps
        s = ps.Slope(**self.sec)
        if self.min:
            s.update_boundary_options(**self.min)
        s.set_materials(*[ps.Material(**m) for m in self.mats])
        if self.udls:
            s.set_udls(*[ps.Udl(**u) for u in self.udls])
        if self.lls:
            s.set_lls(*[ps.LineLoad(**u) for u in self.lls])
        s.set_water_table(self.water)
        s.update_water_analysis_options(**self.head)
        s.update_analysis_options(**self.opt)
        if self.limits:
            s.set_analysis_limits(**self.limits)
        for k in self.planes:
            s.add_single_circular_plane(*[E.const(v) for v in CIRCLES[k]])
        return s


class Second:
    """The environment with other input names, for the second of two changes."""

    def __init__(self, E):
        self.E = E

    def __getattr__(self, n):
        return getattr(self.E, n)

    def real(self, name, *a):
        return self.E.real(name + "'", *a)

    def choice(self, name, o):
        return self.E.choice(name + "'", o)

    def bool(self, name):
        return self.E.bool(name + "'")


def section(E, m, s):
    h, l = E.choice("sec", [(3.2, 4), (3, 4.5), (2.5, 4.5)])
    m.sec = dict(height=h, length=l)
    s.set_external_boundary(**m.sec)
    m.limits = None


def extents(E, m, s):
    k = E.choice("ext", ["H", "L", "both"])
    if k != "L":
        m.min["MIN_EXT_H"] = E.choice("eh", [10.4, 12])
    if k != "H":
        m.min["MIN_EXT_L"] = E.choice("el", [20.6, 21])
    s.update_boundary_options(**m.min)
    m.limits = None


def material(E, m, s):
    new = dict(unit_weight=E.real("uw", 12, 25), friction_angle=25, cohesion=E.real("nc", 0, 50), depth_to_bottom=E.choice("nd", [1, 4, 9]))
    if any(a["depth_to_bottom"] == new["depth_to_bottom"] for a in m.mats):
        E.assume(False)
    m.mats = sorted(m.mats + [new], key=lambda a: a["depth_to_bottom"])
    s.set_materials(E.ps.Material(**new))


def no_material(E, m, s):
    how = E.choice("rm", ["depth", "object", "deepest"])
    d = 2 if how != "deepest" else 6.5
    if how == "object":
        s.remove_material(E.ps.Material(depth_to_bottom=d))
    else:
        s.remove_material(depth=d)
    m.mats = [a for a in m.mats if a["depth_to_bottom"] != d]


def udl(E, m, s):
    new = dict(magnitude=E.real("nq", 1, 50), offset=E.choice("no", [0, 2]), length=E.choice("nl", [1, None]))
    s.set_udls(E.ps.Udl(**new))
    m.udls = m.udls + [new]


def ll(E, m, s):
    new = dict(magnitude=E.real("np", 1, 50), offset=E.choice("no", [0, 2]))
    s.set_lls(E.ps.LineLoad(**new))
    m.lls = m.lls + [new]


def no_udl(E, m, s):
    if E.bool("all") or not m.udls:
        s.remove_udls(remove_all=True)
        m.udls = []
    else:
        s.remove_udls(E.ps.Udl(**m.udls[0]))
        m.udls = m.udls[1:]


def no_ll(E, m, s):
    if E.bool("all") or not m.lls:
        s.remove_lls(remove_all=True)
        m.lls = []
    else:
        s.remove_lls(E.ps.LineLoad(**m.lls[0]))
        m.lls = m.lls[1:]


def water(E, m, s):
    m.water = E.choice("w", [0, 1, 2.5])
    s.set_water_table(m.water)


def no_water(E, m, s):
    m.water = None
    if E.bool("none"):
        s.set_water_table(None)
    else:
        s.remove_water_table()


def head(E, m, s):
    m.head = dict(auto=False, H=E.real("f", -1, 2))
    s.update_water_analysis_options(**m.head)


def options(E, m, s):
    new = E.choice("opt", [dict(slices=12), dict(iterations=800), dict(min_failure_dist=2), dict(tolerance=0.1), dict(max_iterations=1)])
    m.opt = dict(m.opt, **new)
    s.update_analysis_options(**new)


def limits(E, m, s):
    m.limits = dict(left_x=1, left_x_right=7, right_x=18)
    s.set_analysis_limits(**m.limits)


def no_limits(E, m, s):
    m.limits = None
    s.remove_analysis_limits()


def plane(E, m, s):
    k = E.choice("pl", ["face", "small"])
    m.planes = m.planes + [k]
    s.add_single_circular_plane(*[E.const(v) for v in CIRCLES[k]])


def planes(E, m, s):
    s.remove_individual_planes()
    m.planes = ["face"]
    s.add_single_circular_plane(*[E.const(v) for v in CIRCLES["face"]])


OPS = [section, extents, material, no_material, udl, ll, no_udl, no_ll, water, no_water, head, options, limits, no_limits, plane, planes]
BYNAME = {f.__name__: f for f in OPS}


def gone(E, s, what):
    """No results are reported."""
    for n, f in (("factor of safety", s.get_min_FOS), ("circle", s.get_min_FOS_circle), ("end points", s.get_min_FOS_end_points)):
        try:
            v = f()
        except Exception:
            v = None
        E.check(v is None, f"no {n} reported after {what}", f"{v}")
    E.check(not s._search, "no planes kept after " + what)


def results(s):
    return [[p["FOS"], p["c_x"], p["c_y"], p["radius"], list(p["l_c"]), list(p["r_c"])] for p in s._search]


def run(E, ops):
    m = Model(E, few="options" in ops)
    s = m.build(E)
    s.analyse_slope()
    E.check(s.get_min_FOS() is not None, "analysed")
    for k, op in enumerate(ops):
        BYNAME[op](Second(E) if k else E, m, s)
        gone(E, s, op)
        if k < len(ops) - 1 and E.bool("between"):
            s.analyse_slope()
    s.analyse_slope()
    if not m.mats:
        return gone(E, s, "analysing without materials")
    f = m.build(E)
    f.analyse_slope()
    E.close(results(s), results(f), "new analysis and freshly built model")
    E.close(list(s.get_min_FOS_end_points()), list(f.get_min_FOS_end_points()), "end points and freshly built model")
    E.close(list(s.get_min_FOS_circle()), list(f.get_min_FOS_circle()), "circle and freshly built model")
    E.observe("fos", s.get_min_FOS())


def pairs_gone(E, first):
    """Any change after any other one, with an analysis in between: nothing is reported afterwards."""
    m = Model(E, few=True)
    m.mats[0]["cohesion"] = 5
    s = m.build(E)
    BYNAME[first](E, m, s)
    s.analyse_slope()
    second = E.choice("second", [f.__name__ for f in OPS])
    BYNAME[second](Second(E), m, s)
    gone(E, s, second + " after " + first)


def remove_all(E):
    """After removing all strata there is nothing to report, also after an analysis."""
    m = Model(E)
    s = m.build(E)
    s.analyse_slope()
    s.remove_material(remove_all=True)
    gone(E, s, "removing all materials")
    s.analyse_slope()
    gone(E, s, "analysing without materials")


ANY = ["section", "water", "limits", "limits1", "udl", "ll", "material", "options", "extents", "entry"]


def any_arguments(E, op):
    """Every change resets results, whatever its arguments."""
    m = Model(E, few=True)
    s = m.build(E)
    s.analyse_slope()
    if op == "section":
        s.set_external_boundary(height=E.real("h", 0.5, 20), length=E.real("l", 0, 40))
    elif op == "water":
        s.set_water_table(E.real("w", 0, 20))
    elif op == "limits":
        if rejects(E, s.set_analysis_limits, left_x=E.real("x1", 0, 9), right_x=E.real("x4", 8.1, 30)):
            return
    elif op == "limits1":
        n = E.choice("n", ["left_x", "left_x_right", "right_x_left", "right_x"])
        if rejects(E, s.set_analysis_limits, **{n: E.real("x", 0, 30)}):
            return
    elif op == "udl":
        s.set_udls(E.ps.Udl(magnitude=E.real("nq", 0.1, 50), offset=E.real("o", 0, 30), length=E.real("nl", 0, 20)))
    elif op == "ll":
        s.set_lls(E.ps.LineLoad(magnitude=E.real("np", 0.1, 50), offset=E.real("o", 0, 30)))
    elif op == "material":
        if rejects(E, s.set_materials, E.ps.Material(depth_to_bottom=E.real("d", 0, 60))):
            return
    elif op == "options":
        s.update_analysis_options(min_failure_dist=E.real("mfd", 0, 30), tolerance=E.real("t", 0, 1), max_iterations=E.int("mi", 0, 50))
    elif op == "extents":
        s.update_boundary_options(MIN_EXT_H=E.real("mh", 1, 50), MIN_EXT_L=E.real("ml", 1, 90))
    elif op == "entry":
        s.add_single_entry_exit_plane(6, 13, 1)
    gone(E, s, op)
    E.observe("n", len(s._search))


PAIRS = [("section", "extents"), ("extents", "section"), ("planes", "section"), ("section", "plane"), ("material", "no_material"),
         ("udl", "no_udl"), ("ll", "no_ll"), ("water", "no_water"), ("head", "section"), ("water", "section"), ("options", "plane"),
         ("limits", "no_limits"), ("no_water", "head"), ("udl", "extents"), ("material", "section")]


def jobs(tier):
    b = ("one change after an analysis of one plane (10 slices, ordinary method); changes with symbolic pressures, forces, cohesions and unit "
         "weights and a few positions")
    o = dict(dec=True, witness=4)
    out = [dict(name="one-" + f.__name__, harness=run, params=dict(ops=[f.__name__]), bounds=b, opts=dict(o)) for f in OPS]
    pairs = PAIRS
    if tier == "thorough":
        pairs = [(a.__name__, c.__name__) for a in OPS for c in OPS]
    for a, c in pairs:
        out.append(dict(name=f"two-{a}-{c}", harness=run, params=dict(ops=[a, c]), bounds="two changes, with or without an analysis between them; " + b, opts=dict(o)))
    for f in OPS:
        out.append(dict(name="gone-" + f.__name__, harness=pairs_gone, params=dict(first=f.__name__), bounds="any change after this one: " + b, opts=dict(o)))
    out.append(dict(name="remove-all-strata", harness=remove_all, bounds=b, opts=dict(o)))
    for op in ANY:
        out.append(dict(name="any-arguments-" + op, harness=any_arguments, params=dict(op=op), bounds="one change with arbitrary arguments: results are gone",
                        opts=dict(o, witness=6), weight=4))
    return out
