"""H02 A rejected change leaves the model as it was."""
from .common import rejects, state, same_state

OUTSIDE = "changes that fail with other exceptions than ValueError; models with more than two strata, one load of each kind"


def model(E):
    s = E.ps.Slope(height=3, length=4)
    s.set_materials(E.ps.Material(unit_weight=18, cohesion=E.real("c", 0, 50), depth_to_bottom=2),
                    E.ps.Material(unit_weight=20, depth_to_bottom=6.5))
    s.set_udls(E.ps.Udl(magnitude=E.real("q", 1, 50), offset=1, length=2))
    s.set_lls(E.ps.LineLoad(magnitude=5, offset=E.real("off", 0, 3)))
    s.set_water_table(E.real("w", 0, 9))
    s.update_water_analysis_options(auto=False, H=E.real("f", 0, 1))
    s.update_analysis_options(slices=20, iterations=700, min_failure_dist=1.5, tolerance=0.01, max_iterations=7)
    s.set_analysis_limits(left_x=1, left_x_right=6, right_x_left=9, right_x=17)
    return s


def val(E, name, lo, hi):
    """A number in a range reaching into the forbidden, or a wrong type."""
    k = E.choice(name + "?", ["number", "text", "list"])
    return {"number": lambda: E.real(name, lo, hi), "text": lambda: "7", "list": lambda: [3]}[k]()


def call(E, s, op):
    M = E.ps.Material
    if op == "section":
        kw = dict(height=val(E, "h", -5, 30))
        how = E.choice("by", ["length", "angle", "nothing"])
        if how == "length":
            kw["length"] = val(E, "l", -5, 60)
            kw["angle"] = E.choice("ang", [None, 30, 0, 95, "x"])
        elif how == "angle":
            kw["angle"] = E.choice("ang", [0, -3, 91, "x", 40])
        else:
            kw["angle"] = None
        return s.set_external_boundary, (), kw
    if op == "boundary":
        kw = {}
        if E.bool("L"):
            kw["MIN_EXT_L"] = val(E, "ml", -50, 200)
        if E.bool("H"):
            kw["MIN_EXT_H"] = val(E, "mh", -50, 200)
        return s.update_boundary_options, (), kw
    if op == "water":
        return s.set_water_table, (val(E, "nw", -20, 20),), {}
    if op == "head":
        return s.update_water_analysis_options, (), dict(auto=False, H=val(E, "nf", -2, 2))
    if op == "limits":
        kw = {}
        for n in ("left_x", "left_x_right", "right_x_left", "right_x"):
            if E.bool(n + "?"):
                kw[n] = E.real(n, -5, 40)
        return s.set_analysis_limits, (), kw
    if op == "limit types":
        n = E.choice("which", ["left_x", "left_x_right", "right_x_left", "right_x"])
        return s.set_analysis_limits, (), {"left_x": 2, "right_x": 18, n: E.choice("bad", ["1", [1], -1])}
    if op == "materials":
        d = [E.real(f"d{i}", 0, 60) for i in range(2)]
        ms = [M(unit_weight=12 + i, depth_to_bottom=x) for i, x in enumerate(d)]
        return s.set_materials, tuple(ms), {}
    if op == "same depth":
        # deeper than the section, and a depth that is taken
        ms = [M(unit_weight=12, depth_to_bottom=E.real("d0", 0, 60)), M(unit_weight=13, depth_to_bottom=E.choice("d1", [2, 6.5]))]
        return s.set_materials, tuple(ms[::E.choice("order", [1, -1])]), {}
    if op == "not a material":
        ms = [M(unit_weight=12, depth_to_bottom=E.real("d0", 0, 60)), E.choice("bad", ["clay", None, 5])]
        return s.set_materials, tuple(ms[::E.choice("order", [1, -1])]), {}
    raise AssertionError(op)


def run(E, op):
    s = model(E)
    before = state(s)
    f, a, k = call(E, s, op)
    if rejects(E, f, *a, **k):
        same_state(E, state(s), before, "after a rejected change")
        E.observe("rejected", 1)


def twice(E, op):
    """The model stays usable: a rejected change followed by a valid one is the same as the valid one alone."""
    s, t = model(E), model(E)
    f, a, k = call(E, s, op)
    if not rejects(E, f, *a, **k):
        return
    for m in (s, t):
        m.set_external_boundary(height=2, length=5)
        m.set_materials(E.ps.Material(unit_weight=25, depth_to_bottom=9))
        m.set_water_table(1)
    same_state(E, state(s), state(t), "valid change after a rejected one")


OPS = ["section", "boundary", "water", "head", "limits", "limit types", "materials", "same depth", "not a material"]


def jobs(tier):
    b = "a model with two strata, both loads, water, options and limits; arguments in and out of range and of wrong type"
    out = [dict(name=op, harness=run, params=dict(op=op), bounds=b, opts=dict(witness=10), weight=3 if op in ("limits", "materials") else 1) for op in OPS]
    for op in OPS if tier == "thorough" else ["boundary", "same depth", "head"]:
        out.append(dict(name="then-" + op, harness=twice, params=dict(op=op), bounds=b, opts=dict(witness=10), weight=3))
    return out
