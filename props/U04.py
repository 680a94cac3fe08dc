"""U04 No submission makes the web page fail."""
from .U01 import direct, same_search, submission
from .U03 import Web, abs_near

OUTSIDE = ("text that Django's forms refuse (U03: rejected submission); planes of the submission itself (the analysis is replaced by one with one given plane or none); "
           "numbers beyond the stated ranges; reports with a maximum that is not a number")
ASSUMPTIONS = ["symbolic runs give the fields of the real form classes their values directly (Django's text parsing is exercised by the replayed witnesses)",
               "the analysis is replaced by one with given results (the analysis itself: S, B and D properties)",
               "redirects are followed by the browser"]


def any_slope(E, sub, by):
    sub["slope"].update(height=E.real("height", -5, 20))
    if by == "length":
        sub["slope"].update(length=E.real("length", -5, 40))
    else:
        sub["slope"].update(angle=E.choice("angle", [-30.0, 0.0, 4.0, 45.0, 90.0, 91.0, 200.0]))


def any_strata(E, sub, n):
    if n == 1:
        m = sub["material"][0]
        m.update(unit_weight=E.real("w", -5, 60), cohesion=E.real("c", -50, 50), friction_angle=E.choice("phi", [30.0, -5.0, 0.0, 90.0, 120.0]))
    for i, m in enumerate(sub["material"]):
        m.update(depth_to_bottom=E.real(f"d{i}", -30, 30))


def any_loads(E, sub, n):
    for i, u in enumerate(sub["udl"]):
        u.update(magnitude=E.real(f"q{i}", -50, 50), offset=E.real(f"o{i}", -5, 25), length=E.real(f"l{i}", -5, 9))
    for i, p in enumerate(sub["lineload"]):
        p.update(magnitude=E.real(f"p{i}", -50, 50), offset=E.real(f"x{i}", -5, 25))


def any_water(E, sub, n):
    sub["watertable"].update(consider_water=True, water_depth=E.real("water", -10, 40))


def any_limits(E, sub, n):
    sub["limits"].update({k: E.real(k, -20, 100) for k in ("left_x", "right_x") + (("left_x_right", "right_x_left") if n else ())})


GROUPS = dict(slope=any_slope, strata=any_strata, loads=any_loads, water=any_water, limits=any_limits)


def rejected(E, sub):
    try:
        direct(E, sub)
    except ValueError:
        return True
    return False


def submit(E, group, arg, before, **k):
    """One submission with arbitrary values, rejected by the model or not; the page and the report afterwards."""
    w = Web(E)
    try:
        plane = dict(FOS=E.const(1.37), c_x=E.const(11), c_y=E.const(14), radius=E.const(6.02), l_c=(E.const(7.65), E.const(9)), r_c=(E.const(11.5), E.const(8)))
        w.found = [plane]
        if before:
            old = submission(E)
            w.request("index", "POST", w.post(0, old))
        sub = submission(E, **k)
        GROUPS[group](E, sub, arg)
        no = rejected(E, sub)
        runs = len(w.analysis.runs)
        new = dict(plane, FOS=E.const(2.41))
        mine = [new] if not no and (before or E.bool("a plane")) else []
        w.found = lambda s: mine if w.method == "POST" else [plane]
        r = w.request("index", "POST", w.post(1, sub))
        ok = isinstance(r, tuple) and r[0] == "page"
        E.check(ok, "a page is shown", str(r)[:80])
        if not ok:
            return
        made = w.analysis.runs[runs:]
        E.check(len(made) == 1, "one model is analysed: the submitted one, or the default one when it is rejected", f"{len(made)}")
        E.check(r[1]["slope_form"].is_bound == (not no), "the form is kept when the model accepts it, and cleared otherwise")
        if no:
            for s, m, n in made:
                E.close([s._height, s._length, len(s._materials), len(s._udls), len(s._lls)], [1, 1, 1, 0, 0], "the default model is shown instead")
        E.check(same_search(E, r[1].get("search"), [plane] if no else mine), "the planes of that model are shown")
        again = w.request("index", "GET")
        E.check(isinstance(again, tuple) and again[0] == "page", "the page can be loaded again")
        w.drawn = []
        d = w.request("pdf", "GET", None, "3")
        E.check(bool(w.drawn) or (isinstance(d, tuple) and d[0] == "page"), "the report afterwards")
    finally:
        w.restore()


def moving(E, us, ps, hole):
    """A dynamic analysis: any factors of safety, no planes found at some positions of the loads."""
    w = Web(E)
    S = w.v.Slope
    kept = S.plot_critical, S.plot_boundary
    try:
        if not w.real:      # a label for any factor of safety: P02
            S.plot_critical = lambda s, *a, **k: s._search[0] and w.v.go.Figure()
            S.plot_boundary = lambda s, *a, **k: w.v.go.Figure()
        sub = submission(E, us=us, ps=ps, analysis="dynamic")
        at0, slope = E.choice("crest", [E.const(1.25), E.const(0.4), E.const(3)]), E.choice("slope", [1, -1])
        away = E.real("critical", 0.1, 5) - at0          # equal to the required one at the crest: D01
        if not (away > E.const(1e-6) or away < E.const(-1e-6)):
            E.assume(False)
        shown = []

        def found(s):
            d = [u.offset for u in s._udls if u.dynamic_offset] + [p.offset for p in s._lls if p.dynamic_offset]
            far = bool(d and d[0] > E.const(0.001))
            none = hole == "always" or (hole == "far" if far else hole == "crest")
            f = at0 + (slope * d[0] / 8 if d else 0)
            shown[:] = [] if none else [dict(FOS=f, c_x=E.const(11), c_y=E.const(14), radius=E.const(6.02), l_c=(E.const(7.65), E.const(9)), r_c=(E.const(11.5), E.const(8)))]
            return [dict(p) for p in shown]

        w.found = found
        r = w.request("index", "POST", w.post(0, sub))
        ok = isinstance(r, tuple) and r[0] == "page"
        E.check(ok, "a page is shown", str(r)[:80])
        if ok:
            E.check(len(w.analysis.runs) > 0 and same_search(E, r[1].get("search"), shown), "the planes of the last position are shown")
            E.check(r[1]["slope_form"].is_bound, "the form is kept")
            w.found = [dict(FOS=E.const(1.37), c_x=E.const(11), c_y=E.const(14), radius=E.const(6.02), l_c=(E.const(7.65), E.const(9)), r_c=(E.const(11.5), E.const(8)))]
            again = w.request("index", "GET")
            E.check(isinstance(again, tuple) and again[0] == "page", "the page can be loaded again")
    finally:
        S.plot_critical, S.plot_boundary = kept
        w.restore()


def jobs(tier):
    out = []
    deep = tier != "quick"
    add = lambda name, bounds, group, arg=None, before=False, **k: out.append(dict(
        name=name, harness=submit, params=dict(group=group, arg=arg, before=before, **k), opts=dict(dec=True, witness=3), bounds=bounds, weight=2))
    for before in (False, True):
        t = "-after" if before else ""
        b = ", after an accepted submission" if before else ""
        add("length" + t, "height -5..20, length -5..40" + b, "slope", "length", before)
        add("angle" + t, "height -5..20, 7 angles -30..200" + b, "slope", "angle", before, by="angle")
        add("strata" + t, "one stratum, weight -5..60, cohesion -50..50, depth -30..30, 5 friction angles" + b, "strata", 1, before)
        add("water" + t, "water depth -10..40" + b, "water", None, before)
        add("limits" + t, "outer limits -20..100" + b, "limits", 0, before, limits_on="o")
    add("two-strata", "two strata, depths -30..30", "strata", 2, mats=2)
    add("inner", "all limits -20..100", "limits", 1, limits_on="oi")
    for n, us, ps in (("none", (), ()), ("udl", (1,), ()), ("still", (0,), ()), ("line", (), (1,)), ("both", (0, 1), (1,))):
        for hole in ("never", "crest", "far", "always"):
            out.append(dict(name=f"dynamic-{n}-{hole}", harness=moving, params=dict(us=us, ps=ps, hole=hole), opts=dict(witness=2),
                            bounds=f"loads: {n}; critical factor of safety 0.1..5, factor of safety linear in the offset, no plane found: {hole}"))
    add("udl", "one uniform load, pressure -50..50, offset -5..25, length -5..9", "loads", None, us=(0,))
    add("line", "one line load, force -50..50, offset -5..25", "loads", None, ps=(0,))
    return out
