"""S02 The search only returns planes within the analysis limits."""
from .search import Recorder

OUTSIDE = "planes within 1e-5 m of a limit or of the minimum failure distance; which circles a pair gives (G04)"
EPS = 1e-5


def ground(s, x):
    return s.get_external_y_intersection(x)


def dist2(p, q):
    return (p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1])


def inside(E, p, lim, m, label):
    """p is returned: it has to be inside the limits and long enough."""
    l, r = p["l_c"], p["r_c"]
    eps = E.const(EPS)
    E.le(lim[0], l[0], label + ": not left of the left limit", tol=EPS)
    E.le(l[0], lim[1], label + ": not right of the inner left limit", tol=EPS)
    E.le(lim[2], r[0], label + ": not left of the inner right limit", tol=EPS)
    E.le(r[0], lim[3], label + ": not right of the right limit", tol=EPS)
    E.check(m <= eps or dist2(l, r) > (m - eps) * (m - eps), label + ": longer than the minimum failure distance")


def conforms(E, l, r, lim, m):
    eps = E.const(EPS)
    return l[0] > lim[0] + eps and l[0] < lim[1] - eps and r[0] > lim[2] + eps and r[0] < lim[3] - eps and dist2(l, r) > (m + eps) * (m + eps)


def model(E, which, m, udls=(), lls=()):
    s = E.ps.Slope(height=3, length=4)
    s.set_udls(*udls)
    s.set_lls(*lls)
    s.update_analysis_options(iterations=500, min_failure_dist=m)
    lim = [E.const(0), E.const(8), E.const(8), E.const(20)]
    kw = {}
    if which == "left-outer":
        lim[0] = E.real("l1", 0, 4)
        kw = dict(left_x=lim[0])
    if which == "outer":
        lim[0], lim[3] = E.real("l1", 0, 4), E.real("l4", 13, 20)
        lim[2] = E.const(8.5)
        kw = dict(left_x=lim[0], right_x_left=lim[2], right_x=lim[3])
    if which == "inner":
        lim[1], lim[2] = E.real("l2", 2, 7), E.real("l3", 12, 18)
        kw = dict(left_x_right=lim[1], right_x_left=lim[2])
    if which == "left":
        lim[0], lim[1] = E.real("l1", 0, 4), E.real("l2", 4.5, 7.5)
        kw = dict(left_x=lim[0], left_x_right=lim[1])
    if which == "right":
        lim[2], lim[3] = E.real("l3", 8.25, 12), E.real("l4", 13, 20)
        kw = dict(right_x_left=lim[2], right_x=lim[3])
    if which == "all":
        lim = [E.const(1.5), E.const(6.25), E.const(9), E.const(15.5)]
        kw = dict(left_x=lim[0], left_x_right=lim[1], right_x_left=lim[2], right_x=lim[3])
    if kw:
        s.set_analysis_limits(**kw)
    return s, lim


def one_plane(E, which, out, pair, n, mmax):
    """Planes found for one of the pairs, with arbitrary end points."""
    m = E.real("mindist", 0.1, mmax) if mmax else E.const(2 if which in ("none", "inner", "all") else 0.25)
    s, lim = model(E, which, m)
    given = []

    def planes(i, l, r):
        if i != pair:
            return []
        for k in range(n):
            a = E.real(f"x{k}", 0, 8)
            b = E.real(f"e{k}", *dict(face=(8, 12), toe=(12, 20))[out])
            given.append(dict(l_c=(a, ground(s, a)), r_c=(b, ground(s, b)), c_x=E.const(20 + k), c_y=E.const(30), radius=E.const(20)))
        return [dict(g) for g in given]
    rec = Recorder(E, s, planes)
    s.analyse_slope()
    res = list(s._search)
    E.check(len(rec.pairs) > pair, "the pair is tried")
    ids = []
    for p in res:
        inside(E, p, lim, m, "plane found")
        ids.append(p["c_x"])
    for k, g in enumerate(given):
        n_in = sum(1 for x in ids if x == 20 + k)
        E.check(n_in <= 1, "a plane is returned once")
        if conforms(E, g["l_c"], g["r_c"], lim, m):
            E.check(n_in == 1, "a plane within the limits is returned")
        if n_in:
            p = next(p for p in res if p["c_x"] == 20 + k)
            E.close([list(p["l_c"]), list(p["r_c"])], [list(g["l_c"]), list(g["r_c"])], "end points of the plane")
    E.observe("n", len(res))


def loads(E, kind, which):
    """Planes right between the points tried, next to loads anywhere on the crest."""
    m = E.const(2 if which in ("none", "inner", "all") else 0.25)
    o = E.real("offset", 0, 4.9)
    u, p = [], []
    if kind == "udl":
        u = [E.ps.Udl(magnitude=5, offset=o, length=1)]
        x = 8 - o - 1 - E.const(0.001)
    elif kind == "continuous":
        u = [E.ps.Udl(magnitude=5, offset=o)]
        x = E.const(-0.001)
    else:
        p = [E.ps.LineLoad(magnitude=5, offset=o)]
        x = 8 - o - E.const(0.001)
    s, lim = model(E, which, m, u, p)
    rec = Recorder(E, s, lambda i, l, r: [dict(l_c=l, r_c=r, c_x=E.const(i), c_y=E.const(30), radius=E.const(20))])
    s.analyse_slope()
    for p in s._search:
        inside(E, p, lim, m, "plane next to a load")
    ids = {int(p["c_x"]) for p in s._search}
    for i, (l, r, _) in enumerate(rec.pairs):
        if i not in ids:
            E.check(not conforms(E, l, r, lim, m), "a plane within the limits is returned")
    E.check(len(ids) == len(s._search), "a plane is returned once")
    eps = E.const(EPS)
    if x > lim[0] + eps and x < lim[1] - eps:
        E.check(any(E.same(p["l_c"][0], x) for p in s._search), "planes next to the load are returned")
    E.observe("n", len(s._search))


def default_distance(E):
    """The distance in force without any option: a number not negative."""
    s = E.ps.Slope(height=3, length=4)
    s.update_analysis_options(iterations=500)
    m = s._min_failure_distance
    a, b = E.real("a", 0, 8), E.real("b", 8, 20)
    Recorder(E, s, lambda i, l, r: [dict(l_c=(a, E.const(10)), r_c=(b, ground(s, b)), c_x=E.const(i), c_y=E.const(30), radius=E.const(20))] if i < 2 else [])
    s.analyse_slope()
    for p in s._search:
        inside(E, p, [0, 8, 8, 20], m, "plane found")
    if conforms(E, (a, E.const(10)), (b, ground(s, b)), [0, 8, 8, 20], m):
        E.check(len(s._search) == 2, "a plane within the limits is returned")
    E.observe("n", len(s._search))


def whole(E, k):
    """Real planes of a whole search with loads and limits."""
    s = E.ps.Slope(height=3, length=4)
    kw = [dict(left_x=2, left_x_right=6, right_x_left=9, right_x=16), dict(left_x=5), dict(right_x_left=13), dict(left_x_right=3, right_x=14)][k]
    m = E.const([2, 3.5, 0.5, 6][k])
    s.set_udls(E.ps.Udl(magnitude=5, offset=E.const(1), length=E.const(6)), E.ps.Udl(magnitude=5))
    s.set_lls(E.ps.LineLoad(magnitude=5, offset=E.choice("offset", [0.4, 6])))
    s.update_analysis_options(iterations=500, min_failure_dist=m)
    s.set_analysis_limits(**{a: E.const(v) for a, v in kw.items()})
    lim = [E.const(kw.get(a, d)) for a, d in (("left_x", 0), ("left_x_right", 8), ("right_x_left", 8), ("right_x", 20))]
    s._analyse_circular_failure_bishop = lambda *a, **k: 1.5
    s.analyse_slope()
    E.check(len(s._search) > 0, "planes are found")
    for p in s._search:
        inside(E, p, lim, m, "plane found")


def moved(E, op):
    """Limits are given in coordinates of the section: a change that moves the section resets them to all of it."""
    s = E.ps.Slope(height=3, length=4)
    a, d = E.real("left", 0, 4), E.real("right", 13, 20)
    if op == "all":
        s.set_analysis_limits(left_x=a, left_x_right=E.const(6.25), right_x_left=E.const(9), right_x=d)
    else:
        s.set_analysis_limits(left_x=a, right_x=d)
    o = E.real("offset", 0, 30)
    how = {"udl": 0, "ll": 1, "continuous": 2, "all": 0, "extent": 3, "section": 4}[op]
    L0, t0 = s._external_length, s.get_top_coordinates()
    if how == 0:
        s.set_udls(E.ps.Udl(magnitude=5, offset=o, length=3))
    elif how == 1:
        s.set_lls(E.ps.LineLoad(magnitude=5, offset=o))
    elif how == 2:
        s.set_udls(E.ps.Udl(magnitude=5, offset=o))
    elif how == 3:
        s.update_boundary_options(MIN_EXT_L=10 + o * 2)
    else:
        s.set_external_boundary(height=3, length=4 + o)
    L, t = s._external_length, s.get_top_coordinates()
    lim = list(s._limits)
    if how < 3 and E.same(L, L0):
        E.check(E.same(lim[0], a) and E.same(lim[3], d) or E.same(lim[0], 0) and E.same(lim[3], L), "limits as set or back to the whole section")
    else:
        if how < 3:
            E.check(L > L0, "loads only make the section longer")
        E.close(lim, [0, t[0], t[0], L], "limits of a moved section are all of it")
    # and the search goes by the limits in force
    s.update_analysis_options(iterations=500, min_failure_dist=E.const(1))
    x, e = E.real("x", 0, 1), E.real("e", 0, 1)
    plane = dict(l_c=(t[0] * x, t[1]), r_c=(s.get_bottom_coordinates()[0] + e * (L - s.get_bottom_coordinates()[0]), s.get_bottom_coordinates()[1]),
                 c_x=E.const(20), c_y=E.const(30), radius=E.const(20))
    Recorder(E, s, lambda i, l, r: [dict(plane)] if i == 0 else [])
    s.analyse_slope()
    for p in s._search:
        inside(E, p, lim, E.const(1), "plane found after the change")
    if conforms(E, plane["l_c"], plane["r_c"], lim, E.const(1)):
        E.check(len(s._search) == 1, "a plane within the limits is returned")
    E.observe("n", len(s._search))


def jobs(tier):
    out = []
    b = "slope 3 m by 4 m, 500 iterations; "
    for w in ("none", "outer", "inner", "left", "right", "all"):
        for o in ("face", "toe"):
            for pair in ((57,) if tier == "quick" else (0, 7, 33, 57, 80)):
                out.append(dict(name=f"planes-{w}-{o}-{pair}", harness=one_plane, params=dict(which=w, out=o, pair=pair, n=1, mmax=0),
                                bounds=b + f"limits: {w} (symbolic), a plane with any end points on crest and {o} found for pair {pair}", opts=dict(witness=6)))
    for w in ("none", "all"):
        out.append(dict(name=f"distance-{w}", harness=one_plane, params=dict(which=w, out="toe", pair=2, n=1, mmax=9 if tier != "quick" else 6), opts=dict(witness=6),
                        bounds=b + "any minimum distance, a plane with any end points", weight=3))
        out.append(dict(name=f"two-{w}", harness=one_plane, params=dict(which=w, out="face", pair=2, n=2, mmax=0), opts=dict(witness=6),
                        bounds=b + "two planes with any end points", weight=3))
    for k in ("udl", "continuous", "ll"):
        for w in ("none", "all", "left-outer") + (("outer", "inner", "left", "right") if tier != "quick" else ()):
            out.append(dict(name=f"load-{k}-{w}", harness=loads, params=dict(kind=k, which=w), opts=dict(witness=6), weight=6 if "outer" in w else 2,
                            bounds=b + f"a load at any offset 0..4.9, limits: {w}; planes straight between the points tried"))
    out.append(dict(name="default-distance", harness=default_distance, bounds=b + "no options set, planes with any end points", opts=dict(witness=6)))
    for op in ("udl", "ll", "continuous", "all", "extent", "section"):
        out.append(dict(name=f"moved-{op}", harness=moved, params=dict(op=op), opts=dict(witness=6),
                        bounds=f"limits anywhere, then a change ({op}) of any size 0..30 m; a plane with any end points on crest and toe"))
    for k in range(4):
        out.append(dict(name=f"whole-{k}", harness=whole, params=dict(k=k), opts=dict(dec=True, witness=4), weight=3,
                        bounds="whole searches with real planes: 4 concrete sets of limits, 2 positions of a line load, two uniform loads"))
    return out
