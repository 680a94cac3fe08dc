"""S03 The search covers the limits with the requested effort."""
from .search import Recorder

OUTSIDE = "the circles of each entry/exit pair (G04); more than 40 loads"


def table(E, rec):
    """Entry and exit points, every one tried with every other."""
    a, b = 0, 1
    if len(rec.pairs) > 1 and not E.identical(rec.pairs[0][0][0], rec.pairs[1][0][0]):
        a, b = 1, 0
    n = 0
    while n < len(rec.pairs) and E.identical(rec.pairs[n][a][0], rec.pairs[0][a][0]):
        n += 1
    first, second = [p[a][0] for p in rec.pairs[::n]], [p[b][0] for p in rec.pairs[:n]]
    E.check(len(rec.pairs) == len(first) * n and all(
        E.identical(p[a][0], first[k // n]) and E.identical(p[b][0], second[k % n]) for k, p in enumerate(rec.pairs)),
        "every entry point with every exit point")
    return (first, second) if a == 0 else (second, first)


def grid(E, s, rec, it, loads=(), lim=None):
    """Entry and exit points tried, with the documented density."""
    x1, x2, x3, x4 = lim or s._limits
    E.check(len(rec.pairs) > 0, "pairs are tried")
    top = s.get_top_coordinates()[1]
    n = rec.pairs[0][2]
    for l, r, m in rec.pairs:
        E.check(m == n, "same number of circles for every pair")
    E.check(n >= 5, "at least 5 circles")
    # one more for every 800 iterations above 4000
    extra = n * 800
    E.check(n == 5 or extra <= it, "circles per pair for the iterations")
    E.check(extra + 800 > it, "circles per pair for the iterations")
    ls, rs = table(E, rec)
    regular = list(ls)
    for q in loads:
        k = next((k for k in reversed(range(len(regular))) if E.identical(regular[k], q)), None)
        if k is not None:
            del regular[k]
    nl, nr = len(regular), len(rs)
    E.check(nl >= 2, "at least the two outer entry points")
    E.check(len(rec.pairs) == len(ls) * nr, "every entry point with every exit point", f"{len(rec.pairs)} {len(ls)} {nr}")
    if nl >= 2:
        for k, x in enumerate(regular):
            E.close(x, x1 + (x2 - x1) * k / (nl - 1), "entry points from the outer to the inner left limit")
    for k, x in enumerate(rs):
        E.close(x, x3 + (x4 - x3) * (k + 1) / nr, "exit points up to the outer right limit")
    for l, r, m in rec.pairs[:nr * 2:1]:
        E.close(l[1], top, "entry points at crest level")
        E.close(r[1], s.get_external_y_intersection(r[0]), "exit points on the ground")
    return ls, regular, rs, n


def effort(E, lo, hi):
    s = E.ps.Slope(height=3, length=4)
    it = E.int("it", lo, hi)
    s.update_analysis_options(iterations=it)
    rec = Recorder(E, s)
    s.analyse_slope()
    ls, _, rs, n = grid(E, s, rec, it)
    E.check(len(rec.pairs) * n >= it, "at least the requested number of circles", f"{len(rec.pairs)} pairs {n} circles")
    E.check(len(rec.pairs) * n <= it + n * 60, "not many more than the requested number of circles")
    E.check(len(ls) <= len(rs) and len(rs) <= len(ls) + 4, "as many exit as entry points")
    E.observe("n", [len(ls), len(rs), n])


def limits(E, which):
    s = E.ps.Slope(height=3, length=4)
    kw = {}
    if "left" in which:
        kw["left_x"] = E.real("l1", 0, 7)
    if "left-inner" in which:
        kw["left_x_right"] = E.real("l2", 0.5, 9)
    if "right-inner" in which:
        kw["right_x_left"] = E.real("l3", 6, 13)
    if "right" in which:
        kw["right_x"] = E.real("l4", 13.5, 25)
    if "left" in kw and "left-inner" in kw:
        E.assume(kw["left_x"] < kw["left_x_right"])
    s.update_analysis_options(iterations=500)
    try:
        s.set_analysis_limits(**kw)
    except ValueError:
        return
    # limits as documented, not as stored
    g = kw.get
    want = [g("left_x", 0), g("left_x_right", 8), g("right_x_left", 8), g("right_x", 20)]
    if want[1] > 8:
        want[1] = 8
    if want[2] < 8:
        want[2] = 8
    if want[3] > 20:
        want[3] = 20
    rec = Recorder(E, s)
    s.analyse_slope()
    _, _, _, n = grid(E, s, rec, 500, lim=want)
    E.check(len(rec.pairs) * n >= 500, "at least the requested number of circles")
    E.observe("n", len(rec.pairs))


def loads(E, nu, nl, cont):
    """Points 1 mm left of the loads are tried too."""
    s = E.ps.Slope(height=3, length=4)
    s.update_analysis_options(iterations=500)
    pts = []
    for i in range(nu):
        o = E.real(f"o{i}", 0, 3) if i < (2 if nu + nl < 8 else 1) else E.const(i / 9)
        if cont and i == 0:
            s.set_udls(E.ps.Udl(magnitude=5, offset=o))
        else:
            s.set_udls(E.ps.Udl(magnitude=5, offset=o, length=2))
            pts.append(8 - o - 2 - E.const(0.001))
    for i in range(nl):
        o = E.real(f"p{i}", 0, 3) if i < (2 if nu + nl < 8 else 0) or nu == 0 and i == 0 else E.const(i / 17)
        s.set_lls(E.ps.LineLoad(magnitude=5, offset=o))
        pts.append(8 - o - E.const(0.001))
    if nu + nl < 20 and E.bool("limits"):
        s.set_analysis_limits(left_x=1, right_x=18)
    rec = Recorder(E, s)
    s.analyse_slope()
    tried = [p[0][0] for p in rec.pairs]
    for p in pts:
        E.check(any(E.same(p, x) for x in tried), "a point 1 mm left of the load is tried")
    if cont:
        pts.append(E.const(-0.001))
    grid(E, s, rec, 500, loads=pts)
    E.observe("n", len(rec.pairs))


def section(E):
    """Default limits of any section: from the left end to the crest, and from the crest to the right end."""
    h, l = E.real("h", 0.5, 20), E.real("l", 0.5, 30)
    s = E.ps.Slope(height=h, length=l)
    s.update_analysis_options(iterations=500)
    rec = Recorder(E, s)
    s.analyse_slope()
    cx = s.get_top_coordinates()[0]
    grid(E, s, rec, 500, lim=[0, cx, cx, s._external_length])
    E.observe("n", len(rec.pairs))


def jobs(tier):
    out = []
    wins = [(500, 700), (701, 1000), (1001, 1500), (1501, 2500), (2501, 3999), (4000, 5600), (5601, 8000), (49500, 50500), (99300, 100000)]
    if tier == "thorough":
        wins += [(8001 + 4000 * k, 8000 + 4000 * (k + 1)) for k in range(23)]
    for lo, hi in wins:
        out.append(dict(name=f"iterations-{lo}", harness=effort, params=dict(lo=lo, hi=hi), opts=dict(witness=10, cfloor=True), weight=3,
                        bounds=f"slope 3 m by 4 m, every number of iterations {lo}..{hi}"))
    b = "slope 3 m by 4 m, 500 iterations, symbolic "
    for w in (["left"], ["left-inner"], ["right"], ["right-inner"], ["left", "right"], ["left", "left-inner"], ["right-inner", "right"]):
        out.append(dict(name="limits-" + "+".join(w), harness=limits, params=dict(which=w), bounds=b + "limits " + ", ".join(w), opts=dict(witness=6), weight=2))
    for nu, nl, c in [(1, 0, False), (0, 1, False), (1, 1, False), (2, 1, True), (3, 4, False), (8, 0, False), (0, 9, False), (0, 10, False), (9, 12, True), (20, 20, True)]:
        out.append(dict(name=f"loads-{nu}-{nl}", harness=loads, params=dict(nu=nu, nl=nl, cont=c), bounds=b + f"offsets; {nu} uniform and {nl} line loads", opts=dict(witness=6), weight=2))
    if tier == "thorough":
        out.append(dict(name="section", harness=section, bounds="slope height 0.5..20, length 0.5..30, 500 iterations", opts=dict(witness=6), weight=5))
    return out
