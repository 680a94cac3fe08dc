"""R01 Results are complete, sorted and consistent."""
from .common import slope
from .search import Recorder

OUTSIDE = "more than 4 planes of arbitrary factor of safety; a requested maximum of 0 or less (taken as none)"

# circles on a slope 3 m high and 4 m long, all with different radius
PLANES = [(11.0, 14.0, 6.02), (11.0, 12.0, 6.32), (10.5, 11.0, 6.57), (9.5, 11.5, 2.5)]


def model(E, n):
    s = E.ps.Slope(height=3, length=4)
    s.set_materials(E.ps.Material(unit_weight=19, friction_angle=26, cohesion=4, depth_to_bottom=4))
    cs = [tuple(E.const(v) for v in c) for c in PLANES[:n]]
    for c in cs:
        s.add_single_circular_plane(*c)
    return s, cs


def same(E, a, b):
    return all(E.identical(x, y) for x, y in zip(a, b))


def results(E, s, cs, fos, ends, top, what):
    """The results are those planes with a factor of safety not above top, ascending, and the reported minimum is the first."""
    want = [i for i, f in enumerate(fos) if f is not None and (top is None or not f > top)]
    got = s._search
    E.check(len(got) == len(want), what + ": one result for every plane with a factor of safety", f"{len(got)} vs {len(want)}")
    seen = []
    last = None
    for r in got:
        i = next((i for i in range(len(cs)) if i not in seen and same(E, cs[i], (r["c_x"], r["c_y"], r["radius"]))), None)
        E.check(i is not None and i in want, what + ": result of an analysed plane")
        if i is None:
            continue
        seen.append(i)
        E.close(r["FOS"], fos[i], what + ": factor of safety of its plane")
        E.close(list(r["l_c"]) + list(r["r_c"]), ends[i], what + ": end points of its plane")
        if last is not None:
            E.check(r["FOS"] >= last, what + ": ascending")
        last = r["FOS"]
    if not got:
        return
    E.check(same(E, s.get_min_FOS_circle(), [got[0][k] for k in ("c_x", "c_y", "radius")]), what + ": critical circle of the first result")
    E.close(s.get_min_FOS(), got[0]["FOS"], what + ": minimum of the first result")
    l, r = s.get_min_FOS_end_points()
    E.close(list(l) + list(r), list(got[0]["l_c"]) + list(got[0]["r_c"]), what + ": end points of the first result")
    m = s.get_min_FOS()
    for i in want:
        E.check(fos[i] >= m - E.const(1e-12), what + ": minimum")
    E.observe("fos", [r["FOS"] for r in got])


def endpoints(E, s):
    return [list(p["l_c"]) + list(p["r_c"]) for p in s._individual_planes]


def arbitrary(E, n, none, limited):
    """Planes with any factor of safety, or none."""
    s, cs = model(E, n)
    ends = endpoints(E, s)
    fos = [None if none and E.choice(f"none{i}", [0, 1]) else E.real(f"f{i}", 0, 12) for i in range(n)]
    top = E.real("max", 0.01, 15) if limited else None
    rec = Recorder(E, s, fos=lambda c: next(f for f, k in zip(fos, cs) if same(E, k, c)))
    s.analyse_slope(max_fos=top) if limited else s.analyse_slope()
    E.check(len(rec.analysed) == n, "every added plane analysed once", f"{len(rec.analysed)}")
    results(E, s, cs, fos, ends, top, "analysis")
    if limited or n < 3:
        # again: without a maximum, every plane is there again
        s.analyse_slope()
        results(E, s, cs, fos, ends, None, "second analysis")


def real(E, n, it, again):
    """Real factors of safety of a soil of any cohesion: the same as of each plane on its own."""
    c = E.real("cohesion", 0, 40)
    k = E.ps.Material(unit_weight=19, friction_angle=12, cohesion=c, depth_to_bottom=4)
    fos, ends = [], []
    for i in list(range(n)) + [None]:
        s = E.ps.Slope(height=3, length=4)
        s.set_materials(k)
        s.update_analysis_options(slices=10, max_iterations=it, tolerance=0)
        cs = [tuple(E.const(v) for v in p) for j, p in enumerate(PLANES[:n]) if i is None or i == j]
        for p in cs:
            s.add_single_circular_plane(*p)
        s.analyse_slope()
        if i is None:
            break
        E.check(len(s._search) == 1, "one result for one plane")
        fos.append(s.get_min_FOS())
        l, r = s.get_min_FOS_end_points()
        ends.append(list(l) + list(r))
    results(E, s, cs, fos, ends, None, "all planes")
    if again:
        m = E.real("max", 0.05, 6)
        s.analyse_slope(max_fos=m)
        results(E, s, cs, fos, ends, m, "with a maximum")
        s.analyse_slope()
        results(E, s, cs, fos, ends, None, "repeated")


def automatic(E, limited):
    """The automatic search: all its planes, any factor of safety for one of them, some without one."""
    s = E.ps.Slope(height=3, length=4)
    s.set_materials(E.ps.Material(depth_to_bottom=4))
    s.update_analysis_options(iterations=500)
    x = E.real("f", 0, 5)
    which = E.choice("which", [0, 7, 11])
    made = []

    def planes(i, l, r):
        out = []
        if i % 9 == 0 and len(made) < 12:
            c = dict(l_c=l, r_c=r, c_x=E.const(9), c_y=E.const(15), radius=E.const(100 + i))
            made.append(c)
            out.append(c)
        return out
    vals = {}

    def fos(c):
        i = next(i for i, m in enumerate(made) if E.identical(m["radius"], c[2]))
        vals[i] = vals.get(i, 0) + 1
        return x if i == which else None if i % 4 == 3 else E.const([2, 1.5, 3][i % 3])
    Recorder(E, s, planes=planes, fos=fos)
    top = E.real("max", 0.01, 5) if limited else None
    s.analyse_slope(max_fos=top)
    E.check(len(vals) == len(made) and all(v == 1 for v in vals.values()), "every generated plane analysed once")
    cs = [(m["c_x"], m["c_y"], m["radius"]) for m in made]
    ends = [list(m["l_c"]) + list(m["r_c"]) for m in made]
    results(E, s, cs, [fos(c) for c in cs], ends, top, "automatic search")


def switch(E):
    """Individual planes replace the search, and the search comes back when they are removed."""
    f = [E.real("f0", 0, 5), E.real("f1", 0, 5)]
    s, cs = model(E, 0)
    auto = dict(c_x=E.const(9), c_y=E.const(15), radius=E.const(8))
    e = []

    def planes(i, l, r):
        if i:
            return []
        e[:] = [list(l) + list(r)]
        return [dict(auto, l_c=l, r_c=r)]
    rec = Recorder(E, s, planes=planes, fos=lambda c: f[1] if E.identical(c[2], auto["radius"]) else f[0])
    a = (auto["c_x"], auto["c_y"], auto["radius"])
    s.analyse_slope()
    results(E, s, [a], [f[1]], e, None, "search")
    c = tuple(E.const(v) for v in PLANES[0])
    s.add_single_circular_plane(*c)
    ends = endpoints(E, s)
    n = len(rec.pairs)
    s.analyse_slope()
    results(E, s, [c], [f[0]], ends, None, "individual plane")
    s.remove_individual_planes()
    rec.pairs.clear()
    s.analyse_slope()
    results(E, s, [a], [f[1]], e, None, "search again")


def jobs(tier):
    out = []
    deep = tier != "quick"
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for none in (False, True):
            for limited in (False, True):
                if n > 3 and none:
                    continue
                out.append(dict(name=f"arbitrary-{n}-{int(none)}-{int(limited)}", harness=arbitrary, params=dict(n=n, none=none, limited=limited), opts=dict(witness=1),
                                bounds=f"{n} planes with factors of safety 0..12{' or none' if none else ''}{', maximum 0.01..15' if limited else ''}", weight=n))
    if not deep:
        out.append(dict(name="arbitrary-4-0-0", harness=arbitrary, params=dict(n=4, none=False, limited=False), opts=dict(witness=1), bounds="4 planes with factors of safety 0..12", weight=4))
    for n in (2, 4):
        for it in (0, 1):
            if n == 4 and it and not deep:
                continue
            out.append(dict(name=f"real-{n}-{it}", harness=real, params=dict(n=n, it=it, again=n == 2), opts=dict(dec=True, witness=3), bounds=f"{n} planes, soil of cohesion 0..40, {it} Bishop iterations", weight=2))
    for limited in (False, True):
        out.append(dict(name=f"automatic-{int(limited)}", harness=automatic, params=dict(limited=limited), opts=dict(witness=2), bounds="automatic search with 500 iterations, 12 planes kept, one with any factor of safety"))
    out.append(dict(name="switch", harness=switch, bounds="one individual plane and a search with one plane, any factors of safety 0..5", opts=dict(witness=1, dec=True)))
    return out
