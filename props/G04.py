"""G04 Entry/exit planes pass through the requested points."""
from .refmodel import Ref

OUTSIDE = "entry points not on the crest platform; more than 3 circles per pair (quick), sections other than the listed ones"


def wanted(E, ref, x0, x1, n):
    """Circles (cx, cy, r) through the two points, steepest first, sag shrinking in equal steps."""
    y0, y1 = ref.top[1], ref.ground(x1)
    dx, dy = x1 - x0, y0 - y1
    c2 = dx * dx + dy * dy              # chord length squared
    chord = E.sqrt(c2)
    R = c2 / dx * 11 / 20               # 1.1 times the radius of the circle with vertical tangent at the entry point
    sag0 = R - E.sqrt(R * R - c2 / 4)
    out = []
    for i in range(n):
        sag = sag0 * (n - i) / n
        r = (c2 / 4 + sag * sag) / (2 * sag)
        up = (r - sag) / chord          # centre above the middle of the chord, at right angles to it
        out.append(((x0 + x1) / 2 + dy * up, (y0 + y1) / 2 + dx * up, r))
    return out


def pair(E, ref, out, fix):
    tx, bx = ref.top[0], ref.bot[0]
    lo, hi = {"crest": (0.3, tx), "face": (tx, bx), "toe": (bx, ref.xl)}[out]
    if fix == "entry":
        x0 = E.const(E.choice("entry", [0, tx / 2, tx] if out != "face" else [0, tx * 3 / 4]))
        x1 = E.real("x1", lo, hi)
    elif fix == "exit":
        x0 = E.real("x0", 0, tx)
        x1 = E.const(E.choice("exit", [(lo + hi) / 2, hi]))
    else:
        x0, x1 = E.real("x0", 0, tx), E.real("x1", lo, hi)
    E.assume(x1 >= x0 + 0.05)
    return x0, x1


def section(E, dims):
    s = E.ps.Slope(height=dims[0], length=dims[1])
    return s, Ref(E, s.get_top_coordinates(), s.get_bottom_coordinates(), s._external_length, s._external_height)


def circles(E, dims, n, fix, out):
    """The circles tried for a pair, for arbitrary ground crossings of each of them (G03 decides the crossings)."""
    s, ref = section(E, dims)
    x0, x1 = pair(E, ref, out, fix)
    calls = []
    pattern = E.choice("crossings", [(2, 2, 2), (2, 1, 3), (0, 3, 2), (1, 0, 1)])

    def crossings(*a, **k):
        cx, cy, r = list(a) + [k[m] for m in ("c_x", "c_y", "radius") if m in k]
        i = len(calls)
        pts = [(j + i / 10, 9 - i) for j in range(pattern[i % 3])]
        calls.append((cx, cy, r, pts))
        return list(pts)
    s._get_circle_external_intersection = crossings
    s.add_single_entry_exit_plane(x0, x1, n)
    got = s._individual_planes
    E.check(len(got) <= n, "at most the requested number of planes")
    y0, y1 = ref.top[1], ref.ground(x1)
    if not calls or pattern == (2, 2, 2):
        through(E, got, x0, y0, x1, y1)
    if not calls:
        return
    want = wanted(E, ref, x0, x1, n)
    E.check(len(calls) == n, "the requested number of circles is tried")
    for (cx, cy, r, _), w in zip(calls, want):
        E.close([cx, cy, r], list(w), "circle tried")
    kept = [(w, c[3]) for w, c in zip(want, calls) if len(c[3]) >= 2]
    E.check(len(got) == len(kept), "every circle that meets the ground twice is a plane", f"{len(got)} vs {len(kept)}")
    for p, (w, pts) in zip(got, kept):
        E.close([p["c_x"], p["c_y"], p["radius"]], list(w), "circle of the plane")
        E.close([list(p["l_c"]), list(p["r_c"])], [list(pts[0]), list(pts[1])], "end points are the leftmost two crossings")
    E.observe("n", len(got))


def through(E, got, x0, y0, x1, y1):
    prev = 0
    for p in got:
        cx, cy, r = p["c_x"], p["c_y"], p["radius"]
        E.close((x0 - cx) * (x0 - cx) + (y0 - cy) * (y0 - cy), r * r, "through the entry point", tol=1e-5)
        E.close((x1 - cx) * (x1 - cx) + (y1 - cy) * (y1 - cy), r * r, "through the exit point", tol=1e-5)
        if y0 > y1:
            E.check(cx > x0, "centre right of the entry point")
            E.le(y0, cy, "centre not below the entry point")
            E.le(prev, r, "radii grow")
        prev = r


def planes(E, dims, n, out):
    """With the real crossings: the same as giving the circles one by one."""
    s, ref = section(E, dims)
    tx, bx = ref.top[0], ref.bot[0]
    lo, hi = {"face": (tx, bx), "toe": (bx, ref.xl)}[out]
    x0 = E.const(E.choice("entry", [0.07, tx * 3 / 8, tx * 7 / 8]))
    f = E.choice("exit", [0.13, 0.4, 0.9])
    x1 = E.const(lo + (hi - lo) * f)
    s.add_single_entry_exit_plane(x0, x1, n)
    got = s._individual_planes
    t = E.ps.Slope(height=dims[0], length=dims[1])
    for cx, cy, r in wanted(E, ref, x0, x1, n):
        t.add_single_circular_plane(cx, cy, r)
    ps = t._individual_planes
    E.check(len(got) == len(ps), "every circle that meets the ground twice is a plane", f"{len(got)} vs {len(ps)}")
    through(E, got, x0, ref.top[1], x1, ref.ground(x1))
    for p, q in zip(got, ps):
        E.close([p["c_x"], p["c_y"], p["radius"]], [q["c_x"], q["c_y"], q["radius"]], "circle through both points")
        E.close([list(p["l_c"]), list(p["r_c"])], [list(q["l_c"]), list(q["r_c"])], "recorded end points", tol=1e-5)


def default(E):
    """5 circles unless requested otherwise."""
    s = E.ps.Slope(height=3, length=4)
    s.add_single_entry_exit_plane(6, 13)
    E.check(len(s._individual_planes) == 5, "5 planes by default")
    s.add_single_entry_exit_plane(6, 13, E.const(3, "int"))
    E.check(len(s._individual_planes) == 8, "planes are added to those added before")


DIMS = [(3, 4), (5, 1), (2, 9)]


def jobs(tier):
    out = [dict(name="default", harness=default, bounds="one pair", opts=dict(dec=True))]
    for d in DIMS:
        n = 3 if tier == "quick" else 5
        for o in ("face", "toe"):
            out.append(dict(name=f"planes-{d[0]}x{d[1]}-{o}", harness=planes, params=dict(dims=d, n=5, out=o), opts=dict(dec=True),
                            bounds=f"slope {d} m, 5 circles with their real crossings for 9 concrete pairs"))
        for o in ("face", "toe", "crest"):
            for fix in ("entry", "exit") if tier == "quick" else ("entry", "exit", "none"):
                out.append(dict(name=f"{d[0]}x{d[1]}-{o}-{fix}", harness=circles, params=dict(dims=d, n=n, fix=fix, out=o), opts=dict(witness=4),
                                bounds=f"slope {d} m, {n} circles, 0..3 crossings of each, exit point on the {o}; " + dict(entry="3 entry points, every exit point", exit="every entry point, 2 exit points", none="every entry and exit point")[fix]))
    return out
