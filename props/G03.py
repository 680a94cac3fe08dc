"""G03 Circle entry and exit points are real ground crossings."""
from .refmodel import Ref

OUTSIDE = "circles with a radius that is not positive; sections other than the listed ones (quick), heights above 30 m"


def section(E, dims):
    if dims is None:
        h, l = E.real("h", 0.5, 20), E.real("l", 0.5, 30)
    else:
        h, l = dims
    s = E.ps.Slope(height=h, length=l)
    return s, Ref(E, s.get_top_coordinates(), s.get_bottom_coordinates(), s._external_length, s._external_height)


def crossing(E, ref, p, c, what):
    cx, cy, r = c
    x, y = p
    E.close((x - cx) * (x - cx) + (y - cy) * (y - cy), r * r, what + " lies on the circle", tol=1e-5)
    E.le(0, x, what + " lies in the section")
    E.le(x, ref.xl, what + " lies in the section")
    E.close(y, ref.ground(x), what + " lies on the ground")


def anycircle(E, dims, cys):
    """Whatever is accepted as a plane is bounded by two real crossings."""
    s, ref = section(E, dims)
    c = cx, cy, r = E.real("cx", -10, 40), E.const(E.choice("cy", cys)), E.real("r", 0.05, 70)
    s.add_single_circular_plane(cx, cy, r)
    ps = s._individual_planes
    E.check(len(ps) <= 1, "at most one plane")
    for p in ps:
        E.close([p["c_x"], p["c_y"], p["radius"]], [cx, cy, r], "circle kept as given")
        crossing(E, ref, p["l_c"], c, "entry point")
        crossing(E, ref, p["r_c"], c, "exit point")
        E.check(p["r_c"][0] - p["l_c"][0] > 0.01, "end points more than 1 cm apart")
    if not ps:
        E.check(not dips(E, ref, cx, cy, r), "a circle from the crest platform out on the toe platform is accepted")
    E.observe("n", len(ps))


def dips(E, ref, cx, cy, r):
    """Left root on the crest platform and right root on the toe platform, with a margin."""
    d = r * r - (ref.top[1] - cy) * (ref.top[1] - cy)
    e = r * r - (ref.bot[1] - cy) * (ref.bot[1] - cy)
    if d < 0.01 or e < 0.01:
        return False
    a, b = 0.001, ref.top[0] - 0.001
    left = cx > a and (cx - a) * (cx - a) > d and (cx < b or (cx - b) * (cx - b) < d)
    a, b = ref.bot[0] + 0.001, ref.xl - 0.001
    return bool(left and (cx > a or (cx - a) * (cx - a) < e) and cx < b and (cx - b) * (cx - b) > e)


def given(E, dims, out):
    """A circle built from its entry and exit point is accepted with exactly these."""
    s, ref = section(E, dims)
    tx, ty = ref.top
    x0 = E.real("x0", 0.001, 100)
    E.assume(x0 <= tx - 0.02)
    if out == "toe":
        x1 = E.real("x1", 0, 200)
        E.assume(x1 >= ref.bot[0] + 0.02)
        E.assume(x1 <= ref.xl - 0.001)
        y1 = ref.bot[1]
    else:
        f = E.real("f", 0.001, 1)
        x1 = tx + f * (ref.bot[0] - tx)
        y1 = ty - f * (ty - ref.bot[1])
    # centre right of the entry point, at or above the crest
    cx = E.real("cx", 0, 100)
    E.assume(cx >= x0)
    cy = ((x1 - cx) * (x1 - cx) - (x0 - cx) * (x0 - cx) + y1 * y1 - ty * ty) / (2 * (y1 - ty))
    E.assume(cy >= ty)
    r = E.sqrt((x0 - cx) * (x0 - cx) + (ty - cy) * (ty - cy))
    # comes out once: the rest of the ground is inside the circle
    def inside(x, y, strictly=True):
        d = (x - cx) * (x - cx) + (y - cy) * (y - cy)
        return d < r * r - (0.01 if strictly else 0)
    E.assume(inside(tx, ty))
    if out == "toe":
        E.assume(inside(ref.bot[0], ref.bot[1]))
    else:
        # the toe platform is outside of the circle
        bx, by = ref.bot
        E.assume((bx - cx) * (bx - cx) + (by - cy) * (by - cy) > r * r + 0.01)
        E.assume(cx < bx or cy - by > r + 0.01)
        # the second root of the face line is the exit point
        g = ref.grad
        E.assume((x1 - cx) - g * (y1 - cy) > 0.02)
    E.assume(x1 - x0 > 0.05)
    s.add_single_circular_plane(cx, cy, r)
    ps = s._individual_planes
    E.check(len(ps) == 1, "accepted")
    if len(ps) == 1:
        E.close(list(ps[0]["l_c"]), [x0, ty], "entry point", tol=1e-5)
        E.close(list(ps[0]["r_c"]), [x1, y1], "exit point", tol=1e-5)
    E.observe("n", len(ps))


def reported(E):
    """The end points reported after an analysis are those crossings."""
    from .refmodel import setup_plane
    for kind in ("face", "toe", "deep", "small"):
        s, ref, (x0, x1, cx, cy, r) = setup_plane(E, kind)
        c = E.real("c_" + kind, 0, 50)
        s.set_materials(E.ps.Material(cohesion=c, depth_to_bottom=9))
        s.update_analysis_options(slices=10, max_iterations=0)
        s.analyse_slope()
        a, b = s.get_min_FOS_end_points()
        E.close([a[0], a[1], b[0], b[1]], [x0, ref.ground(x0), x1, ref.ground(x1)], "reported end points")
        E.close(list(s.get_min_FOS_circle()), [cx, cy, r], "reported circle")


DIMS = [(3, 4), (5, 1), (2, 9)]


def jobs(tier):
    out = []
    for d in DIMS if tier == "quick" else DIMS + [(1, 0.001), (12, 12), (0.5, 8)]:
        n = f"{d[0]}x{d[1]}"
        ty = 10 if d != (2, 9) else 22.5
        for k in (-1, 0, 0.7, 3, 9) if tier == "thorough" else (-1, 0.7, 4):
            out.append(dict(name=f"any-{n}-{k}", harness=anycircle, params=dict(dims=d, cys=[ty + d[0] * k]), weight=5, opts=dict(witness=4, t2=6000, t1=1000, wall=40 if tier == "quick" else 800),
                            bounds=f"slope {n} m, every circle with centre {k} slope heights above the crest, -10..40 m from the left, radius 0.05..70"))
        for o in ("toe", "face"):
            out.append(dict(name=f"given-{o}-{n}", harness=given, params=dict(dims=d, out=o), weight=3, opts=dict(witness=4),
                            bounds=f"slope {n} m, every entry point on the crest platform, exit point on the {o}, centre right of and above the entry point"))
    for o in ("toe", "face") if tier == "thorough" else ():
        out.append(dict(name=f"given-{o}-all", harness=given, params=dict(dims=None, out=o), weight=9, bounds="slope height 0.5..20, length 0.5..30; as above"))
    out.append(dict(name="reported", harness=reported, bounds="four circles, cohesion 0..50", opts=dict(dec=True)))
    return out
