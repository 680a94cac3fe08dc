"""H03 The order in which a model is built does not matter."""
from .common import geometry, materials, udls, lls, water

OUTSIDE = ("explicit minimum extents, limits and analysis options; removal of strata or loads; more than two strata; "
           "orders are compared pairwise after a common beginning of up to two other steps")

# one letter per step; every step has its own arbitrary values
STEPS = {
    "g": lambda E, s: s.set_external_boundary(height=E.real("gh", 0.5, 20), length=E.real("gl", 0, 40)),
    "m": lambda E, s: s.set_materials(mat(E, "m")),
    "n": lambda E, s: s.set_materials(mat(E, "n")),
    "B": lambda E, s: s.set_materials(mat(E, "m"), mat(E, "n")),
    "u": lambda E, s: s.set_udls(udl(E, "u")),
    "v": lambda E, s: s.set_udls(udl(E, "v")),
    "U": lambda E, s: s.set_udls(udl(E, "u"), udl(E, "v")),
    "p": lambda E, s: s.set_lls(ll(E, "p")),
    "q": lambda E, s: s.set_lls(ll(E, "q")),
    "P": lambda E, s: s.set_lls(ll(E, "p"), ll(E, "q")),
    "w": lambda E, s: s.set_water_table(E.real("w", 0, 60)),
    "a": lambda E, s: s.update_water_analysis_options(auto=True),
    "h": lambda E, s: s.update_water_analysis_options(auto=False, H=E.real("h", -1, 2)),
}


def mat(E, k):
    return E.ps.Material(unit_weight=15 + "mn".index(k), cohesion=E.real(k + "c", 0, 50), depth_to_bottom=E.real(k + "d", 0, 60))


def udl(E, k):
    return E.ps.Udl(magnitude=10 + "uv".index(k), offset=E.real(k + "o", 0, 30), length=None if k == "v" else E.real(k + "l", 0.5, 30))


def ll(E, k):
    return E.ps.LineLoad(magnitude=10 + "pq".index(k), offset=E.real(k + "o", 0, 30))


def by_magnitude(l):
    return sorted(l, key=lambda x: x[0])      # magnitudes are concrete


def run(E, one, two):
    if "m" in one + "B" * ("B" in one) and "n" in one or "B" in one or "B" in two:
        E.assume(E.real("md", 0, 60) != E.real("nd", 0, 60))
    out = []
    for seq in (one, two):
        s = E.ps.Slope(height=3, length=4)
        for c in seq:
            STEPS[c](E, s)
        out.append((geometry(s), materials(s), by_magnitude(udls(s)), by_magnitude(lls(s)), water(s)))
    for n, a, b in zip(["section", "strata", "uniform loads", "line loads", "water"], *out):
        E.close(a, b, n + " independent of the order")
    E.observe("section", out[0][0])


def pairs(tier):
    """Adjacent swaps; every order of a sequence is reached through them."""
    done = []
    for pre, a, b in [("", x, y) for x in "gmupwh" for y in "gmupwah" if x < y] + \
                     [("", "m", "n"), ("", "u", "v"), ("", "p", "q")] + \
                     [("w", "g", "m"), ("w", "g", "u"), ("m", "g", "n"), ("h", "g", "w"), ("m", "g", "w"), ("m", "g", "u"), ("w", "g", "p"), ("w", "m", "u")]:
        if (a, b) in (("a", "h"), ("h", "a")):
            continue
        done.append((pre + a + b, pre + b + a))
    done += [("B", "mn"), ("B", "nm"), ("U", "uv"), ("P", "qp"), ("gB", "mgn"), ("gU", "ugv"), ("gP", "pgq")]
    if tier == "thorough":
        done += [("wm" + x, "w" + y + "m" if False else "m" + "w" + x) for x, y in (("g", "g"), ("u", "u"))]
        done += [("gmw", "wmg"), ("gup", "pug"), ("gmu", "umg"), ("gwh", "hwg"), ("gmuw", "wumg"), ("mug", "gum"), ("gBw", "wngm"),
                 ("gUP", "pugqv"), ("gmpw", "wpmg")]
    return done


def jobs(tier):
    b = ("g section 0.5..20 m high, 0..40 m long; m,n materials 0..60 m deep; u,v uniform loads and p,q line loads at 0..30 m; "
         "w water 0..60; a/h automatic/manual head factor; capitals: both in one call; initial slope 3 m by 4 m")
    return [dict(name=f"{x}-{y}", harness=run, params=dict(one=x, two=y), bounds=b, opts=dict(witness=20), weight=len(x) ** 2) for x, y in pairs(tier)]
