"""P02 Plotted failure planes show the analysed planes."""
from .search import Recorder

OUTSIDE = ("circles with their centre below the crest or above it so far that they enter at less than 1 degree; colours within 0.0005 of the border "
           "between two tenths; the critical plane is drawn (with its centre) whatever the maximum is; models without results")

# circles on a slope 3 m high and 4 m long
CIRCLES = [(11.0, 14.0, 6.02), (11.0, 12.0, 6.32), (10.5, 11.0, 6.57), (9.5, 11.5, 2.5)]
LARGE = (11.0, 18.0, 10.126)
TENTHS = {0: "#f00", 10: "#ffa500", 20: "#008000", 30: "#0c84a8", 40: "#0c1ea8", 50: "#800080"}


def model(E, circles, fos):
    s = E.ps.Slope(height=3, length=4)
    s.set_materials(E.ps.Material(depth_to_bottom=4))
    cs = [tuple(E.const(v) if not hasattr(v, "p") and isinstance(v, (int, float)) else v for v in c) for c in circles]
    for c in cs:
        s.add_single_circular_plane(*c)
    Recorder(E, s, fos=lambda c: next(f for f, k in zip(fos, cs) if all(E.identical(x, y) for x, y in zip(k, c))))
    ends = [list(p["l_c"]) + list(p["r_c"]) for p in s._individual_planes]
    s.analyse_slope()
    return s, cs, ends


def norm(c):
    c = str(c).lower()
    return "#" + "".join(x * 2 for x in c[1:]) if len(c) == 4 and c[0] == "#" else c


def colour(E, col, f, what):
    """The colour is the one of a tenth that the factor of safety may be rounded to."""
    table = E.ps.COLOUR_FOS_DICT
    for k, c in TENTHS.items():
        E.check(norm(table[k / 10]) == norm(c), "colour of whole factors of safety")
    ok = [k for k in range(51) if norm(table[k / 10]) == norm(col)]
    E.check(bool(ok), what + ": colour of the scale", f"{col}")
    e = E.const(0.0505)
    for k in ok:
        c = E.const(k) / 10
        if (k == 50 or f <= c + e) and f >= c - e:
            return
    E.check(False, what + ": colour of its factor of safety", f"{col} {f}")


def line_of(E, q):
    return q.get("line", {}).get("color") if isinstance(q.get("line"), dict) else None


def near(E, a, b, tol=1e-6):
    d = a - b
    return bool(d < E.const(tol)) and bool(d > E.const(-tol))


def arc(E, xs, ys, c, end, what):
    """Points from entry to exit along the circle."""
    cx, cy, r = c
    n = len(xs)
    E.close([xs[0], ys[0]], end[:2], what + ": starts at the entry point")
    E.close([xs[-1], ys[-1]], end[2:], what + ": ends at the exit point")
    step = r * E.const(0.036) + E.const(0.002)
    for i in range(n):
        dx, dy = xs[i] - cx, ys[i] - cy
        d = dx * dx + dy * dy - r * r
        t = r * E.const(0.004)
        E.check(d <= t, what + ": follows its circle")
        E.check(d >= -t, what + ": follows its circle")
        E.check(ys[i] <= cy, what + ": along the lower half of the circle")
        if i:
            E.check(xs[i] >= xs[i - 1] - E.const(1e-9), what + ": from left to right")
            E.check(xs[i] - xs[i - 1] <= step, what + ": without gaps")
            E.check(ys[i] - ys[i - 1] <= step, what + ": without gaps")
            E.check(ys[i - 1] - ys[i] <= step, what + ": without gaps")


def planes(E, f, skip):
    """Traces of the figure that are not part of the boundary plot."""
    return f["traces"][skip:]


def boundary(E, s):
    return len(E.fig(s.plot_boundary(material_table=False))["traces"])


def hover(E, text, c, fos):
    """What is shown over the label of the critical plane."""
    parts = str(text or "").split("<br>")
    for name, want in (("Centre", list(c[:2])), ("Radius", [c[2]]), ("FOS", [fos])):
        here = [p for p in parts if p.startswith(name)]
        E.check(len(here) == 1, "centre, radius and factor of safety are shown over the label", f"{parts}")
        for p in here:
            got = [E.text_number(x)[0] for x in p.split(",")]
            E.check(len(got) == len(want) and all(g is not None for g in got), f"{name} over the label is a number", p)
            if len(got) == len(want) and all(g is not None for g in got):
                E.close(got, want, f"{name} over the label", 0.0012)


def critical_ok(E, s, f, skip, c, end, fos):
    """The critical plane with centre and label; returns the remaining traces."""
    rest = planes(E, f, skip)
    label = [q for q in rest if q.get("text")]
    E.check(len(label) == 1, "one label for the critical plane", f"{len(label)}")
    for q in label:
        E.close([q["x"][0], q["y"][0]], list(c[:2]), "label at the centre of the critical circle", 0.0012)
        E.check(len(q["text"]) == 1, "one label")
        v, rest_ = E.text_number(q["text"][0])
        E.check(v is not None, "label shows the factor of safety")
        if v is not None:
            E.close(v, fos, "label shows the factor of safety", 0.0012)
        hover(E, q.get("hovertemplate"), c, fos)
    rest = [q for q in rest if not q.get("text")]
    E.check(len(rest) >= 1, "the critical plane is drawn")
    if not rest:
        return []
    q = rest[0]
    xs, ys = list(q["x"]), list(q["y"])
    E.check(len(xs) == len(ys) and len(xs) > 5, "points of the critical plane")
    # ... exit, centre, entry
    E.close([xs[-2], ys[-2]], list(c[:2]), "critical plane projected to its centre", 0.0012)
    E.close([xs[-1], ys[-1]], end[:2], "critical plane closed at its entry point")
    arc(E, xs[:-2], ys[:-2], c, end, "critical plane")
    colour(E, line_of(E, q), fos, "critical plane")
    for q in label:
        colour(E, q.get("textfont", {}).get("color"), fos, "label")
    return rest[1:]


def critical(E, circle):
    """Any factor of safety of the critical plane."""
    f = E.real("fos", 0, 7)
    s, cs, ends = model(E, [circle], [f])
    skip = boundary(E, s)
    fig = E.fig(s.plot_critical(material_table=False))
    more = critical_ok(E, s, fig, skip, cs[0], ends[0], f)
    E.check(not more, "nothing else is drawn")
    E.observe("traces", len(fig["traces"]))


def geometry(E, kind, lo, hi):
    """Any circle of a family."""
    u = E.real("u", lo, hi)
    c = CIRCLES[0 if kind == "shift" else 1]
    c = (E.const(c[0]) + u, E.const(c[1]), E.const(c[2])) if kind == "shift" else (E.const(c[0]), E.const(c[1]) + u, E.const(c[2]) + u)
    f = E.const(1.234)
    s = E.ps.Slope(height=3, length=4)
    s.set_materials(E.ps.Material(depth_to_bottom=4))
    s.add_single_circular_plane(*c)
    s._analyse_circular_failure_bishop = lambda *a, **k: f
    s.analyse_slope()
    E.check(len(s._search) == 1, "one plane")
    p = s._individual_planes[0]
    end = list(p["l_c"]) + list(p["r_c"])
    skip = boundary(E, s)
    fig = E.fig(s.plot_critical(material_table=False))
    critical_ok(E, s, fig, skip, c, end, f)


def all_planes(E, n, ranges, top):
    """Planes with any factors of safety and any maximum."""
    fos = [E.real(f"f{i}", lo, hi) for i, (lo, hi) in enumerate(ranges)]
    s, cs, ends = model(E, CIRCLES[:n], fos)
    skip = boundary(E, s)
    m = E.real("max", *top) if top else None
    fig = E.fig(s.plot_all_planes(max_fos=m, material_table=False, legend=False))
    crit = next(i for i in range(n) if E.identical(s._search[0]["radius"], cs[i][2]))
    rest = critical_ok(E, s, fig, skip + 0, cs[crit], ends[crit], fos[crit])
    drawn = []
    for q in rest:
        xs, ys = list(q.get("x") or ()), list(q.get("y") or ())
        if len(xs) < 8:
            continue
        i = next((i for i in range(n) if i not in drawn and near(E, xs[0], ends[i][0]) and near(E, xs[-1], ends[i][2])), None)
        if i is None:
            E.check(not q.get("meta"), "only analysed planes are drawn")
            continue
        drawn.append(i)
        arc(E, xs, ys, cs[i], ends[i], "plane")
        colour(E, line_of(E, q), fos[i], "plane")
        if q.get("meta"):
            E.close(q["meta"][0], fos[i], "hover shows the factor of safety", 0.0012)
    for i in range(n):
        if m is None or fos[i] < m:
            E.check(i in drawn, "every plane below the maximum is drawn")
        else:
            E.check(i not in drawn, "no plane at or above the maximum is drawn")
    E.observe("drawn", sorted(drawn))


def jobs(tier):
    out = []
    deep = tier != "quick"
    for i, c in enumerate(CIRCLES + [LARGE]):
        out.append(dict(name=f"critical-{i}", harness=critical, params=dict(circle=c), opts=dict(dec=True, witness=8), bounds=f"circle {c}, factor of safety 0..7", weight=3))
    for kind, lo, hi in (("shift", -0.2, 0.2), ("grow", 0, 0.2)) if deep else ():
        out.append(dict(name=f"geometry-{kind}", harness=geometry, params=dict(kind=kind, lo=lo, hi=hi), opts=dict(dec=True, witness=8), bounds=f"circle {CIRCLES[0 if kind == 'shift' else 1]} moved or grown by {lo}..{hi}", weight=3))
    for j, (n, ranges, top) in enumerate([
            (1, [(0.9, 2.3)], (0.5, 2)),
            (2, [(0.96, 1.22), (1.08, 1.33)], (0.9, 1.4)),
            (2, [(4.85, 5.6), (4.9, 7)], (4.5, 7)),
            (3, [(1.06, 1.14), (1.08, 1.12), (1.2, 1.3)], (1, 1.4)),
            (3, [(1.06, 1.14), (5.5, 6), (1.2, 1.3)], None)]):
        out.append(dict(name=f"all-{j}", harness=all_planes, params=dict(n=n, ranges=ranges, top=top), opts=dict(dec=True, witness=8), bounds=f"{n} planes with factors of safety in {ranges}, maximum in {top}", weight=3))
    return out
