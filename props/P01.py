"""P01 Plotted strata tile the section."""

OUTSIDE = "more than 3 strata; points of the outline itself (vertical lines through corners of the areas)"


def outline(s):
    t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
    L = s._external_length
    return [(0, 0), (0, t[1]), t, b, (L, b[1]), (L, 0)]


def crossings(E, poly, x):
    """Levels at which the vertical line at x crosses the polygon (x is not at a corner), ascending."""
    out = []
    for (ax, ay), (bx, by) in zip(poly, poly[1:] + poly[:1]):
        l, r = bool(ax < x), bool(bx < x)
        if l != r:
            out.append(ay + (by - ay) * (x - ax) / (bx - ax))
    for i in range(1, len(out)):
        j = i
        while j and out[j] < out[j - 1]:
            out[j], out[j - 1] = out[j - 1], out[j]
            j -= 1
    return out


def spans(E, levels):
    """Intervals inside, without empty ones."""
    out = []
    for a, b in zip(levels[::2], levels[1::2]):
        if out and close(E, out[-1][1], a):
            out[-1] = (out[-1][0], b)
        elif not close(E, a, b):
            out.append((a, b))
    return [o for o in out if not close(E, o[0], o[1])]


def close(E, a, b):
    d = a - b
    return bool(d < E.const(1e-7)) and bool(d > E.const(-1e-7))


def areas(E, s, ms, xs):
    """Each stratum's area is the section between its levels, on the vertical lines given."""
    t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
    L = s._external_length
    f = E.fig(s.plot_boundary(material_table=False))
    filled = [q for q in f["traces"] if q.get("fill")]
    lines = [q for q in f["traces"] if not q.get("fill")]
    want = outline(s)
    E.check(len(lines) >= 1, "the outline is drawn")
    ok = False
    for q in lines:
        pts = list(zip(q["x"], q["y"]))
        n = len(pts)
        if n >= 6:
            ok = True
            for x in xs:
                got = spans(E, crossings(E, pts, x))
                E.check(len(got) == 1, "the outline drawn is the outline of the section")
                if len(got) == 1:
                    E.close(got[0], (0, s.get_external_y_intersection(x)), "the outline drawn is the outline of the section")
            E.close([min(q["x"]), max(q["x"])], [0, L], "the outline drawn is as long as the section")
    E.check(ok, "the outline is drawn")
    E.check(len(filled) == len(ms), "one area for every stratum", f"{len(filled)} {len(ms)}")
    if len(filled) != len(ms):
        return
    polys = [list(zip(q["x"], q["y"])) for q in filled]
    for q, m in zip(filled, ms):
        E.check(q.get("fill") == "toself", "the area itself is filled")
        E.check(m.name in q.get("name", m.name), "area of its stratum")
    # points are in the section
    for p in polys:
        for x, y in p:
            E.check(x >= 0 and x <= L + E.const(1e-9), "areas inside the section")
    for x in xs:
        g = s.get_external_y_intersection(x)
        upper = g
        for i, (p, m) in enumerate(zip(polys, ms)):
            lower = t[1] - m.depth_to_bottom if i < len(ms) - 1 else t[1] * 0
            got = spans(E, crossings(E, p, x))
            if not upper > lower:
                E.check(not got, "no area where the ground is below the stratum", f"{got}")
                continue
            if close(E, upper, lower):
                E.assume(False)
            E.check(len(got) == 1, "one piece of each stratum", f"{got}")
            if len(got) == 1:
                E.close(got[0], (lower, upper), "the area is the section between the levels of the stratum")
            upper = lower
    E.observe("n", len(polys))


def ordered(E, s, ds):
    ms = [E.ps.Material(depth_to_bottom=d, name=f"m{i}") for i, d in enumerate(ds)]
    s.set_materials(*ms)
    return sorted(ms, key=lambda m: m.depth_to_bottom)


def away(E, x, *bad):
    for b in bad:
        if not (x < b - E.const(1e-6) or x > b + E.const(1e-6)):
            E.assume(False)


def strata(E, dims, count, deepest):
    """Strata at any depths on one slope."""
    s = E.ps.Slope(height=dims[0], length=dims[1])
    s.update_boundary_options(MIN_EXT_H=15)
    ds = [E.real(f"d{i}", 0.02, deepest) for i in range(count)]
    for i in range(count):
        away(E, ds[i], *ds[:i])
    ms = ordered(E, s, ds)
    t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
    L = s._external_length
    x = E.real("x", 0.001, float(L) - 0.001)
    away(E, x, t[0], b[0])
    if x > t[0] and x < b[0]:
        for d in ds:
            away(E, d, t[1] - s.get_external_y_intersection(x))
    areas(E, s, ms, [x])


def slopes(E, count):
    """Any slope, strata at fixed fractions of its height."""
    H, L = E.real("height", 0.5, 30), E.real("length", 0, 60)
    s = E.ps.Slope(height=H, length=L)
    ms = ordered(E, s, [H * E.const(f) for f in (0.4, 1, 1.7)[:count]])
    t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
    u = E.const(E.choice("at", [-0.7, 0.1, 0.4, 0.8, 1.3]))
    w = b[0] - t[0]
    x = t[0] + w * u
    if u > 1:
        x = b[0] + t[0] * E.const(0.3)
    if u < 0:
        x = t[0] * E.const(0.3)
    if close(E, u, E.const(0.4)):
        x = t[0] + w * E.const(0.4001)
    areas(E, s, ms, [x])


def changed(E, op):
    """Areas follow the section when it changes after the strata were set."""
    s = E.ps.Slope(height=3, length=4)
    ms = ordered(E, s, [E.const(0.8), E.const(2.9), E.const(5)])
    if op == "boundary":
        s.set_external_boundary(height=E.real("h", 0.5, 9), length=E.const(6))
    elif op == "extent":
        s.update_boundary_options(MIN_EXT_L=E.real("l", 10, 60), MIN_EXT_H=E.real("hh", 6, 30))
    elif op == "deep":
        m = E.ps.Material(depth_to_bottom=E.real("d", 5.1, 30), name="m3")
        s.set_materials(m)
        ms.append(m)
    elif op == "remove":
        k = E.choice("k", [0, 1, 2])
        s.remove_material(material=ms[k])
        del ms[k]
    t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
    xs = [t[0] * E.const(0.4), t[0] + (b[0] - t[0]) * E.const(0.35), b[0] + t[0] * E.const(0.2)]
    for m in ms:
        away(E, m.depth_to_bottom, t[1] - s.get_external_y_intersection(xs[1]))
        away(E, m.depth_to_bottom, t[1] - b[1])
    areas(E, s, ms, xs)


def jobs(tier):
    out = []
    deep = tier != "quick"
    for dims in ((3, 4), (5, 1), (2, 9), (4, 0)):
        b = f"slope {dims[0]} m by {dims[1]} m, "
        for count in (1, 2) + ((3,) if deep or dims == (3, 4) else ()):
            out.append(dict(name=f"strata-{dims[0]}x{dims[1]}-{count}", harness=strata, params=dict(dims=dims, count=count, deepest=12), opts=dict(dec=True, witness=2),
                            bounds=b + f"{count} strata at any depths 0.02..12, any vertical line", weight=count))
    for count in (1, 2, 3):
        out.append(dict(name=f"slopes-{count}", harness=slopes, params=dict(count=count), opts=dict(witness=2), bounds=f"slope 0.5..30 m by 0..60 m, {count} strata at 0.4, 1 and 1.7 heights, 5 vertical lines"))
    for op in ("boundary", "extent", "deep", "remove"):
        out.append(dict(name=f"changed-{op}", harness=changed, params=dict(op=op), opts=dict(witness=2), bounds="slope 3 m by 4 m with three strata, then a change, 3 vertical lines"))
    return out
