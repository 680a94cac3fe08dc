"""P03 Plots mark loads, water and limits where the model has them."""

OUTSIDE = "a water table at the base of the section (not drawn); inner limits less than a micrometre apart; more than 3 loads; magnitudes of more than 3+6 digits; loads beyond the section"


def numbers(E, f, rounded):
    """Annotations that show a number: (x, y, number)."""
    out = []
    for a in f["annotations"]:
        v, rest = E.text_number(a.get("text", ""), rounded)
        if v is not None:
            out.append((a["x"], a["y"], v))
    return out


def near(E, a, b, tol=1e-7):
    d = a - b
    return bool(d < E.const(tol)) and bool(d > E.const(-tol))


def take(E, pool, cond):
    i = next((i for i, p in enumerate(pool) if cond(p)), None)
    return None if i is None else pool.pop(i)


def arrow(E, lines, height, what):
    """Among these lines (pixels from the anchor): a vertical shaft up from the crest, and a head that points down."""
    k = E.const
    up = []
    for a in lines:
        if (a.get("line") or {}).get("width") == 0:
            continue
        x0, x1, y0, y1 = a["x0"] + k(0), a["x1"] + k(0), a["y0"] + k(0), a["y1"] + k(0)
        if y1 < y0:
            x0, x1, y0, y1 = x1, x0, y1, y0
        if near(E, x0, k(0)) and near(E, y0, k(0)):
            up.append((x1, y1))
    if height is None:
        ok = any(near(E, x, k(0)) and bool(y > k(15)) for x, y in up)
    else:       # whole pixels
        ok = any(near(E, x, k(0)) and bool(y <= height + k(1.01)) and bool(y >= height - k(1.01)) for x, y in up)
    E.check(ok, f"shaft of the arrow of {what}: up from the crest to the top of the load", f"{up} {height}")
    E.check(any(bool(x < 0) and bool(y > 0) for x, y in up) and any(bool(x > 0) and bool(y > 0) for x, y in up), f"the arrow of {what} points down to the crest", f"{up}")


def loads_ok(E, s, us, ls, digits=False):
    """us: (pressure, left, right), ls: (force, x)."""
    f = E.fig(s.plot_boundary(material_table=False))
    y = s.get_top_coordinates()[1]
    rects = [q for q in f["shapes"] if q.get("type") == "rect"]
    E.check(len(rects) == len(us), "one area for every uniform load", f"{len(rects)} {len(us)}")
    top = None
    for q, l, r in us:
        top = q if top is None or q > top else top
    full = None
    for a in rects:
        full = a["y1"] - a["y0"] if full is None or a["y1"] - a["y0"] > full else full
    if us and full is not None:
        E.check(full > 0, "uniform loads have a height")
    pool = list(rects)
    heights = []
    for q, l, r in us:
        a = take(E, pool, lambda a: near(E, a["x0"], l) and near(E, a["x1"], r) and near(E, (a["y1"] - a["y0"]) * top, q * full))
        E.check(a is not None, "uniform load drawn from its left to its right edge, as high as its pressure", f"{[(b['x0'], b['x1']) for b in rects]}")
        if a is not None:
            heights.append((l, r, a["y1"] - a["y0"]))
            E.close(a["yanchor"], y, "uniform load stands on the crest")
            E.check(a.get("ysizemode") == "pixel", "height in pixels")
    # outline of the load: its top line
    lines = [q for q in f["shapes"] if q.get("type") == "line" and q.get("xsizemode") != "pixel"]
    E.check(len(lines) == len(us), "one top line for every uniform load")
    for q, l, r in us:
        a = take(E, lines, lambda a: near(E, a["x0"], l) and near(E, a["x1"], r) and near(E, a["y0"] * top, q * full) and near(E, a["y1"] * top, q * full))
        E.check(a is not None, "top line of the uniform load")
    # arrows
    arrows = [q for q in f["shapes"] if q.get("type") == "line" and q.get("xsizemode") == "pixel"]
    xs = [a["xanchor"] for a in arrows]
    for a in arrows:
        E.check(any(near(E, a["xanchor"], x) for q, l, r in us for x in (l, r, (l + r) / 2)) or any(near(E, a["xanchor"], x) for p, x in ls), "arrows at loads only")
        E.close(a["yanchor"], y, "arrows at crest level")
    for q, l, r in us:
        for x in (l, r):
            E.check(any(near(E, a, x) for a in xs), "arrows at the edges of the uniform load")
    for l, r, h in heights:
        for x in (l, r):
            arrow(E, [a for a in arrows if near(E, a["xanchor"], x)], h, "the uniform load")
    for p, x in ls:
        E.check(any(near(E, a, x) for a in xs), "arrow at the line load")
        arrow(E, [a for a in arrows if near(E, a["xanchor"], x)], None, "the line load")
    nums = numbers(E, f, digits)     # what a label is rounded to depends on the digits of the magnitude
    E.check(len(nums) == len(us) + len(ls), "one label for every load", f"{len(nums)}")
    tol = 0.001001
    for v, x in [(q, (l + r) / 2) for q, l, r in us] + [(p, x) for p, x in ls]:
        a = take(E, nums, lambda a: near(E, a[0], x) and near(E, a[2], v, tol))
        E.check(a is not None, "label with the magnitude at the load", f"{v} {x} {[(n[2]) for n in nums]}")
        if a is not None:
            E.close(a[1], y, "label at crest level")
    return f


def uniform(E, n, dims):
    s = E.ps.Slope(height=dims[0], length=dims[1])
    s.update_boundary_options(MIN_EXT_L=40)
    s.set_materials(E.ps.Material(depth_to_bottom=5))
    t = s.get_top_coordinates()[0]
    us = []
    for i in range(n):
        q = E.real(f"q{i}", 0.5, 200) if i < 2 else E.const(60)
        o = E.real(f"o{i}", 0, 6) if i < 2 else E.const(2)
        l = [E.real("l0", 0.01, 6), E.const(1.5), None][i] if n > 1 or True else None
        s.set_udls(E.ps.Udl(magnitude=q, offset=o, length=l))
        us.append((q, t - o - l if l is not None else t * 0, t - o))
    f = loads_ok(E, s, us, [])
    E.observe("n", len(f["shapes"]))


def point(E, n, dims):
    s = E.ps.Slope(height=dims[0], length=dims[1])
    s.update_boundary_options(MIN_EXT_L=40)
    s.set_materials(E.ps.Material(depth_to_bottom=5))
    t = s.get_top_coordinates()[0]
    ls = []
    for i in range(n):
        p, o = E.real(f"p{i}", 0.5, 200), E.real(f"o{i}", 0, 9)
        s.set_lls(E.ps.LineLoad(magnitude=p, offset=o))
        ls.append((p, t - o))
    f = loads_ok(E, s, [], ls)
    E.observe("n", len(f["shapes"]))


def both(E, dims):
    s = E.ps.Slope(height=dims[0], length=dims[1])
    s.update_boundary_options(MIN_EXT_L=40)
    s.set_materials(E.ps.Material(depth_to_bottom=5))
    t = s.get_top_coordinates()[0]
    q, o, p, x = E.real("q", 0.5, 200), E.real("o", 0, 6), E.real("p", 0.5, 200), E.real("x", 0, 9)
    s.set_udls(E.ps.Udl(magnitude=q, offset=o, length=2))
    s.set_lls(E.ps.LineLoad(magnitude=p, offset=x))
    f = loads_ok(E, s, [(q, t - o - 2, t - o)], [(p, t - x)])
    E.observe("n", len(f["shapes"]))


def decimals(E, kind, ints, decs):
    """Labels of magnitudes with any decimal digits."""
    s = E.ps.Slope(height=3, length=4)
    s.set_materials(E.ps.Material(depth_to_bottom=5))
    t = s.get_top_coordinates()[0]
    v = E.decimal_number("m", ints, decs)
    if not v > E.const(0.0005):
        E.assume(False)
    if kind == "udl":
        s.set_udls(E.ps.Udl(magnitude=v, offset=1, length=2))
        loads_ok(E, s, [(v, t - 3, t - 1)], [], True)
    else:
        s.set_lls(E.ps.LineLoad(magnitude=v, offset=1))
        loads_ok(E, s, [], [(v, t - 1)], True)


def water(E, dims, op):
    """Water table at any depth."""
    if dims is None:
        dims = E.real("height", 0.25, 4), E.real("length", 0.25, 6)
        d = E.real("depth", 0, 6)
        if d > dims[0] * 1.9:
            return
    else:
        d = E.real("depth", 0, dims[0] * 1.9)
    s = E.ps.Slope(height=dims[0], length=dims[1])
    s.set_materials(E.ps.Material(depth_to_bottom=dims[0] * 1.2))
    s.set_water_table(d)
    if op == "section":
        s.set_external_boundary(height=dims[0] * 2, length=dims[1] + 1)
    elif op == "extent":
        s.update_boundary_options(MIN_EXT_L=57, MIN_EXT_H=31)
    t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
    L = s._external_length
    f = E.fig(s.plot_boundary(material_table=False))
    rest = [q for q in f["traces"] if not q.get("fill")]
    # the outline has its corners at the base
    rest = [q for q in rest if len(q["x"]) < 6]
    E.check(len(rest) == 1, "one line for the water table", f"{len(rest)}")
    if len(rest) != 1:
        return
    pts = list(zip(rest[0]["x"], rest[0]["y"]))
    y = t[1] - d
    marks = [a for a in f["annotations"] if "▼" in str(a.get("text"))]
    E.check(len(marks) == 1, "one mark for the water table", f"{len(marks)}")
    for a in marks:
        E.close(a["y"], y, "the mark of the water table is at its level")
        E.check(bool(a["x"] >= 0) and bool(a["x"] <= t[0]), "the mark of the water table is below the crest")
    E.close(pts[0], (0, y), "water table starts at the left end of the section, at its depth")
    if y < b[1]:
        E.close(pts[-1], (L, y), "water table below the toe goes to the far end")
        for p in pts:
            E.close(p[1], y, "water table level")
    else:
        face = t[0] + (t[1] - y) * (b[0] - t[0]) / (t[1] - b[1])
        want = [(0, y), (face, y), b, (L, b[1])]
        # points in between may be left out or repeated
        E.check(len(pts) == 4, "water table to the face, along the face to the toe and along the ground", f"{len(pts)}")
        if len(pts) == 4:
            E.close(pts, want, "water table to the face, along the face to the toe and along the ground")
    E.observe("pts", len(pts))


def limits(E, dims, given):
    """Markers at the limits in force."""
    s = E.ps.Slope(height=dims[0], length=dims[1])
    s.set_materials(E.ps.Material(depth_to_bottom=5))
    t = s.get_top_coordinates()[0]
    L = float(s._external_length)
    a = {}
    T = float(t)
    if "l" in given:
        a["left_x"] = E.real("left", 0, T * 0.6)
    if "L" in given:
        a["left_x_right"] = E.real("left_right", T * 0.61, T)
    if "r" in given:
        a["right_x_left"] = E.real("right_left", T + 0.001, T + 0.4 * (L - T))
    if "R" in given:
        a["right_x"] = E.real("right", T + 0.41 * (L - T), L)
    if a:
        s.set_analysis_limits(**a)
    x1, x2, x3, x4 = s._limits
    f = E.fig(s.plot_boundary(material_table=False))
    marks = [(q["text"], q["x"], q["y"]) for q in f["annotations"] if E.text_number(q.get("text", ""))[0] is None]
    want = [(x1, "▶"), (x4, "◀")]
    if x2 != x3:
        E.assume((x2 - x3) * (x2 - x3) > E.const(1e-12))
        want += [(x2, "◀"), (x3, "▶")]
    E.check(len(marks) == 2 * len(want), "markers at every limit and nowhere else", f"{len(marks)}")
    for text, x, y in marks:
        E.close(y, s.get_external_y_intersection(x), "limit markers on the ground surface")
    for x, sign in want:
        here = [m[0] for m in marks if near(E, m[1], x)]
        E.check(sign in here and "|" in here, "marker at the limit, pointing into its range", f"{here}")
    E.observe("marks", len(marks))


def jobs(tier):
    out = []
    deep = tier != "quick"
    dims = [(3, 4), (5, 1), (2, 9)]
    for d in dims:
        b = f"slope {d[0]} m by {d[1]} m, "
        for n in (1, 2) + ((3,) if deep else ()):
            out.append(dict(name=f"uniform-{d[0]}x{d[1]}-{n}", harness=uniform, params=dict(n=n, dims=d), opts=dict(dec=True, witness=30, cfloor=False), bounds=b + f"{n} uniform loads of any pressure, offset and length", weight=n))
        for n in (1, 2):
            out.append(dict(name=f"point-{d[0]}x{d[1]}-{n}", harness=point, params=dict(n=n, dims=d), opts=dict(dec=True, witness=30), bounds=b + f"{n} line loads of any size and offset"))
        out.append(dict(name=f"both-{d[0]}x{d[1]}", harness=both, params=dict(dims=d), opts=dict(dec=True, witness=30), bounds=b + "one load of each kind, any size and offset", weight=2))
        for op in ("none", "section", "extent"):
            out.append(dict(name=f"water-{d[0]}x{d[1]}-{op}", harness=water, params=dict(dims=d, op=op), opts=dict(dec=True, witness=3), bounds=b + f"water depth 0..{d[0] * 1.9:.3g}, change '{op}' afterwards"))
        for g in ("", "lR", "lLrR", "L", "r", "LR"):
            out.append(dict(name=f"limits-{d[0]}x{d[1]}-{g or 'default'}", harness=limits, params=dict(dims=d, given=g), opts=dict(dec=True, witness=3), bounds=b + f"limits given: {g or 'none'}, anywhere"))
    for op in ("none", "section", "extent"):
        out.append(dict(name=f"water-any-{op}", harness=water, params=dict(dims=None, op=op), opts=dict(witness=3, ties=30), bounds=f"slope 0.25..4 m high and 0.25..6 m long, any water depth up to 1.9 times the height (levels equal but for rounding seen in either order), change '{op}' afterwards"))
    for kind in ("udl", "ll"):
        for i, d in [(1, 0), (2, 0), (3, 0), (1, 1), (2, 2), (1, 3), (3, 3), (1, 5)] + ([(2, 6), (3, 6), (1, 6)] if deep else []):
            out.append(dict(name=f"decimals-{kind}-{i}-{d}", harness=decimals, params=dict(kind=kind, ints=i, decs=d), opts=dict(dec=True, witness=60), bounds=f"magnitude of {i} digits and {d} decimals"))
    return out
