"""P04 The material table lists the strata in their colours."""
import itertools

OUTSIDE = "more than 12 strata; layout of the table in pixels (text shifts, fonts); whether a colour can be told from another by eye"

COLUMNS = ("MATERIAL", "COLOR", "γ", "c (", "ϕ")


def num(v):
    """A plain number of the layout (positions are fixed fractions of the plot)."""
    try:
        return float(v)
    except (TypeError, ValueError):
        return None


def table(E, fig):
    """(columns, rows) of the table: columns as title -> x, rows from the top as {title: text}, with the colour beside each."""
    f = E.fig(fig)
    notes = [a for a in f["annotations"] if a.get("xref") in ("x domain", "paper")]
    heads = {}
    for a in notes:
        if isinstance(a.get("text"), str):
            for c in COLUMNS:
                if a["text"].startswith(f"<b>{c}"):
                    E.check(c not in heads, "one heading for each column", c)
                    heads[c] = (num(a["x"]), num(a["y"]))
    E.check(set(heads) == set(COLUMNS), "the table has its columns", f"{sorted(heads)}")
    if set(heads) != set(COLUMNS):
        return None
    top = heads["MATERIAL"][1]
    E.check(all(abs(y - top) < 1e-9 for _, y in heads.values()), "headings are in one row")
    xs = [heads[c][0] for c in COLUMNS]
    E.check(all(a < b for a, b in zip(xs, xs[1:])), "columns from left to right")
    levels = {}
    for a in notes:
        x, y = num(a["x"]), num(a["y"])
        if y < top - 1e-9:
            c = [c for c in COLUMNS if abs(heads[c][0] - x) < 1e-9]
            if c:
                row = levels.setdefault(round(y, 9), {})
                E.check(c[0] not in row, "one entry for each property of a stratum", c[0])
                row[c[0]] = a["text"]
    ys = sorted(levels, reverse=True)
    cells = [q for q in f["shapes"] if q.get("type") == "rect" and q.get("fillcolor") and q.get("xref") in ("x domain", "paper")
             and num(q["x0"]) >= xs[0] and abs(min(num(q["x0"]), num(q["x1"])) - xs[1]) < 1e-6 and abs(max(num(q["x0"]), num(q["x1"])) - xs[2]) < 1e-6]
    for y in ys:
        inside = [q for q in cells if min(num(q["y0"]), num(q["y1"])) < y < max(num(q["y0"]), num(q["y1"]))]
        E.check(len(inside) == 1, "one colour beside each stratum", f"{len(inside)}")
        levels[y]["COLOR"] = inside[0]["fillcolor"] if len(inside) == 1 else None
    E.check(len(cells) == len(ys), "one colour for each stratum", f"{len(cells)} {len(ys)}")
    return [levels[y] for y in ys]


def value(E, t):
    return E.text_number(t)[0]


def compare(E, s, ms, given, plot=None):
    """ms: the strata expected, from the top; given: their colours, None for no (valid) one."""
    fig = (plot or (lambda: s.plot_boundary(material_table=True)))()
    rows = table(E, fig)
    if rows is None:
        return
    E.check(len(rows) == len(ms), "each stratum is listed once", f"{len(rows)} {len(ms)}")
    areas = [q for q in E.fig(fig)["traces"] if q.get("fill")]
    E.check(len(areas) == len(ms), "an area for each stratum", f"{len(areas)}")
    if len(rows) != len(ms) or len(areas) != len(ms):
        return
    colours = [q.get("fillcolor") for q in areas]
    for q, m in zip(areas, ms):
        parts = str(q.get("name") or "").split("<br>")
        E.check(parts[0] == m["name"], "an area says which stratum it is", f"{parts}")
        for c, k in (("γ", "unit_weight"), ("c:", "cohesion"), ("ϕ", "friction_angle")):
            here = [p for p in parts[1:] if p.startswith(c)]
            E.check(len(here) == 1, "an area shows the properties of its stratum", f"{parts}")
            for p in here:
                v = value(E, p)
                E.check(v is not None, "an area shows numbers", p)
                if v is not None:
                    E.close(v, m[k], f"an area shows the {k} of its stratum")
    for i, (row, m) in enumerate(zip(rows, ms)):
        E.check(str(row.get("MATERIAL")) == m["name"], "names from the top down", f"{row.get('MATERIAL')!r} {m['name']!r}")
        for c, k, n in (("γ", "unit_weight", "unit weight"), ("c (", "cohesion", "cohesion"), ("ϕ", "friction_angle", "friction angle")):
            E.check(c in row, f"{n} is listed")
            if c in row:
                v = value(E, row[c])
                E.check(v is not None, f"{n} is a number", f"{row[c]!r}")
                if v is not None:
                    E.close(v, m[k], f"{n} of the stratum is listed")
        E.check(row["COLOR"] == colours[i], "the colour of the table is that of the area", f"{row['COLOR']} {colours[i]}")
        if given[i] is not None:
            E.check(colours[i] == given[i], "a colour that was given is used", f"{colours[i]} {given[i]}")
        else:
            E.check(isinstance(colours[i], str) and len(colours[i]) > 2, "a colour for every stratum", f"{colours[i]!r}")
    free = [c for c, g in zip(colours, given) if g is None]
    E.check(len(set(free)) == min(len(free), 10) or len(free) < len(given), "colours tell up to ten strata apart", f"{free}")
    if len(given) <= 10:
        E.check(len(set(free)) == len(free), "colours tell strata apart", f"{free}")
    E.observe("colours", colours)


EXPLICIT = "None is given"


def material(E, m, colour=None):
    k = dict(m)
    if colour is not None:
        k["color"] = colour
    if colour == EXPLICIT:
        k["color"], k["name"] = None, None
    return E.ps.Material(**k)


VALUES = [dict(unit_weight=18, cohesion=3, friction_angle=31), dict(unit_weight=21, cohesion=7, friction_angle=24), dict(unit_weight=16.5, cohesion=0, friction_angle=38),
          dict(unit_weight=20, cohesion=15, friction_angle=27)]


def strata(E, count, free, together):
    """Strata at any depths, set in any order, with arbitrary values of one kind."""
    s = E.ps.Slope(height=3, length=4)
    ms = []
    for i in range(count):
        v = {k: E.const(x) for k, x in VALUES[i].items()}
        if free == "unit_weight":
            v[free] = E.real(f"w{i}", 1, 50)
        elif free == "cohesion":
            v[free] = E.real(f"c{i}", 0, 90)
        elif free == "friction_angle":
            v[free] = E.angle(f"p{i}", 0, 60)
        v["depth_to_bottom"] = E.real(f"d{i}", 0.2, 30) if free == "depth_to_bottom" else E.const([2.5, 0.8, 6, 1.4][i])
        v["name"] = f"soil{'abcd'[i]}"
        for o in ms:
            if not (v["depth_to_bottom"] < o["depth_to_bottom"] - E.const(1e-6) or v["depth_to_bottom"] > o["depth_to_bottom"] + E.const(1e-6)):
                E.assume(False)
        ms.append(v)
    made = [material(E, m) for m in ms]
    if together:
        s.set_materials(*made)
    else:
        for m in made:
            s.set_materials(m)
    compare(E, s, sorted(ms, key=lambda m: m["depth_to_bottom"]), [None] * count)


GIVEN = ["#aa3311", "pink", EXPLICIT, None, "", "no such colour", "Blue", "#12345", "#abc", "navyblue"]


def good(c, d=None):
    """The colour drawn for a colour argument."""
    return c if c in ("#aa3311", "pink", "Blue", "#abc") else d


def coloured(E, count, op):
    """Given colours, in every combination, before and after a change."""
    s = E.ps.Slope(height=3, length=4)
    cs = [E.choice(f"colour{i}", GIVEN[:4] if count > 2 else GIVEN) for i in range(count)]
    ms = [dict({k: E.const(x) for k, x in VALUES[i].items()}, depth_to_bottom=E.const([2.5, 0.8, 6, 1.4][i]), name=f"soil{'abcd'[i]}") for i in range(count)]
    for m, c in zip(ms, cs):
        if c == EXPLICIT:
            m["name"] = ""
    made = [material(E, m, c) for m, c in zip(ms, cs)]
    s.set_materials(*made)
    keep = list(range(count))
    extra, given = [], []
    if op == "remove":
        s.remove_material(material=made[0])
        keep.remove(0)
    elif op == "depth":
        s.remove_material(depth=ms[-1]["depth_to_bottom"])
        keep.remove(count - 1)
    elif op == "add":
        d = E.real("d", 0.2, 30)
        for m in ms:
            if not (d < m["depth_to_bottom"] - E.const(1e-6) or d > m["depth_to_bottom"] + E.const(1e-6)):
                E.assume(False)
        m = dict({k: E.const(x) for k, x in VALUES[3].items()}, depth_to_bottom=d, name="added")
        s.set_materials(material(E, m))
        extra, given = [m], [None]
    elif op == "boundary":
        s.set_external_boundary(height=E.real("h", 0.5, 9), length=E.const(6))
    elif op == "again":
        s.plot_boundary(material_table=True)
    both = [(ms[i], good(cs[i])) for i in keep] + list(zip(extra, given))
    both.sort(key=lambda b: b[0]["depth_to_bottom"])
    compare(E, s, [b[0] for b in both], [b[1] for b in both])


def many(E, count):
    """More strata than there are colours."""
    s = E.ps.Slope(height=3, length=4)
    c = E.real("c", 0, 90)
    ms = [dict(unit_weight=E.const(15 + i), cohesion=c + i, friction_angle=E.const(20 + i), depth_to_bottom=E.const(0.5) * (i + 1), name=f"s{i}") for i in range(count)]
    s.set_materials(*[material(E, m) for m in reversed(ms)])
    compare(E, s, ms, [None] * count)


def results(E, which):
    """The table is part of the plots of results as well."""
    s = E.ps.Slope(height=3, length=4)
    ms = [dict({k: E.const(x) for k, x in VALUES[i].items()}, depth_to_bottom=E.const([1.5, 6][i]), name=f"soil{'ab'[i]}") for i in range(2)]
    ms[0]["cohesion"] = E.real("c", 0, 90)
    s.set_materials(*[material(E, m, ["pink", None][i]) for i, m in enumerate(ms)])
    s.set_udls(E.ps.Udl(magnitude=E.const(5), offset=E.const(1), length=E.const(2)))
    s.set_water_table(E.const(2))
    s._search = [dict(FOS=E.const(1.25), c_x=E.const(11), c_y=E.const(14), radius=E.const(6.02), l_c=(E.const(7), E.const(9)), r_c=(E.const(11.5), E.const(8)))]
    plot = dict(boundary=lambda: s.plot_boundary(material_table=True, legend=True), critical=lambda: s.plot_critical(material_table=True),
                critical_legend=lambda: s.plot_critical(legend=True), all=lambda: s.plot_all_planes(), default=lambda: s.plot_boundary(), none=None)[which]
    if which == "none":
        f = E.fig(s.plot_boundary(material_table=False))
        E.check(not any("MATERIAL" in str(a.get("text")) for a in f["annotations"]), "no table when it is not asked for")
        E.observe("n", len(f["annotations"]))
    else:
        compare(E, s, ms, ["pink", None], plot)


def loads(E):
    """Loads are drawn in their colour, or red and blue."""
    s = E.ps.Slope(height=3, length=4)
    s.set_materials(E.ps.Material(depth_to_bottom=4))
    q, p = E.choice("uniform", GIVEN), E.choice("line", GIVEN)
    u = E.ps.Udl(magnitude=E.real("q", 0.5, 90), offset=E.const(1), length=E.const(2), **({} if q is None else dict(color=None if q == EXPLICIT else q)))
    l = E.ps.LineLoad(magnitude=E.real("p", 0.5, 90), offset=E.const(4), **({} if p is None else dict(color=None if p == EXPLICIT else p)))
    s.set_udls(u)
    s.set_lls(l)
    f = E.fig(s.plot_boundary(material_table=False))
    left, right, coord = u.left, u.right, l.coord
    area = [a for a in f["shapes"] if a.get("type") == "rect" and a.get("fillcolor") and a.get("xref", "x") == "x"]
    E.check(len(area) == 1, "one area for the uniform load", f"{len(area)}")
    for a in area:
        E.close([a["x0"], a["x1"]], [left, right], "area of the uniform load")
        E.check(a["fillcolor"] == good(q, "red"), "a uniform load is drawn in its colour", f"{a['fillcolor']}")
    at = {}
    for a in f["shapes"]:
        c = (a.get("line") or {}).get("color")
        if a.get("type") == "line" and a.get("xsizemode") == "pixel" and c != "black":
            for n, x in (("left", left), ("right", right), ("line", coord)):
                d = a["xanchor"] - x
                if d < E.const(1e-6) and d > E.const(-1e-6):
                    at.setdefault(n, set()).add(c)
    E.check(at.get("left") == at.get("right") == {good(q, "red")}, "arrows of a uniform load are in its colour", f"{at}")
    E.check(at.get("line") == {good(p, "blue")}, "the arrow of a line load is in its colour", f"{at}")
    E.observe("left", left)


def jobs(tier):
    out = []
    deep = tier != "quick"
    for free in ("unit_weight", "cohesion", "friction_angle", "depth_to_bottom"):
        for count in (1, 3) + ((2, 4) if deep else ()):
            for t in (0, 1):
                out.append(dict(name=f"strata-{free}-{count}-{'together' if t else 'each'}", harness=strata, params=dict(count=count, free=free, together=t), opts=dict(witness=2),
                                bounds=f"{count} strata, {free} of each arbitrary"))
    for op in ("none", "remove", "depth", "add", "boundary", "again"):
        out.append(dict(name=f"coloured-{op}", harness=coloured, params=dict(count=2, op=op), opts=dict(witness=2), bounds="2 strata, every combination of 10 colour arguments, then a change"))
        if deep or op in ("remove", "add"):
            out.append(dict(name=f"coloured3-{op}", harness=coloured, params=dict(count=3, op=op), opts=dict(witness=2), bounds="3 strata, every combination of 4 colour arguments, then a change"))
    for n in (4, 10, 12):
        out.append(dict(name=f"many-{n}", harness=many, params=dict(count=n), opts=dict(witness=1), bounds=f"{n} strata"))
    for w in ("boundary", "critical", "critical_legend", "all", "default", "none"):
        out.append(dict(name=f"results-{w}", harness=results, params=dict(which=w), opts=dict(witness=1), bounds="2 strata, any cohesion of one"))
    out.append(dict(name="loads", harness=loads, params={}, opts=dict(witness=4), bounds="a uniform and a line load of any magnitude 0.5..90, every combination of 10 colour arguments"))
    return out
