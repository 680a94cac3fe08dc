"""P05 The legend explains the colours of the planes."""
from .P02 import CIRCLES, colour, line_of, model, norm
from .P04 import num

OUTSIDE = "models without strata (nothing but the outline is drawn); fonts and text shifts; labels are accepted within three steps of the scale beside their colour; factors of safety within 0.0005 of the border between two tenths"


def same(E, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(E, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(E, x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    return E.identical(a, b)


def more(E, a, b):
    """Elements of a that are not in b."""
    b = list(b)
    out = []
    for x in a:
        i = next((i for i, y in enumerate(b) if same(E, x, y)), None)
        if i is None:
            out.append(x)
        else:
            del b[i]
    return out, b


def titles(f):
    return [a for a in f["annotations"] if isinstance(a.get("text"), str) and "legend" in a["text"].lower()]


def scale(E, on, off, what):
    """(colours from 0 to 5 in tenths) of the legend in figure on, off: the same figure without."""
    E.check(len(titles(off)) == 0, what + ": no legend unless asked for", f"{len(titles(off))}")
    E.check(len(titles(on)) == 1, what + ": one legend when asked for", f"{len(titles(on))}")
    shapes, lost = more(E, on["shapes"], off["shapes"])
    notes, gone = more(E, on["annotations"], off["annotations"])
    E.check(not lost and not gone, what + ": the legend replaces nothing", f"{lost[:1]} {gone[:1]}")
    known = {norm(c) for c in E.ps.COLOUR_FOS_DICT.values()}
    sw = [q for q in shapes if norm(q.get("fillcolor")) in known]
    E.check(len(sw) == 51, what + ": a colour for every tenth from 0 to 5", f"{len(sw)}")
    if len(sw) != 51:
        return None
    mid = lambda q: (num(q["y0"]) + num(q["y1"])) / 2
    sw.sort(key=mid)
    step = (mid(sw[-1]) - mid(sw[0])) / 50
    E.check(step > 1e-4, what + ": the colours are side by side")
    for i, q in enumerate(sw):
        E.check(abs(mid(q) - mid(sw[0]) - i * step) < 1e-6, what + ": an even scale")
        E.check(abs(abs(num(q["y1"]) - num(q["y0"])) - step) < 1e-6, what + ": a scale without gaps")
        E.check(abs(num(q["x0"]) - num(sw[0]["x0"])) < 1e-9 and abs(num(q["x1"]) - num(sw[0]["x1"])) < 1e-9, what + ": one column")
    labels = {}
    for a in notes:
        v = E.text_number(a["text"])[0] if isinstance(a.get("text"), str) else None
        if v is not None:
            labels.setdefault(round(float(v), 6), []).append(num(a["y"]))
    E.check(sorted(labels) == [0, 1, 2, 3, 4, 5] and all(len(v) == 1 for v in labels.values()), what + ": whole numbers are labelled once", f"{labels}")
    if len(labels) < 2:
        return None
    if labels[min(labels)][0] > labels[max(labels)][0]:      # the scale may run either way
        sw.reverse()
    for k, ys in labels.items():
        if 0 <= k <= 5:
            E.check(abs(ys[0] - mid(sw[int(k * 10)])) <= 3 * abs(step), what + ": labels are beside their colours", f"{k}")
    return [q["fillcolor"] for q in sw]


def legend(E, plot, table, lo, hi):
    """Any factor of safety: what the legend says about the colour of its plane."""
    f = E.real("fos", lo, hi)
    s, cs, ends = model(E, [CIRCLES[0]], [f])
    change = E.choice("also", ["nothing", "loads", "water and limits"])
    if change == "loads":
        s.set_udls(E.ps.Udl(magnitude=20, offset=1, length=2))
        s.set_lls(E.ps.LineLoad(magnitude=20, offset=1))
    elif change == "water and limits":
        s.set_water_table(1)
        s.set_analysis_limits(left_x=1, right_x=12)
    s.analyse_slope()
    E.check(len(s._search) == 1, "one plane")
    k = dict(material_table=table)
    draw = getattr(s, plot)
    if plot == "plot_all_planes":
        k["max_fos"] = None
    on, off = E.fig(draw(legend=True, **k)), E.fig(draw(legend=False, **k))
    base = E.fig(s.plot_boundary(legend=False, material_table=table))
    E.check(len(off["shapes"]) == len(base["shapes"]), "nothing of the legend unless asked for", f"{len(off['shapes'])} {len(base['shapes'])}")
    usual = E.fig(draw(**k))
    want = plot == "plot_all_planes"
    E.check(len(titles(usual)) == want and len(usual["shapes"]) == len((on if want else off)["shapes"]), "the legend is drawn by default with all planes only", f"{len(titles(usual))} {len(usual['shapes'])}")
    got = scale(E, on, off, "legend")
    if got is None:
        return
    for i, c in enumerate(got):
        colour(E, c, E.const(i) / 10, "legend")
    planes = [q for q in on["traces"] if not q.get("fill") and not q.get("text") and q.get("x") is not None and len(q["x"]) > 8]
    E.check(bool(planes) == (plot != "plot_boundary"), "the plane is drawn")
    e = E.const(0.0505)
    for q in planes:
        at = [k for k, c in enumerate(got) if norm(c) == norm(line_of(E, q))]
        E.check(bool(at), "the colour of the plane is in the legend", f"{line_of(E, q)}")
        E.check(any(bool(f >= E.const(k) / 10 - e) and (k == 50 or bool(f <= E.const(k) / 10 + e)) for k in at), "the legend shows the factor of safety of the plane", f"{at}")
    E.observe("colour", [str(line_of(E, q)) for q in planes])


def jobs(tier):
    out = []
    deep = tier != "quick"
    ranges = [(0, 2.2), (2.2, 4.4), (4.4, 7)] if deep else [(0.93, 1.22), (4.88, 5.6)]
    for plot in ("plot_boundary", "plot_critical", "plot_all_planes"):
        for table in (False, True):
            for lo, hi in (ranges if plot != "plot_boundary" else ranges[:1]):
                out.append(dict(name=f"{plot[5:]}-{'table' if table else 'plain'}-{lo}", harness=legend, params=dict(plot=plot, table=table, lo=lo, hi=hi), opts=dict(dec=True, witness=4),
                                bounds=f"{plot}, material table {'on' if table else 'off'}, one plane of any factor of safety in {lo}..{hi}, with loads / water and limits / neither", weight=2))
    return out
