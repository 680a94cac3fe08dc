"""U02 The PDF report draws exactly the planes below the chosen maximum."""
import types

from .P02 import CIRCLES, arc, colour, line_of, near
from .search import Recorder

OUTSIDE = ("circles with their centre below the crest or above it so far that they enter at less than 1 degree; colours within 0.0005 of the border between two tenths; "
           "more than 3 stored planes; rendering of the figure to PDF (plotly)")


def stored(E, circles, fos):
    """Results as the session keeps them, most critical first."""
    s = E.ps.Slope(height=3, length=4)
    s.set_materials(E.ps.Material(depth_to_bottom=4))
    cs = [tuple(E.const(v) if isinstance(v, (int, float)) else v for v in c) for c in circles]
    for c in cs:
        s.add_single_circular_plane(*c)
    Recorder(E, s, fos=lambda c: next(f for f, k in zip(fos, cs) if all(E.identical(x, y) for x, y in zip(k, c))))
    ends = [list(p["l_c"]) + list(p["r_c"]) for p in s._individual_planes]
    s.analyse_slope()
    return s, cs, ends


def pdf(E, n, ranges, top, default=False, form="json"):
    v = E.views()
    fos = [E.real(f"f{i}", lo, hi) for i, (lo, hi) in enumerate(ranges)]
    s, cs, ends = stored(E, CIRCLES[:n], fos)
    m = E.const(5) if default else E.real("max", *top)
    search = [{k: [x for x in q] if isinstance(q, tuple) and form == "json" else q for k, q in p.items()} for p in s._search]
    fig = s.plot_boundary(material_table=False)
    before = len(E.fig(fig)["traces"])
    drawn = []
    Figure = v.go.Figure
    keep = Figure.__dict__.get("to_image"), v.redirect
    Figure.to_image = lambda f, *a, **k: drawn.append(f) or b"%PDF"
    v.redirect = lambda to, *x, **k: ("redirect", to)
    req = types.SimpleNamespace(method="GET", session=dict(plot_json=fig.to_json(), search=search))
    try:
        r = v.pdf(req) if default else v.pdf(req, f"{m}")
    finally:
        if keep[0] is None:
            del Figure.to_image
        else:
            Figure.to_image = keep[0]
        v.redirect = keep[1]
    E.check(len(drawn) == 1, "one figure is exported", f"{len(drawn)}")
    if len(drawn) != 1:
        return
    E.check(bytes(r.content) == b"%PDF", "the response is the PDF")
    got = E.fig(drawn[0])["traces"]
    E.check(len(got) >= before, "the plot of the section stays")
    order = [next(i for i in range(n) if near(E, p["radius"], cs[i][2])) for p in s._search]
    seen = []
    for q in got[before:]:
        xs, ys = list(q.get("x") or ()), list(q.get("y") or ())
        i = next((i for i in range(n) if i not in seen and len(xs) > 5 and near(E, xs[0], ends[i][0]) and near(E, xs[-1], ends[i][2])), None)
        E.check(i is not None, "only stored planes are drawn, once")
        if i is None:
            continue
        seen.append(i)
        arc(E, xs, ys, cs[i], ends[i], "plane")
        colour(E, line_of(E, q), fos[i], "plane")
        E.check(bool(q.get("meta")), "plane labelled")
        if q.get("meta"):
            E.close(q["meta"][0], fos[i], "labelled by its factor of safety", 0.0012)
    for i in range(n):
        if fos[i] < m:
            E.check(i in seen, "every plane below the maximum is drawn")
        else:
            E.check(i not in seen, "no plane at or above the maximum is drawn")
    E.check(seen == [i for i in reversed(order) if i in seen], "more critical planes are drawn on top", f"{seen} {order}")
    E.observe("drawn", seen)


def nothing(E, kind):
    """No stored results: back to the main page."""
    v = E.views()
    session = dict(missing={}, empty=dict(plot_json=[], search=[]), noplanes=dict(plot_json="{}", search=[]), noplot=dict(search=[dict(FOS=1)]))[kind]
    keep = v.redirect
    v.redirect = lambda to, *x, **k: ("redirect", to)
    try:
        r = v.pdf(types.SimpleNamespace(method="GET", session=session), f"{E.real('max', 0.1, 5)}")
    finally:
        v.redirect = keep
    E.check(r == ("redirect", "index"), "back to the main page", f"{r}")


def jobs(tier):
    out = []
    for j, (n, ranges, top, d) in enumerate([
            (1, [(0.9, 2.3)], (0.5, 2), False),
            (2, [(0.96, 1.22), (1.08, 1.33)], (0.9, 1.4), False),
            (2, [(4.85, 5.6), (4.9, 7)], (4.5, 7), False),
            (2, [(4.85, 5.6), (1.2, 1.3)], None, True),
            (3, [(1.06, 1.14), (1.08, 1.12), (1.2, 1.3)], (1, 1.4), False)] +
            ([(3, [(1, 1.5), (1, 1.5), (1, 1.5)], (1.2, 1.3), False), (4, [(1, 1.1), (1.05, 1.15), (1.12, 1.3), (2, 2.1)], (0.9, 2.2), False), (1, [(0, 9)], (0, 9), False)] if tier != "quick" else [])):
        out.append(dict(name=f"pdf-{j}", harness=pdf, params=dict(n=n, ranges=ranges, top=top, default=d), opts=dict(dec=True, witness=8), bounds=f"{n} planes with factors of safety in {ranges}, maximum in {top or 'default'}", weight=3))
    for k in ("missing", "empty", "noplanes", "noplot"):
        out.append(dict(name=f"nothing-{k}", harness=nothing, params=dict(kind=k), opts=dict(witness=1), bounds="no stored results"))
    return out
