"""U01 The web form analyses the model that was entered."""
import types

from .common import state, geometry, materials, udls, lls, options, limits, water
from .P02 import arc, CIRCLES

OUTSIDE = ("submissions that the model rejects (U04); "
           "more than 3 forms of a kind; layout of the page, styling of the plot")
ASSUMPTIONS = ["symbolic runs give the fields of the real form classes their values directly (Django's text parsing is exercised by the replayed witnesses)",
               "the analysis is replaced by one with given results (the analysis itself: S, B and D properties)"]

KEYS = ("slope", "material", "udl", "lineload", "watertable", "limits", "options")
CLASSES = dict(zip(KEYS, ("SlopeForm", "MaterialForm", "UdlForm", "LineLoadForm", "WaterTableForm", "LimitsForm", "AnalysisOptionsForm")))
SETS = ("material", "udl", "lineload")
DEFAULTS = dict(material=dict(unit_weight=20.0, friction_angle=35.0, cohesion=2.0, depth_to_bottom=5.0, name="", color=""),
                udl=dict(magnitude=0.0, offset=0.0, length=0.0, color="red", dynamic_offset=False),
                lineload=dict(magnitude=0.0, offset=0.0, color="blue", dynamic_offset=False))


class Fake:
    """A bound form with its values already parsed."""

    def __init__(self, cls, values, prefix=None):
        fields = list(cls.base_fields)
        self.prefix, self.errors = prefix, {}
        if isinstance(values, list):
            self.cleaned_data = [None if v is None else dict({f: v[f] for f in fields}, id=None) for v in values]
            self.cleaned_data = [v or {} for v in self.cleaned_data]
        elif values is not None:
            self.cleaned_data = {f: values[f] for f in fields}

    def is_valid(self):
        return hasattr(self, "cleaned_data")


def text(v):
    return "" if v is None else str(v)


def post_data(forms, sub):
    """What the browser sends for the forms of the page."""
    from django.http import QueryDict
    d = QueryDict(mutable=True)
    for k in KEYS:
        f = forms[k]
        rows = [(f, sub[k])]
        if k in SETS:
            m = f.management_form
            for n in m.fields:
                d[m.add_prefix(n)] = "1000"
            d[m.add_prefix("TOTAL_FORMS")] = str(len(sub[k]))
            d[m.add_prefix("INITIAL_FORMS")] = d[m.add_prefix("MIN_NUM_FORMS")] = "0"
            rows = [(f.empty_form, v or DEFAULTS[k]) for v in sub[k]]
        for i, (g, v) in enumerate(rows):
            p = f.add_prefix(i) if k in SETS else g.prefix
            for n in g.fields:
                if n not in v or v[n] is False:
                    continue
                d[f"{p}-{n}" if p else n] = "on" if v[n] is True else text(v[n])
    return d


def blank(v):
    """The forms as the page first shows them."""
    F = lambda k: getattr(v, CLASSES[k])
    out = {}
    for k, m in (("material", "MaterialModel"), ("udl", "UdlModel"), ("lineload", "LineLoadModel")):
        S = v.modelformset_factory(getattr(v, m), F(k), extra=1)
        out[k] = S(queryset=getattr(v, m).objects.none(), prefix=k)
    for k in KEYS:
        if k not in out:
            out[k] = F(k)(prefix=k)
    return out


def forms_for(E, v, sub):
    """The bound forms of a submission."""
    if hasattr(E, "inputs_given"):
        data = post_data(blank(v), sub)
        out = []
        for k in KEYS:
            cls = getattr(v, CLASSES[k])
            if k in SETS:
                cls = v.modelformset_factory(getattr(v, dict(material="MaterialModel", udl="UdlModel", lineload="LineLoadModel")[k]), cls, extra=1)
            out.append(cls(data, prefix=k))
        for f in out:
            E.check(f.is_valid(), "submission accepted", str(f.errors))
        return out
    return [Fake(getattr(v, CLASSES[k]), sub[k]) for k in KEYS]


def submission(E, by="length", mats=1, us=(), ps=(), water_on=False, limits_on="", analysis="normal", numbers=(), lo=-50):
    """numbers: names of the groups with arbitrary values."""
    R = lambda g, n, lo, hi, d: E.real(n, lo, hi) if g in numbers else E.const(d)
    sub = dict(
        slope=dict(height=R("slope", "height", 0.5, 20, 3.25), length=R("slope", "length", 0, 40, 4.5),
                   angle=E.angle("angle", 5, 85) if "slope" in numbers and by == "angle" else 37.5),
        watertable=dict(consider_water=water_on, water_depth=R("water", "water", 0, 40, 1.25)),
        limits=dict(consider_limits=bool(limits_on), consider_internal_limits="i" in limits_on, left_x=R("limits", "x1", 0, 5, 0.5),
                    left_x_right=R("limits", "x2", 0.5, 15, 6.5), right_x_left=R("limits", "x3", 1, 30, 14), right_x=R("limits", "x4", 5, 60, 18)),
        options=dict(analysis_choice=analysis, slope_choice=by, critical_FOS=E.real("critical", 0.1, 5, kind="decimal"), max_display_FOS=2,
                     iterations=E.int("iterations", 500, 5000) if "options" in numbers else 750,
                     slices=E.int("slices", 10, 50) if "options" in numbers else 30))
    rows = []
    for i, m in enumerate(mats if isinstance(mats, (tuple, list)) else [""] * mats):
        rows.append(None if m is None else dict(
            unit_weight=R("materials", f"w{i}", 5, 30, 18 + i), friction_angle=30.0 + i,
            cohesion=R("materials", f"c{i}", 0, 50, 1 + i), depth_to_bottom=R("materials", f"d{i}", 0.2, 30, 2 + 1.5 * i),
            name=f"soil {i}" if m == "n" else "", color="#aa3311" if m == "c" else ""))
    sub["material"] = rows
    sub["udl"] = [None if k is None else dict(magnitude=R("loads", f"q{i}", lo, 50, 12 + i), offset=R("loads", f"o{i}", lo / 10, 15, 0.5 + i),
                                              length=R("loads", f"l{i}", max(lo, 0), 9, 2.5), color=["green", None][k], dynamic_offset=bool(k)) for i, k in enumerate(us)]
    sub["lineload"] = [None if k is None else dict(magnitude=R("loads", f"p{i}", lo, 50, 7 + i), offset=R("loads", f"x{i}", lo / 10, 15, 1 + i),
                                                   color=["#123456", None][k], dynamic_offset=bool(k)) for i, k in enumerate(ps)]
    return sub


def direct(E, sub):
    """The same model built with the library."""
    ps = E.ps
    g, o = sub["slope"], sub["options"]
    if o["slope_choice"] == "length":
        s = ps.Slope(height=g["height"], length=g["length"])
    else:
        s = ps.Slope(height=g["height"], length=None, angle=g["angle"])
    ms, us, ls = ([dict(DEFAULTS[k], **(v or {})) for v in sub[k]] for k in SETS)
    s.set_materials(*[ps.Material(unit_weight=m["unit_weight"], friction_angle=m["friction_angle"], cohesion=m["cohesion"],
                                  depth_to_bottom=m["depth_to_bottom"], name=m["name"], color=m["color"]) for m in ms])
    s.set_udls(*[ps.Udl(magnitude=u["magnitude"], offset=u["offset"], length=u["length"], color=u["color"], dynamic_offset=u["dynamic_offset"]) for u in us])
    s.set_lls(*[ps.LineLoad(magnitude=p["magnitude"], offset=p["offset"], color=p["color"], dynamic_offset=p["dynamic_offset"]) for p in ls])
    if sub["watertable"]["consider_water"]:
        s.set_water_table(sub["watertable"]["water_depth"])
    x = sub["limits"]
    if x["consider_limits"]:
        if x["consider_internal_limits"]:
            s.set_analysis_limits(left_x=x["left_x"], right_x=x["right_x"], left_x_right=x["left_x_right"], right_x_left=x["right_x_left"])
        else:
            s.set_analysis_limits(left_x=x["left_x"], right_x=x["right_x"])
    s.update_analysis_options(slices=o["slices"], iterations=o["iterations"])
    return s


class Analysis:
    """Replaces the analysis of every slope; remembers the models that were analysed."""

    def __init__(self, E, cls, fos=None, planes=None):
        self.E, self.cls, self.runs = E, cls, []
        self.old = cls.analyse_slope
        fos = fos or (lambda s: E.const(1.5))

        def analyse(s, max_fos=None):
            self.runs.append((s, max_fos, full(s)))
            s._search = [dict(p) for p in planes(s)] if planes else [dict(FOS=fos(s), c_x=E.const(11), c_y=E.const(14), radius=E.const(6.02),
                                                                          l_c=(E.const(7), E.const(9.5)), r_c=(E.const(12), E.const(8)))]
        cls.analyse_slope = analyse

    def restore(self):
        self.cls.analyse_slope = self.old


def full(s):
    return [geometry(s), materials(s), udls(s), lls(s), water(s), options(s), limits(s),
            [[m.name, m.color] for m in s._materials], [[u.color, u.dynamic_offset] for u in s._udls], [[p.color, p.dynamic_offset] for p in s._lls]]


NAMES = ["section", "strata", "uniform loads", "line loads", "water", "options", "limits", "names and colours of strata", "colours and movability of uniform loads",
         "colours and movability of line loads"]


def same_model(E, a, b, what):
    for n, x, y in zip(NAMES, a, b):
        E.close(x, y, f"{what}: {n}")


def form(E, **k):
    """create_slope with one submission."""
    v = E.views()
    sub = submission(E, **k)
    try:
        want = direct(E, sub)
    except ValueError:
        E.assume(False)
    a = Analysis(E, v.Slope)
    try:
        s = v.create_slope(*forms_for(E, v, sub))
    finally:
        a.restore()
    E.check(len(a.runs) == 1 and a.runs[0][0] is s, "analysed once")
    same_model(E, full(s), full(want), "model that is shown")
    for r in a.runs:
        same_model(E, r[2], full(want), "model that is analysed")
        E.check(r[1] is None or r[1] == 5, "planes up to a factor of safety of 5 are kept", f"{r[1]}")
    E.check(len(s._search) == 1, "the results are those of the analysis")
    E.observe("section", geometry(s)[0])


def dynamic(E, us, ps, by="length"):
    """Dynamic analysis towards the entered factor of safety."""
    v = E.views()
    sub = submission(E, by=by, us=us, ps=ps, analysis="dynamic")
    c = sub["options"]["critical_FOS"]
    m = E.real("critical", 0.1, 5)
    if (m - E.const(1.25)) * (m - E.const(1.25)) < E.const(1e-12 if hasattr(E, "inputs_given") else 4e-12):
        E.assume(False)

    def fos(s):
        o = [u.offset for u in s._udls if u.dynamic_offset] + [p.offset for p in s._lls if p.dynamic_offset]
        return E.const(1.25) + (o[0] / 8 if o else E.const(0))

    want = direct(E, sub)
    a = Analysis(E, v.Slope, fos)
    try:
        s = v.create_slope(*forms_for(E, v, sub))
    finally:
        a.restore()
    b = Analysis(E, type(want), fos)
    try:
        want.analyse_dynamic(critical_fos=m)
    finally:
        b.restore()
    same_model(E, full(s), full(want), "model that is shown")
    E.check(len(s._search) == 1, "the results are those of the analysis")
    E.close(s._search[0]["FOS"], want._search[0]["FOS"], "results of the dynamic analysis")
    E.close([r[2][2] + r[2][3] for r in a.runs], [r[2][2] + r[2][3] for r in b.runs], "trial positions of the dynamic analysis")
    E.observe("fos", s._search[0]["FOS"])


PLANES = [(11.0, 14.0, 6.02), (11.0, 12.0, 6.32)]


def page(E, n, kind):
    """The whole request: results in the page and in the session."""
    v = E.views()
    sub = submission(E, us=(0,), ps=(1,))
    fos = [E.real(f"fos{i}", 0.5 + i * 0.75, 1 + i * 0.75) for i in range(n)]
    g = E.ps.Slope(height=3, length=4)
    g.set_materials(E.ps.Material(depth_to_bottom=4))
    for c in PLANES[:n]:
        g.add_single_circular_plane(*[E.const(x) for x in c])
    ends = [(list(p["l_c"]), list(p["r_c"])) for p in g._individual_planes]
    sub["slope"].update(height=E.const(3), length=E.const(4))
    sub["udl"] = []
    sub["lineload"] = []
    sub["material"][0].update(depth_to_bottom=E.const(4))
    found = [dict(FOS=f, c_x=E.const(c[0]), c_y=E.const(c[1]), radius=E.const(c[2]), l_c=tuple(e[0]), r_c=tuple(e[1])) for f, c, e in zip(fos, PLANES, ends)]
    out = {}
    keep = {k: getattr(v, k) for k in ("render", "redirect", "modelformset_factory", *CLASSES.values())}
    a = Analysis(E, v.Slope, planes=lambda s: found)
    v.render = lambda request, template, context=None, **k: out.update(context or {}) or "page"
    v.redirect = lambda to, *x, **k: ("redirect", to)
    req = types.SimpleNamespace(method="POST", POST=None, session={})
    try:
        if hasattr(E, "inputs_given"):
            req.POST = post_data(blank(v), sub)
        else:
            req.POST = dict(submitted=True)
            fake = lambda k: (lambda data=None, prefix=None, **q: Fake(keep[CLASSES[k]], sub[k] if data else None, prefix))
            for k in KEYS:
                setattr(v, CLASSES[k], fake(k) if k not in SETS else k)
            v.modelformset_factory = lambda model, form, **q: fake(form)
        r = v.index(req)
        E.check(r == "page", "the page is shown", str(r))
        first = dict(out)
        E.check(len(a.runs) == 1, "analysed once")
        res = list(first.get("search") or ())
        E.check(len(res) == n, "all planes that were found are shown", f"{len(res)}")
        for p, f, c, e in zip(res, fos, PLANES, ends):
            E.close([p["FOS"], p["c_x"], p["c_y"], p["radius"]], [f, *c], "planes of the page, most critical first")
            xs, ys = list(p["x"]), list(p["y"])
            E.check(len(xs) == len(ys) and len(xs) > 5, "points of the plane")
            arc(E, xs, ys, [E.const(x) for x in c], e[0] + e[1], "plane of the page")
        fig = figure(E, first.get("plot_json"))
        want = E.fig(g_plot(E, g, found))
        E.check(len(fig["traces"]) == len(want["traces"]), "the plot shows the section and the critical plane", f"{len(fig['traces'])} {len(want['traces'])}")
        for p, q in zip(fig["traces"], want["traces"]):
            if p.get("x") is not None and q.get("x") is not None and len(p["x"]) == len(q["x"]):
                E.close(list(p["x"]), list(q["x"]), "the plot shows the section and the critical plane", 1e-3)
                E.close(list(p["y"]), list(q["y"]), "the plot shows the section and the critical plane", 1e-3)
            else:
                E.check(len(p.get("x") or ()) == len(q.get("x") or ()), "the plot shows the section and the critical plane")
        E.check(same_search(E, req.session.get("search"), res), "the results are kept for the PDF")
        again = figure(E, req.session.get("plot_json"))
        E.check(len(again["traces"]) == len(fig["traces"]), "the plot is kept for the PDF")
        if kind == "again":
            out.clear()
            req.method = "GET"
            r = v.index(req)
            E.check(r == "page", "the page is shown again", str(r))
            E.check(len(a.runs) == 1, "the page is shown again without a new analysis")
            E.check(same_search(E, out.get("search"), res), "the same results are shown again")
            E.check(len(figure(E, out.get("plot_json"))["traces"]) == len(fig["traces"]), "the same plot is shown again")
            r = v.reset(req)
            E.check(not req.session.get("search") and not req.session.get("plot_json"), "reset forgets the results")
    finally:
        a.restore()
        for k, x in keep.items():
            setattr(v, k, x)
    E.observe("n", len(res))


def g_plot(E, g, found):
    g._search = [dict(p) for p in found]
    return g.plot_critical() if found else g.plot_boundary()


def same_search(E, a, b):
    a = list(a or ())
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        E.close([p["FOS"], p["c_x"], p["c_y"], p["radius"]], [q["FOS"], q["c_x"], q["c_y"], q["radius"]], "same planes")
    return True


def figure(E, j):
    if isinstance(j, str):
        from plotly.io import from_json
        j = from_json(j)
    return E.fig(j)


def jobs(tier):
    out = []
    deep = tier != "quick"
    cases = [
        ("length", dict(numbers=("slope",)), "height 0.5..20, length 0..40"),
        ("angle", dict(by="angle", numbers=("slope",)), "height 0.5..20, angle 5..85"),
        ("length-options", dict(numbers=("options",)), "iterations and slices within the form's limits"),
        ("materials", dict(mats=["n", "c"], numbers=("materials",)), "2 strata of any weight, cohesion and depth"),
        ("materials-default", dict(mats=[None, "c"], numbers=("materials",)), "a default stratum and one of any values"),
        ("no-materials", dict(mats=[None]), "defaults only"),
        ("uniform", dict(us=(1,), ps=(0,), mats=[""], numbers=("loads",)), "a uniform and a line load, magnitudes -50..50, offsets -5..15"),
        ("uniforms", dict(us=(0, 1), numbers=("loads",), lo=0.1), "2 uniform loads, magnitudes 0.1..50, offsets 0.01..15"),
        ("loads-default", dict(us=(None, 1), ps=(None, 1), numbers=("loads",), lo=0.1), "untouched forms and one load of each kind"),
        ("lines", dict(us=(), ps=(0, 1), numbers=("loads",)), "2 line loads"),
        ("water", dict(water_on=True, numbers=("water",)), "water depth 0..40"),
        ("water-slope", dict(water_on=True, numbers=("water", "slope")), "water depth 0..40 and any section"),
        ("water-off", dict(water_on=False, numbers=("water",)), "water switched off, depth 0..40"),
        ("limits", dict(limits_on="o", numbers=("limits",)), "outer limits anywhere"),
        ("limits-inner", dict(limits_on="oi", numbers=("limits",)), "all limits anywhere"),
        ("limits-off", dict(limits_on="", numbers=("limits",)), "limits switched off"),
        ("all", dict(by="angle", mats=["n", None], us=(0,), ps=(1,), water_on=True, limits_on="oi", numbers=("water", "limits")), "everything switched on"),
        ("all-options", dict(mats=["c"], us=(1, 0), ps=(0,), water_on=True, limits_on="o", numbers=("options", "water")), "everything switched on"),
    ]
    if deep:
        cases += [("loads", dict(us=(0, 1), ps=(0,), numbers=("loads",), lo=0.1), "2 uniform loads and a line load, magnitudes 0.1..50, offsets 0.01..15"),
                  ("three", dict(mats=["n", "", "c"], numbers=("materials",)), "3 strata"),
                  ("three-loads", dict(us=(0, 1, 0), ps=(0, 1, 0), numbers=()), "3 loads of each kind"),
                  ("limits-section", dict(limits_on="oi", numbers=("limits", "slope")), "all limits, any section"),
                  ("loads-section", dict(us=(0,), ps=(1,), water_on=True, numbers=("loads", "slope", "water")), "loads, water and any section")]
    for n, k, b in cases:
        out.append(dict(name=f"form-{n}", harness=form, params=k, opts=dict(witness=4), bounds=b, weight=3))
    for i, (us, ps) in enumerate([((1,), ()), ((), (1,)), ((0, 1), (0,)), ((1,), (1, 0)), ((0,), ()), ((), ())]):
        out.append(dict(name=f"dynamic-{i}", harness=dynamic, params=dict(us=us, ps=ps), opts=dict(witness=1), bounds="critical factor of safety 0.1..5, factor of safety 1.25 + offset/8", weight=3))
    for n in (0, 1, 2):
        for kind in ("post", "again")[:1 + bool(n)]:
            out.append(dict(name=f"page-{n}-{kind}", harness=page, params=dict(n=n, kind=kind), opts=dict(dec=True, witness=3), bounds=f"{n} planes found, any factors of safety", weight=3))
    return out
