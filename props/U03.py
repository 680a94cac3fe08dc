"""U03 The web session shows what was last analysed."""
import types

from .P02 import arc
from .U01 import Analysis, CLASSES, Fake, KEYS, PLANES, SETS, blank, figure, post_data, same_search, submission

OUTSIDE = "sequences of more than 4 requests; requests that are handled at the same time; storage of sessions (the session is modelled as Django's: values are stored as JSON after a request that assigned to it)"
ASSUMPTIONS = ["symbolic runs give the fields of the real form classes their values directly (Django's text parsing is exercised by the replayed witnesses)",
               "the analysis is replaced by one with given results (the analysis itself: S, B and D properties)",
               "redirects are followed by the browser"]


class Session(dict):
    """Django's: changes are stored when a key was assigned or deleted, as JSON."""
    modified = False

    def __setitem__(self, k, v):
        self.modified = True
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self.modified = True
        dict.__delitem__(self, k)

    def pop(self, *a):
        self.modified = True
        return dict.pop(self, *a)

    def setdefault(self, k, v=None):
        self.modified = True
        return dict.setdefault(self, k, v)

    def update(self, *a, **k):
        self.modified = True
        dict.update(self, *a, **k)

    def clear(self):
        self.modified = True
        dict.clear(self)
    flush = clear

    def save(self):
        pass


def json(v):
    """What comes back of a stored value."""
    if isinstance(v, dict):
        return {str(k): json(v[k]) for k in v}
    if isinstance(v, (list, tuple)):
        return [json(x) for x in v]
    return v


class Browser:
    """What one visitor has, and should see."""

    def __init__(self):
        self.stored = {}      # its session
        self.forms = None     # what was posted, None: nothing in the session, "?": open
        self.results = []     # planes of the last analysis that is stored
        self.have = False


class Web:
    """Browsers in front of the real views; tab is the one that sends the next request."""

    def __init__(self, E):
        self.E, self.v = E, E.views()
        self.real = hasattr(E, "inputs_given")
        self.found, self.page, self.drawn, self.subs = [], None, [], {}
        self.tab = Browser()
        v = self.v
        self.keep = {k: getattr(v, k) for k in ("render", "redirect", "modelformset_factory", *CLASSES.values())}
        self.analysis = Analysis(E, v.Slope, planes=lambda s: self.found(s) if callable(self.found) else self.found)
        v.render = lambda request, template, context=None, *a, **k: ("page", context or {})
        v.redirect = lambda to, *a, **k: ("redirect", to)
        F = v.go.Figure
        self.figure = F, F.__dict__.get("to_image")
        F.to_image = lambda f, *a, **k: self.drawn.append(f) or b"%PDF"
        if not self.real:
            for k in KEYS:
                setattr(v, CLASSES[k], self.fake(k) if k not in SETS else k)
            v.modelformset_factory = lambda model, form, **q: self.fake(form)

    def restore(self):
        self.analysis.restore()
        for k, x in self.keep.items():
            setattr(self.v, k, x)
        F, old = self.figure
        if old is None:
            del F.to_image
        else:
            F.to_image = old

    def fake(self, k):
        def make(data=None, prefix=None, **q):
            sub = self.subs.get(data.get("which")) if data else None
            f = Fake(self.keep[CLASSES[k]], sub[k] if sub else None, prefix)
            f.is_bound, f.data = data is not None, data or {}
            return f
        return make

    def post(self, which, sub):
        self.subs[which] = sub
        if self.real:
            d = post_data(blank(self.v), sub or submission(self.E))
            if sub is None:
                d["slope-height"] = "tall"
            return d
        return dict(which=which)

    def request(self, view, method, data=None, *a):
        """One request and the redirects that follow -> last answer."""
        for _ in range(4):
            s = Session(json(self.tab.stored))
            req = types.SimpleNamespace(method=method, POST={} if data is None else data, GET={}, session=s)
            if self.real and data is None:
                from django.http import QueryDict
                req.POST = QueryDict()
            self.method = method
            r = getattr(self.v, view)(req, *a)
            if s.modified:
                if self.real:
                    import json as j
                    self.tab.stored = j.loads(j.dumps(dict(s)))
                else:
                    self.tab.stored = json(s)
            if not (isinstance(r, tuple) and r[0] == "redirect"):
                return r
            view, method, data, a = r[1], "GET", None, ()
        return r


def planes(E, s, fos):
    out = []
    for f, c in zip(fos, PLANES):
        t = s.get_top_coordinates()
        k = (t[1] - s.get_bottom_coordinates()[1]) / 3
        c = (t[0] + k * E.const(c[0] - 10.5), t[1] + k * E.const(c[1] - 9), k * E.const(c[2]))
        s.add_single_circular_plane(*c)
        p = s._individual_planes[-1]
        out.append(dict(FOS=f, c_x=c[0], c_y=c[1], radius=c[2], l_c=tuple(p["l_c"]), r_c=tuple(p["r_c"])))
    return out


def same_data(a, b):
    get = lambda d: {k: (d[k][-1] if isinstance(d[k], list) and d[k] else d[k]) for k in d}
    return get(a) == get(b)


def shown(E, w, page, found, posted, what):
    """The page shows the planes found and the forms as posted (None: untouched)."""
    E.check(isinstance(page, tuple) and page[0] == "page", f"{what}: a page is shown", str(page)[:80])
    if not (isinstance(page, tuple) and page[0] == "page"):
        return
    c = page[1]
    E.check(same_search(E, c.get("search"), found), f"{what}: the planes shown", f"{len(list(c.get('search') or ()))} {len(found)}")
    for p, q in zip(c.get("search") or (), found):
        xs, ys = list(p.get("x") or ()), list(p.get("y") or ())
        E.check(len(xs) == len(ys) and len(xs) > 4, f"{what}: points of the planes", f"{len(xs)}")
        if len(xs) > 4:
            arc(E, xs, ys, (q["c_x"], q["c_y"], q["radius"]), list(q["l_c"]) + list(q["r_c"]), what)
    f = figure(E, c.get("plot_json"))
    lines = [t for t in f["traces"] if not t.get("fill") and t.get("x") is not None and len(t["x"]) > 8]
    if found:
        E.check(any(abs_near(E, t["x"][0], found[0]["l_c"][0]) and any(abs_near(E, x, found[0]["r_c"][0]) for x in list(t["x"])[-3:]) for t in lines), f"{what}: the plot shows the critical plane")
        texts = [list(t.get("text") or ()) for t in f["traces"] if t.get("text") is not None]
        labels = [E.text_number(x)[0] for t in texts for x in (t if not isinstance(t, str) else [t])] + [E.text_number(a.get("text"))[0] for a in f["annotations"]]
        E.check(any(l is not None and abs_near(E, l, found[0]["FOS"], 0.006) for l in labels), f"{what}: the plot shows the factor of safety of the critical plane")
    for k, name in zip(KEYS, ("slope_form", "material_formset", "udl_formset", "line_load_formset", "water_table_form", "limits_form", "options_form")):
        form = c.get(name)
        E.check(form is not None, f"{what}: the {k} form is on the page")
        if form is None:
            continue
        E.check(form.is_bound == (posted is not None) and (posted is None or same_data(form.data, posted)), f"{what}: the forms show what was entered", name)
        E.check(any(x is form for q in c.get("forms") or () for x in q), f"{what}: the forms of the page", name)


def abs_near(E, a, b, tol=1e-6):
    d = a - b
    return bool(d < E.const(tol)) and bool(d > E.const(-tol))


def default_model(E, s, max_fos, n):
    E.check(max_fos is None or max_fos == 5, "default analysis keeps planes up to a factor of safety of 5")
    d = E.ps.Slope(angle=45)
    d.set_materials(E.ps.Material())
    d.update_analysis_options(iterations=500, slices=10)
    from .U01 import full, same_model
    same_model(E, n, full(d), "default model")


def session(E, steps, length, browsers=1):
    """Requests one after another; with several browsers each sees its own results only."""
    w = Web(E)
    tabs = [Browser() for _ in range(browsers)]
    try:
        for i in range(length):
            who, op = steps[i] if i < len(steps) else (None, None)
            if op is None:
                who = E.choice(f"browser{i}", list(range(browsers))) if browsers > 1 else 0
                op = E.choice(f"request{i}", list("PIRGDE") if i < length - 1 else list("GD"))
            t = w.tab = tabs[who]
            what = dict(P="submission", I="rejected submission", R="after reset", G="page", D="report", E="submission without results")[op]
            runs = len(w.analysis.runs)
            g = E.ps.Slope(angle=45) if op in "IRG" else E.ps.Slope(height=3, length=4)
            if op in "PE":
                g.set_materials(E.ps.Material(depth_to_bottom=4))
            a = E.real(f"fos{i}", 1.02 + 0.2 * i, 1.04 + 0.2 * i)
            b = E.real(f"more{i}", 2.02 + 0.2 * i, 2.04 + 0.2 * i)
            new = planes(E, g, [a, b] if i % 2 == 0 else [a]) if op != "E" else []
            w.found = [dict(p) for p in new]
            if op in "PE":
                sub = submission(E, mats=1 + i % 2)
                sub["slope"].update(height=E.const(3), length=E.const(4))
                d = w.post(i, sub)
                page = w.request("index", "POST", d)
                E.check(len(w.analysis.runs) == runs + 1, "a submission is analysed once", f"{len(w.analysis.runs) - runs}")
                shown(E, w, page, new, d, what)
                t.results, t.forms, t.have = new, d if new else "?", bool(new)
            elif op == "D":
                m = E.real(f"max{i}", 0.9, 1.7)
                w.drawn = []
                r = w.request("pdf", "GET", None, f"{m}")
                if t.have:
                    E.check(len(w.drawn) == 1, "a report of the last analysis", f"{len(w.drawn)}")
                    E.check(len(w.analysis.runs) == runs, "a report is not a new analysis")
                    for f in w.drawn:
                        rows = [q for q in E.fig(f)["traces"] if q.get("meta") is not None and not q.get("fill") and q.get("x") is not None and len(q["x"]) > 4]
                        want = [p for p in t.results if bool(p["FOS"] < m)]
                        for p in want:
                            E.check(any(abs_near(E, q["meta"][0], p["FOS"], 0.0012) and abs_near(E, q["x"][0], p["l_c"][0]) for q in rows), "the report draws the planes of the last analysis")
                        for q in rows:
                            E.check(any(abs_near(E, q["meta"][0], p["FOS"], 0.0012) for p in t.results), "the report draws no other planes")
                else:
                    E.check(not w.drawn, "no report without results")
                    E.check(isinstance(r, tuple) and r[0] == "page", "without results the report leads to the main page", str(r)[:60])
                    # the page that is shown instead is the default one
                    if len(w.analysis.runs) > runs:
                        t.have, t.results, t.forms = True, new_default(w), None
            else:
                page = w.request(*dict(I=("index", "POST", w.post(i, None)), R=("reset", "GET"), G=("index", "GET"))[op])
                if op != "G":
                    t.forms, t.have = None, False
                if t.forms == "?":
                    if isinstance(page, tuple) and page[0] == "page":
                        if len(w.analysis.runs) == runs:
                            E.check(not list(page[1].get("search") or ()), "no planes are shown when none were found")
                        else:
                            t.forms, t.results, t.have = None, new, True
                elif t.forms is None:
                    E.check(len(w.analysis.runs) == runs + 1 or (t.have and op == "G" and len(w.analysis.runs) == runs), "the default model is analysed once")
                    for s, m, n in w.analysis.runs[runs:]:
                        default_model(E, s, m, n)
                        t.results = new
                    t.have = True
                    shown(E, w, page, t.results, None, what)
                else:
                    E.check(len(w.analysis.runs) == runs, "the page is shown again without a new analysis")
                    shown(E, w, page, t.results, t.forms, what)
    finally:
        w.restore()
    E.observe("n", sum(len(t.results) for t in tabs))


def many(E, n):
    """A search with many planes, all but one of fixed factors of safety."""
    w = Web(E)
    try:
        g = E.ps.Slope(height=3, length=4)
        g.set_materials(E.ps.Material(depth_to_bottom=4))
        base = planes(E, g, [E.const(1), E.const(1)])
        pos = E.choice("position", [0, n // 3, n - 1])
        f = E.real("fos", 1.0001 + 0.002 * pos, 1.0009 + 0.002 * pos)
        new = [dict(base[i % 2], FOS=f if i == pos else E.const(round(1.0005 + 0.002 * i, 4))) for i in range(n)]
        w.found = [dict(p) for p in new]
        sub = submission(E)
        sub["slope"].update(height=E.const(3), length=E.const(4))
        d = w.post(0, sub)
        for what in ("submission", "page"):
            r = w.request("index", "POST", d) if what == "submission" else w.request("index", "GET")
            E.check(isinstance(r, tuple) and r[0] == "page", f"{what}: a page is shown", str(r)[:80])
            if isinstance(r, tuple) and r[0] == "page":
                E.check(same_search(E, r[1].get("search"), new), f"{what}: all planes are shown", f"{len(list(r[1].get('search') or ()))} {len(new)}")
        w.request("pdf", "GET", None, "100")
        E.check(len(w.drawn) == 1, "a report of the last analysis", f"{len(w.drawn)}")
        for fig in w.drawn:
            rows = [q for q in E.fig(fig)["traces"] if q.get("meta") is not None and not q.get("fill") and q.get("x") is not None and len(q["x"]) > 4]
            E.check(len(rows) == n, "the report draws all planes", f"{len(rows)} {n}")
    finally:
        w.restore()


def new_default(w):
    return [dict(p) for p in w.found]


def jobs(tier):
    out = []
    deep = tier != "quick"
    # the first request(s) are fixed, the others are open
    for first in "PIRGDE":
        out.append(dict(name=f"session-{first}", harness=session, params=dict(steps=[(0, x) for x in first], length=3), opts=dict(dec=True, witness=3), bounds=f"3 requests, the first {first}, the last a page or a report; any factors of safety", weight=4))
    for first in ("PG", "PR", "PP", "GP", "PD", "PE") + (("RP", "IP", "DP", "EP", "GR", "GG", "PI") if deep else ()):
        out.append(dict(name=f"session-{first}", harness=session, params=dict(steps=[(0, x) for x in first], length=4), opts=dict(dec=True, witness=2), bounds=f"4 requests, the first two {first}, the last a page or a report; any factors of safety", weight=5))
    for first in ("aP bP", "aP bG", "aP bD", "aG bP") + (("aP bR", "aP bI", "aP bE", "aE bP", "aI bP", "aP bP aP") if deep else ()):
        steps = [(ord(x[0]) - 97, x[1]) for x in first.split()]
        out.append(dict(name=f"two-{first.replace(' ', '-')}", harness=session, params=dict(steps=steps, length=len(steps) + 1 + (deep and len(steps) < 3), browsers=2), opts=dict(dec=True, witness=2), bounds=f"two browsers, first the requests {first}, then any request of either; any factors of safety", weight=5))
    out.append(dict(name="many", harness=many, params=dict(n=600 if deep else 120), opts=dict(dec=True, witness=1), bounds=f"{600 if deep else 120} planes, one of them with any factor of safety", weight=6))
    return out
