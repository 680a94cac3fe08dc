"""Recorder for plotly figures, and the normal form figures are compared in."""
import types

MAGIC = ("line", "font", "marker", "textfont", "title", "legend", "xaxis", "yaxis", "margin", "hoverlabel", "label")


COLOURS = ("color", "fillcolor", "arrowcolor", "bgcolor", "bordercolor")
_known = {}


def _drawable(v):
    """Plotly refuses strings that are no colours."""
    if v not in _known:
        from .loader import SITE
        import sys
        if SITE not in sys.path:
            sys.path.append(SITE)
        from _plotly_utils.basevalidators import ColorValidator
        _known[v] = ColorValidator.perform_validate_coerce(v) is not None
    if not _known[v]:
        raise ValueError(f"Invalid value received for a color property: {v!r}")


def _colours(d):
    for k, v in d.items():
        if k in COLOURS and type(v) is str:
            _drawable(v)
        elif k in MAGIC and isinstance(v, dict):
            _colours(v)


def _expand(d):
    d = _expand_(d)
    _colours(d)
    return d


def _expand_(d):
    out = {}
    for k, v in d.items():
        head, _, tail = k.partition("_")
        if tail and head in MAGIC:
            sub = out.setdefault(head, {})
            if isinstance(sub, dict):
                sub[tail] = v
        elif k in out and isinstance(out[k], dict) and isinstance(v, dict):
            out[k].update(v)
        elif isinstance(v, Obj):
            out[k] = v.to_plotly_json()
        else:
            out[k] = dict(v) if isinstance(v, dict) else v
    return out


class Obj:
    TYPE = None

    def __init__(self, arg=None, **k):
        d = dict(arg.d if isinstance(arg, Obj) else arg) if arg is not None else {}
        d.update(k)
        if self.TYPE:
            d.setdefault("type", self.TYPE)
        self.d = _expand(d)

    def to_plotly_json(self):
        return self.d

    def __getattr__(self, n):
        if n.startswith("__") or n == "d":
            raise AttributeError(n)
        return self.d.get(n)

    def __getitem__(self, n):
        return self.d.get(n)

    def __setitem__(self, n, v):
        self.d[n] = v

    def get(self, n, default=None):
        return self.d.get(n, default)

    def update(self, arg=None, **k):
        self.d.update(_expand({**(arg or {}), **k}))
        return self


class Scatter(Obj):
    TYPE = "scatter"


class Bar(Obj):
    TYPE = "bar"


def _asdict(t):
    if isinstance(t, Obj):
        return t.d
    return _expand(dict(t))


class Figure:
    def __init__(self, data=None, layout=None, frames=None, **k):
        self._t, self._s, self._a, self._l = [], [], [], {}
        if isinstance(data, Figure):
            data = data.to_dict()
        if isinstance(data, dict) and "type" not in data:
            layout = data.get("layout", layout)
            data = data.get("data")
        if data is not None:
            if isinstance(data, (list, tuple)):
                self._t += [_asdict(t) for t in data]
            else:
                self._t.append(_asdict(data))
        if layout:
            lay = dict(layout.d if isinstance(layout, Obj) else layout)
            self._s += [_asdict(x) for x in lay.pop("shapes", ())]
            self._a += [_asdict(x) for x in lay.pop("annotations", ())]
            self._l.update(lay)

    def add_trace(self, t, **k):
        self._t.append(_asdict(t))
        return self

    def add_traces(self, ts, **k):
        for t in (ts if isinstance(ts, (list, tuple)) else [ts]):
            self.add_trace(t)
        return self

    def add_scatter(self, **k):
        return self.add_trace(Scatter(**k))

    def add_shape(self, arg=None, **k):
        self._s.append(_expand({**(arg.d if isinstance(arg, Obj) else arg or {}), **k}))
        return self

    def add_annotation(self, arg=None, **k):
        self._a.append(_expand({**(arg.d if isinstance(arg, Obj) else arg or {}), **k}))
        return self

    def update_layout(self, arg=None, overwrite=False, **k):
        d = {**(dict(arg) if arg else {}), **k}
        if "shapes" in d:
            self._s = [_asdict(x) for x in d.pop("shapes")]
        if "annotations" in d:
            self._a = [_asdict(x) for x in d.pop("annotations")]
        self._l.update(d)
        return self

    def update(self, *a, **k):
        return self

    def _noop(self, *a, **k):
        return self
    update_yaxes = update_xaxes = update_traces = update_shapes = update_annotations = _noop

    @property
    def data(self):
        return tuple(Obj(t) for t in self._t)

    @data.setter
    def data(self, v):
        self._t = [_asdict(t) for t in v]

    @property
    def layout(self):
        return Obj(dict(self._l, shapes=tuple(Obj(s) for s in self._s), annotations=tuple(Obj(a) for a in self._a)))

    def to_dict(self):
        from .loader import dict_
        lay = dict_(self._l)
        lay["shapes"] = list(self._s)
        lay["annotations"] = list(self._a)
        r = dict_()
        r["data"] = list(self._t)
        r["layout"] = lay
        return r
    to_plotly_json = to_dict

    def to_json(self, *a, **k):
        return self

    def to_image(self, *a, **k):
        RENDERED.append(self)
        return b"%PDF"

    def show(self, *a, **k):
        pass


RENDERED = []


def from_json(x, *a, **k):
    return x if isinstance(x, Figure) else Figure(x)


def module():
    m = types.ModuleType("plotly.graph_objects")
    m.Figure, m.Scatter, m.Scattergl, m.Bar = Figure, Scatter, Scatter, Bar
    m.Layout = type("Layout", (Obj,), {})
    m.layout = types.SimpleNamespace(Shape=type("Shape", (Obj,), {}), Annotation=type("Annotation", (Obj,), {}))
    return m


def io_module():
    m = types.ModuleType("plotly.io")
    m.from_json = from_json
    m.to_json = lambda f, *a, **k: f
    m.to_image = lambda f, *a, **k: Figure.to_image(f)
    return m


def normal(fig):
    """Figure (recorder or real plotly) -> dict of traces, shapes, annotations as plain nested dicts."""
    if isinstance(fig, Figure):
        return dict(traces=[dict(t) for t in fig._t], shapes=[dict(s) for s in fig._s],
                    annotations=[dict(a) for a in fig._a])
    lay = fig.layout.to_plotly_json()

    def tr(t):
        d = t.to_plotly_json()
        for k in ("x", "y", "meta", "text"):
            if k in d:
                v = getattr(t, k)
                d[k] = list(v) if v is not None and not isinstance(v, str) else v
        return d
    return dict(traces=[tr(t) for t in fig.data], shapes=[dict(s) for s in lay.get("shapes", ())],
                annotations=[dict(a) for a in lay.get("annotations", ())])
