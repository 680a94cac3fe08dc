"""Symbolic stand-in for numpy: real numpy on object arrays of symbolic numbers."""
import types

import numpy as np

from . import core, mathstub
from .core import Angle, Mode, Sym, SymBool, lift, _special, sym_sqrt


class SArr(np.ndarray):
    def astype(self, dtype, *a, **k):
        if self.dtype == object and _isfloat(dtype):
            return self.copy()
        if self.dtype == object and dtype in (bool, np.bool_):
            return np.array([bool(x) for x in self.reshape(-1)], dtype=bool).reshape(self.shape).view(SArr)
        return super().astype(dtype, *a, **k)

    def _red(f):
        def g(self, axis=None, dtype=None, out=None, **k):
            return f(self, axis)
        return g

    any = _red(lambda s, axis: _cond(s).view(np.ndarray).any(axis=axis))
    all = _red(lambda s, axis: _cond(s).view(np.ndarray).all(axis=axis))
    sum = _red(lambda s, axis: sum_(s, axis))
    mean = _red(lambda s, axis: sum_(s, axis) / (s.size if axis is None else s.shape[axis]))
    del _red

    def clip(self, min=None, max=None, out=None, **k):
        return clip(self, min, max, out)

    def round(self, decimals=0, out=None):
        return _unary(lambda s: core.sym_round(s, decimals), np.round)(self)

    def fill(self, v):
        self[...] = _obj0(N(v)) if self.dtype == object else v

    def item(self, *a):
        return self.reshape(-1)[a[0] if a else 0]

    def tolist(self):
        return [x.tolist() if isinstance(x, np.ndarray) else x for x in self]


def _isfloat(dt):
    if dt is None:
        return False
    if dt in (float, object, "float", "float64", "f8", "float32", "f"):
        return True
    n = getattr(dt, "__name__", "")
    if n in ("float", "float64", "floating", "float32", "float_"):
        return True
    try:
        return np.dtype(dt).kind == "f"
    except TypeError:
        return False


def N(x):
    """-> numpy flavoured symbolic scalar (or unchanged if not a number)."""
    if isinstance(x, Sym):
        return x if x.np else Sym(x.n, x.d, "float" if x.kind != "decimal" else "decimal", True, x.sp, x.tag)
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return x
    if isinstance(x, (int, float, np.floating, np.integer)):
        s = lift(float(x) if not isinstance(x, (int, np.integer)) else int(x))
        return Sym(s.n, s.d, "float", True, s.sp)
    if hasattr(x, "to_sym"):
        return N(x.to_sym())
    return x


def wrap(a):
    """array-like of numbers -> object SArr with numpy flavoured elements"""
    if isinstance(a, np.ndarray) and a.dtype == bool:
        return a.view(SArr)
    if isinstance(a, SArr) and a.dtype == object:
        return a
    src = np.empty(np.shape(a), dtype=object) if isinstance(a, np.ndarray) else None
    if src is None:
        src = _toobj(a)
        it = src
    else:
        it = a
    out = np.empty(it.shape, dtype=object)
    o, i = out.reshape(-1), it.reshape(-1)
    for k in range(i.size):
        o[k] = N(i[k])
    return out.view(SArr)


def _toobj(a):
    if isinstance(a, (Sym, Angle, int, float)):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    a = list(a)
    if a and isinstance(a[0], (list, tuple, np.ndarray)):
        rows = [_toobj(x) for x in a]
        r = np.empty((len(rows),) + rows[0].shape, dtype=object)
        for k, x in enumerate(rows):
            r[k] = x
        return r
    r = np.empty(len(a), dtype=object)
    for k, x in enumerate(a):
        r[k] = x
    return r


def scalar(x):
    return isinstance(x, (Sym, int, float, Angle, SymBool)) and not isinstance(x, np.ndarray)


def _numeric(x):
    if isinstance(x, np.ndarray):
        return x.dtype.kind in "fiuO"
    if isinstance(x, (list, tuple)):
        return all(_numeric(y) for y in x)
    return isinstance(x, (Sym, int, float)) and not isinstance(x, bool)


def array(a, dtype=None, copy=True, **k):
    if isinstance(a, np.ndarray) and a.dtype == bool and not _isfloat(dtype):
        return np.array(a).view(SArr)
    if dtype is not None and not _isfloat(dtype):
        if dtype in (int, "int") or getattr(dtype, "__name__", "") == "int":
            return wrap([core.to_int(lift(x)) for x in a])
        return np.array(a, dtype=bool if getattr(dtype, "__name__", "") == "bool" else dtype, **k)
    if hasattr(a, "__iter__") and not isinstance(a, (list, tuple, np.ndarray)):
        a = list(a)
    if _numeric(a):
        r = wrap(a)
        return r.copy() if r is a else r
    return np.array(a, **k)


def asarray(a, dtype=None, **k):
    if isinstance(a, SArr) and (dtype is None or _isfloat(dtype)):
        return a
    return array(a, dtype)


def full(shape, v, dtype=None, **k):
    if isinstance(v, (bool, np.bool_)) and not _isfloat(dtype):
        return np.full(shape, v).view(SArr)
    if dtype is not None and getattr(dtype, "__name__", "") == "bool":
        return np.full(shape, bool(v)).view(SArr)
    r = np.empty(shape, dtype=object).view(SArr)
    vv = np.empty(r.shape, dtype=object)
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        r[...] = wrap(v)
        return r
    r[...] = _obj0(N(v))
    return r


def _obj0(v):
    r = np.empty((), dtype=object)
    r[()] = v
    return r


def _bool_dtype(dtype):
    return dtype is not None and (dtype in (bool, np.bool_, "bool") or getattr(dtype, "__name__", "") == "bool")


def zeros(shape, dtype=None, **k):
    return np.zeros(shape, dtype=bool).view(SArr) if _bool_dtype(dtype) else full(shape, 0.0)


def ones(shape, dtype=None, **k):
    return np.ones(shape, dtype=bool).view(SArr) if _bool_dtype(dtype) else full(shape, 1.0)


def empty(shape, dtype=None, **k):
    return np.zeros(shape, dtype=bool).view(SArr) if _bool_dtype(dtype) else full(shape, float("nan"))


def _like(f):
    def g(a, dtype=None, **k):
        if dtype is None and isinstance(a, np.ndarray) and a.dtype == bool:
            dtype = bool
        return f(np.shape(a), dtype=dtype)
    return g


def full_like(a, v, dtype=None, **k):
    return full(np.shape(a), v, dtype)


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    a, b = N(a), N(b)
    div = num - 1 if endpoint else num
    if Mode.exact_floats and a.is_const() and b.is_const():
        r = wrap(np.linspace(float(a.constval()), float(b.constval()), num, endpoint=endpoint))
        return (r, (b - a) / div) if retstep else r
    step = (b - a) / div if div > 0 else _special("nan", True)
    out = [a + step * i if i else a for i in range(num)]
    if endpoint and num > 1:
        out[-1] = b
    r = wrap(out)
    return (r, step) if retstep else r


def arange(*a, **k):
    if all(isinstance(x, int) for x in a):
        return wrap(np.arange(*a))
    a = [lift(x) for x in a]
    start, stop, step = (lift(0), a[0], lift(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else lift(1))
    out = []
    v = start
    k = 0
    while bool(v < stop) if bool(step > 0) else bool(v > stop):
        out.append(v)
        k += 1
        v = start + step * k
    return wrap(out)


def _cond(c):
    if isinstance(c, np.ndarray) and c.dtype == object:
        return np.array([bool(x) for x in c.reshape(-1)], dtype=bool).reshape(c.shape)
    return c


def where(c, *xy):
    c = _cond(c)
    if not xy:
        return np.where(c)
    x, y = [wrap(v) if _numeric(v) else v for v in xy]
    if np.ndim(c) == 0 and np.ndim(x) == 0 and np.ndim(y) == 0:
        return (x if c else y)[()]
    r = np.where(c, x, y)
    return r.view(SArr) if r.dtype == object else r


def _unary(f, npf):
    def g(x, out=None, **k):
        if isinstance(x, np.ndarray) and x.dtype == bool:
            return npf(x)
        if isinstance(x, (list, tuple)):
            x = wrap(x)
        if isinstance(x, np.ndarray):
            x = x if x.dtype == object else wrap(x)
            r = np.empty(x.shape, dtype=object)
            o, i = r.reshape(-1), x.reshape(-1)
            for j in range(i.size):
                o[j] = f(N(i[j]))
            r = r.view(SArr)
            if out is not None:
                out[...] = r
                return out
            return r if r.ndim else r[()]
        return f(N(x))
    return g


def _sqrt(x):
    return sym_sqrt(x)


def _trigf(name):
    t = mathstub._trig(name)

    def f(x):
        r = t(x)
        return N(r) if not isinstance(r, Angle) else r
    return f


def clip(a, lo=None, hi=None, out=None, **k):
    lo, hi = k.get("a_min", k.get("min", lo)), k.get("a_max", k.get("max", hi))
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def _bin(pick):
    def g(a, b, out=None, **k):
        aa, bb = np.broadcast_arrays(wrap(a), wrap(b))
        r = np.empty(aa.shape, dtype=object)
        o, x, y = r.reshape(-1), aa.reshape(-1), bb.reshape(-1)
        for j in range(o.size):
            o[j] = pick(N(x[j]), N(y[j]))
        r = r.view(SArr)
        if out is not None:
            out[...] = r
            return out
        return r if r.ndim else r[()]
    return g


def _max2(x, y):
    if x.sp == "nan" or y.sp == "nan":
        return _special("nan", True)
    return x if bool(x >= y) else y


def _min2(x, y):
    if x.sp == "nan" or y.sp == "nan":
        return _special("nan", True)
    return x if bool(x <= y) else y


maximum = _bin(_max2)
minimum = _bin(_min2)
maximum.reduce = lambda a, axis=0, **k: extreme(_max2)(a, **k) if np.ndim(a) == 1 else np.maximum.reduce(a, axis=axis, **k)
minimum.reduce = lambda a, axis=0, **k: extreme(_min2)(a, **k) if np.ndim(a) == 1 else np.minimum.reduce(a, axis=axis, **k)
hypot = _bin(lambda x, y: sym_sqrt(x * x + y * y))
arctan2 = _bin(lambda y, x: Angle.atan2(y, x))


def _pred(f):
    def g(x):
        if isinstance(x, (list, tuple)):
            x = wrap(x)
        if isinstance(x, np.ndarray):
            return np.array([f(lift(v)) for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
        return f(lift(x))
    return g


isnan = _pred(lambda s: s.sp == "nan")
isinf = _pred(lambda s: s.sp in ("inf", "-inf"))
isfinite = _pred(lambda s: not s.sp)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        x, y = lift(x), lift(y)
        if x.sp or y.sp:
            return x.sp == y.sp and x.sp != "nan"
        return bool(abs(x - y) <= atol + rtol * abs(y))
    if scalar(a) and scalar(b):
        return one(a, b)
    aa, bb = np.broadcast_arrays(wrap(a), wrap(b))
    return np.array([one(x, y) for x, y in zip(aa.reshape(-1), bb.reshape(-1))], dtype=bool).reshape(aa.shape)


def allclose(a, b, **k):
    return bool(np.all(isclose(a, b, **k)))


def interp(x, xp, fp, left=None, right=None):
    xp, fp = [lift(v) for v in xp], [lift(v) for v in fp]

    def one(v):
        v = N(v)
        if bool(v < xp[0]):
            return N(fp[0] if left is None else left)
        if bool(v > xp[-1]):
            return N(fp[-1] if right is None else right)
        for i in range(len(xp) - 1):
            if bool(v <= xp[i + 1]):
                return N(fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i]))
        return N(fp[-1])
    if scalar(x):
        return one(x)
    return wrap([one(v) for v in x])


def sum_(a, axis=None, dtype=None, **k):
    if not isinstance(a, np.ndarray):
        a = array(list(a))
    if a.dtype == bool:
        return a.view(np.ndarray).sum(axis=axis)
    if axis is None:
        t = None
        for v in a.reshape(-1):
            t = N(v) if t is None else t + v
        return N(0.0) if t is None else t
    return np.add.reduce(a, axis=axis)


def _any(a, *r, **k):
    return np.any(_cond(asarr(a)), *r, **k)


def _all(a, *r, **k):
    return np.all(_cond(asarr(a)), *r, **k)


def asarr(a):
    if isinstance(a, np.ndarray):
        return a
    if isinstance(a, (list, tuple)):
        return np.array([bool(x) for x in a])
    return bool(a)


def searchsorted(a, v, side="left", **k):
    def one(x):
        n = 0
        for y in a:
            if bool(y < x) if side == "left" else bool(y <= x):
                n += 1
            else:
                break
        return n
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        return np.array([one(x) for x in v])
    return one(v)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, "left" if right else "right")


def select(conds, choices, default=0):
    r = full(np.shape(conds[0]), default)
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


class _F64(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Sym) and x.np or isinstance(x, np.floating)


class float64(metaclass=_F64):
    def __new__(cls, x=0.0):
        return N(x)


def fromiter(it, dtype=None, count=-1, **k):
    return array(list(it), dtype)


def vectorize(f=None, otypes=None, **k):
    if f is None:
        return lambda h: vectorize(h)

    def g(*a):
        aa = np.broadcast_arrays(*[wrap(x) if _numeric(x) else np.asarray(x) for x in a])
        out = [f(*[x.reshape(-1)[i] for x in aa]) for i in range(aa[0].size)]
        if all(isinstance(x, (bool, np.bool_, SymBool)) for x in out):
            r = np.array([bool(x) for x in out], dtype=bool)
        elif all(_numeric(x) for x in out):
            r = wrap(out)
        else:
            r = _toobj(out)
        return r.reshape(aa[0].shape)
    return g


def apply_along_axis(f, axis, a, *r, **k):
    raise core.Unsupported("numpy.apply_along_axis")


def concatenate(parts, axis=0, **k):
    parts = [p if isinstance(p, np.ndarray) else array(list(p)) for p in parts]
    if any(p.dtype == object for p in parts):
        parts = [p if p.dtype in (object, bool) else wrap(p) for p in parts]
    r = np.concatenate(parts, axis=axis)
    return r.view(SArr)


def append(a, v, axis=None):
    return concatenate([asarray(a).reshape(-1), asarray(v).reshape(-1)])


def diff(a, n=1, **k):
    a = asarray(a)
    for _ in range(n):
        a = a[1:] - a[:-1]
    return a


def cumsum(a, *r, **k):
    a = asarray(a)
    out, t = [], None
    for x in a:
        t = x if t is None else t + x
        out.append(t)
    return wrap(out)


def extreme(pick):
    def g(a, axis=None, **k):
        a = asarray(a)
        if axis is not None:
            raise core.Unsupported("extreme along an axis")
        r = None
        for x in a.reshape(-1):
            r = x if r is None else pick(N(r), N(x))
        for key in ("initial",):
            if key in k:
                r = N(k[key]) if r is None else pick(N(r), N(k[key]))
        if r is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return r
    return g


def mean(a, axis=None, **k):
    a = asarray(a)
    return sum_(a, axis) / (a.size if axis is None else a.shape[axis])


def dot(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim == b.ndim == 1:
        return sum_(a * b)
    return np.dot(a, b)


def piecewise(x, conds, funcs, *a, **k):
    x = wrap(x) if not isinstance(x, np.ndarray) else x
    conds = [_cond(asarray(c)) if not isinstance(c, np.ndarray) else _cond(c) for c in conds]
    r = zeros(x.shape)
    fs = list(funcs)
    if len(fs) == len(conds) + 1:
        rest = ~np.logical_or.reduce(conds)
        conds = conds + [rest]
    for c, f in zip(conds, fs):
        if np.any(c):
            r[c] = f(x[c], *a, **k) if callable(f) else _obj0(N(f))
    return r


def nan_to_num(x, nan=0.0, **k):
    return _unary(lambda s: N(nan) if s.sp == "nan" else s, np.nan_to_num)(x)


def divide(a, b, out=None, where=True, **k):
    if where is True:
        r = wrap(a) / wrap(b)
        return r
    aa, bb, ww = np.broadcast_arrays(wrap(a), wrap(b), where)
    r = out if out is not None else empty(aa.shape)
    for i in range(aa.size):
        if ww.reshape(-1)[i]:
            r.reshape(-1)[i] = aa.reshape(-1)[i] / bb.reshape(-1)[i]
    return r


class _NP(types.ModuleType):
    def __getattr__(self, name):
        return getattr(np, name)


def module():
    m = _NP("numpy")
    m.__dict__.update(
        array=array, asarray=asarray, asanyarray=asarray, full=full, zeros=zeros, ones=ones, empty=empty,
        zeros_like=_like(zeros), ones_like=_like(ones), empty_like=_like(empty), full_like=full_like,
        linspace=linspace, arange=arange, where=where, clip=clip, maximum=maximum, minimum=minimum, fmax=maximum,
        fmin=minimum, hypot=hypot, arctan2=arctan2, isnan=isnan, isinf=isinf, isfinite=isfinite, isclose=isclose,
        allclose=allclose, interp=interp, searchsorted=searchsorted, digitize=digitize, select=select,
        float64=float64, float32=float64, nan_to_num=nan_to_num, divide=divide, true_divide=divide, ndarray=np.ndarray,
        errstate=np.errstate, fromiter=fromiter, vectorize=vectorize, apply_along_axis=apply_along_axis, concatenate=concatenate,
        hstack=concatenate, append=append, diff=diff, ediff1d=diff, cumsum=cumsum, mean=mean, average=mean, dot=dot, inner=dot, vdot=dot,
        piecewise=piecewise, amax=extreme(_max2), amin=extreme(_min2), inf=float("inf"), nan=float("nan"), pi=np.pi)
    m.__dict__["sum"] = sum_
    m.__dict__["max"], m.__dict__["min"] = extreme(_max2), extreme(_min2)
    m.__dict__["any"] = _any
    m.__dict__["all"] = _all
    for n, f in dict(sqrt=_sqrt, arctan=lambda x: Angle.atan(x), sin=_trigf("sin"), cos=_trigf("cos"),
                     tan=_trigf("tan"), radians=lambda x: mathstub.radians(x), deg2rad=lambda x: mathstub.radians(x),
                     abs=abs, absolute=abs, fabs=abs, square=lambda x: x * x, floor=lambda x: N(mathstub.floor(x)),
                     ceil=lambda x: N(mathstub.ceil(x)), sign=lambda x: N(core._signval(x)),
                     arcsin=mathstub.asin, arccos=mathstub.acos).items():
        m.__dict__[n] = _unary(f, getattr(np, n))
    m.__dict__["round"] = m.__dict__["around"] = lambda x, decimals=0: \
        _unary(lambda s: core.sym_round(s, decimals), np.round)(x)
    return m
