"""Symbolic stand-in for the math module."""
import math
import types

from . import core
from .core import Angle, Sym, lift, sym_sqrt, _floor, Unsupported


def _c(x):
    return not isinstance(x, (Sym, Angle)) and not hasattr(x, "to_sym")


def _num(x):
    return x.to_sym() if hasattr(x, "to_sym") else x


def sqrt(x):
    x = _num(x)
    if _c(x):
        if x < 0:
            raise ValueError("math domain error")
        return sym_sqrt(lift(x))
    if x.kind == "decimal":
        x = Sym(x.n, x.d, "float")
    r = sym_sqrt(Sym(x.n, x.d, "float", False, x.sp))
    return r


def radians(x):
    if isinstance(x, Angle):
        raise Unsupported("radians of an angle")
    x = _num(x)
    if isinstance(x, Sym):
        return core.radians(x)
    return core.radians(lift(x))


def degrees(x):
    if _c(x):
        return math.degrees(x)
    return core.degrees(x)


def _trig(name):
    f = getattr(math, name)

    def g(x):
        if isinstance(x, Angle):
            return getattr(x, name)()
        if isinstance(x, Sym):
            if x.is_const():
                return lift(f(float(x.constval())))
            raise Unsupported(f"math.{name} of a symbolic number of radians")
        return f(x)
    g.__name__ = name
    return g


def atan(x):
    if _c(x):
        return Angle.atan(lift(x))
    return Angle.atan(x)


def atan2(y, x):
    return Angle.atan2(y, x)


def acos(x):
    x = lift(x)
    return Angle(x, sym_sqrt(lift(1) - x * x))


def asin(x):
    x = lift(x)
    return Angle(sym_sqrt(lift(1) - x * x), x)


def hypot(*a):
    if all(_c(x) for x in a):
        pass
    return sqrt(sum((lift(x) * lift(x) for x in a), lift(0)))


def dist(p, q):
    return hypot(*[lift(a) - lift(b) for a, b in zip(p, q)])


def floor(x):
    if _c(x):
        return math.floor(x)
    r = _floor(x)
    return Sym(r.n, r.d, "int", False)


def ceil(x):
    if _c(x):
        return math.ceil(x)
    r = -_floor(-x)
    return Sym(r.n, r.d, "int", False)


def trunc(x):
    return math.trunc(x) if _c(x) else core.to_int(x)


def fabs(x):
    return math.fabs(x) if _c(x) else abs(x)


def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if _c(a) and _c(b):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    return bool(d <= rel_tol * max(abs(a), abs(b))) or bool(d <= abs_tol)


def isnan(x):
    return x.sp == "nan" if isinstance(x, Sym) else math.isnan(x)


def isinf(x):
    return x.sp in ("inf", "-inf") if isinstance(x, Sym) else math.isinf(x)


def isfinite(x):
    return not x.sp if isinstance(x, Sym) else math.isfinite(x)


def fsum(xs):
    return sum(xs, lift(0))


def prod(xs, start=1):
    for x in xs:
        start = start * x
    return start


def pow_(a, b):
    return lift(a) ** b if not (_c(a) and _c(b)) else math.pow(a, b)


def fmod(a, b):
    return math.fmod(a, b) if _c(a) and _c(b) else a - core.to_int(lift(a) / b) * b


def copysign(a, b):
    if _c(a) and _c(b):
        return math.copysign(a, b)
    a = abs(a)
    return a if b >= 0 else -a


def isqrt(n):
    if _c(n):
        return math.isqrt(n)
    return floor(sqrt(n))


def module():
    m = types.ModuleType("math")
    m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith("__")})
    m.__dict__.update(sqrt=sqrt, radians=radians, degrees=degrees, atan=atan, atan2=atan2, hypot=hypot, dist=dist,
                      floor=floor, ceil=ceil, trunc=trunc, fabs=fabs, isclose=isclose, isnan=isnan, isinf=isinf,
                      isfinite=isfinite, fsum=fsum, prod=prod, fmod=fmod, copysign=copysign, acos=acos, asin=asin,
                      isqrt=isqrt)
    m.__dict__["pow"] = pow_
    for n in ("sin", "cos", "tan"):
        m.__dict__[n] = _trig(n)

    def unsupported(name):
        f0 = getattr(math, name)

        def f(*a):
            if all(_c(x) or (isinstance(x, Sym) and x.is_const()) for x in a):
                return f0(*[float(x) for x in a])
            raise Unsupported(f"math.{name} of a symbolic value")
        return f
    for n in ("exp", "log", "log10", "log2", "log1p", "sinh", "cosh", "tanh", "expm1", "cbrt"):
        m.__dict__[n] = unsupported(n)
    return m
