"""Path-complete symbolic execution engine: symbolic numbers, path exploration, z3 queries."""
import functools
import math
import sys
import time
import traceback
from decimal import Decimal
from fractions import Fraction as F

import z3

from .poly import Atoms, Mode, Poly, coef, poly_sqrt


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(Exception):
    """The code did something the encoding does not cover: inconclusive."""


class Budget(BaseException):
    pass


NEG, ZERO, POS = 1, 2, 4
OPSET = {"<": NEG, "<=": NEG | ZERO, ">": POS, ">=": POS | ZERO, "==": ZERO, "!=": NEG | POS}
FLIP = {0: 0, 1: 4, 2: 2, 3: 6, 4: 1, 5: 5, 6: 3, 7: 7}


def sgn(x):
    return POS if x > 0 else NEG if x < 0 else ZERO


_ENG = None


def eng():
    return _ENG


# ------------------------------------------------------------------ z3 glue
def _z3num(c):
    if isinstance(c, Decimal):
        n, d = c.as_integer_ratio()
        return z3.Q(n, d)
    return z3.Q(c.numerator, c.denominator)


def z3atom(a):
    if a.z3v is None:
        n = f"a{a.id}_{a.name}"
        a.z3v = z3.ToReal(z3.Int(n)) if a.is_int else z3.Real(n)
    return a.z3v


_z3cache = {}


def z3poly(p):
    k = p.key()
    r = _z3cache.get(k)
    if r is None:
        ts = []
        for m, c in p.t.items():
            fs = []
            for a, e in m:
                v = z3atom(Atoms.table[a])
                fs += [v] * e
            if not fs:
                ts.append(_z3num(c))
                continue
            prod = fs[0]
            for f in fs[1:]:
                prod = prod * f
            ts.append(prod if c == 1 else _z3num(c) * prod)
        r = z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts)
        _z3cache[k] = r
    return r


def z3con(p, s):
    e = z3poly(p)
    if s == NEG:
        return e < 0
    if s == POS:
        return e > 0
    if s == ZERO:
        return e == 0
    if s == NEG | ZERO:
        return e <= 0
    if s == POS | ZERO:
        return e >= 0
    if s == NEG | POS:
        return e != 0
    return z3.BoolVal(s == 7)


# ------------------------------------------------------------------ symbolic booleans
class SymBool:
    """Truth value of  sign(poly) in signset."""
    __slots__ = ("p", "s")

    def __init__(self, p, s):
        self.p, self.s = p, s

    def __bool__(self):
        return _ENG.decide(self.p, self.s)

    def __and__(self, o):
        return bool(self) and bool(o)
    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)
    __ror__ = __or__

    def __invert__(self):
        return SymBool(self.p, 7 & ~self.s)

    def __xor__(self, o):
        return bool(self) != bool(o)

    def __eq__(self, o):
        return bool(self) == o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __repr__(self):
        return f"<{self.p!r} in {self.s}>"


def symbool(p, s):
    if p.is_const():
        return bool(sgn(p.constval()) & s)
    return SymBool(p, s)


# ------------------------------------------------------------------ symbolic numbers
ONE = None


class Sym:
    """n / (f1^e1 * f2^e2 ...) with all factors positive on the current path; or a special value."""
    __slots__ = ("n", "d", "kind", "np", "sp", "tag", "__weakref__")

    def __init__(self, n, d=(), kind="float", np=False, sp=None, tag=None):
        self.n, self.d, self.kind, self.np, self.sp, self.tag = n, d, kind, np, sp, tag

    # -------- helpers
    @staticmethod
    def const(x, kind="float", np=False):
        return Sym(Poly.const(x), (), kind, np)

    def is_const(self):
        return self.sp is None and not self.d and self.n.is_const()

    def constval(self):
        return self.n.constval()

    def evalf(self, val):
        if self.sp:
            return float(self.sp)
        r = self.n.evalf(val)
        for f, e in self.d:
            r = r / f.evalf(val) ** e
        return r

    def item(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -------- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return _add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return _add(self, _neg(o))

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return _add(o, _neg(self))

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return _mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return _div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return _div(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        q = _div(self, o)
        r = _floor(q)
        r.kind = "int" if self.kind == o.kind == "int" else "float"
        return r

    def __rfloordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o.__floordiv__(self)

    def __mod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self - self.__floordiv__(o) * o

    def __rmod__(self, o):
        return lift(o).__mod__(self)

    def __divmod__(self, o):
        q = self.__floordiv__(o)
        return q, self - q * o

    def __pow__(self, o):
        if Mode.exact_floats and _fc(self) and (isinstance(o, (int, float)) or isinstance(o, Sym) and _fc(o)):
            k = int(o) if not isinstance(o, Sym) else int(o.constval())
            if k == 2:
                return _mul(self, self)
        if isinstance(o, Sym):
            if not o.is_const():
                raise Unsupported("symbolic exponent")
            o = o.constval()
        if type(o).__name__ == "ndarray":
            return NotImplemented
        f = F(o)
        if f.denominator == 1:
            k = int(f)
            if k >= 0:
                if self.sp:
                    return self if k else lift(1)
                n = self.n.pow(k)
                d = tuple((p, e * k) for p, e in self.d) if k else ()
                return Sym(n, d, self.kind, self.np)
            return _div(lift(1), self.__pow__(-k))
        if f == F(1, 2):
            return sym_sqrt(self, err="complex")
        if f.denominator == 2:
            return sym_sqrt(self, err="complex") ** f.numerator
        raise Unsupported(f"power {o}")

    def __rpow__(self, o):
        if self.is_const():
            return lift(o) ** self.constval()
        raise Unsupported("symbolic exponent")

    def __neg__(self):
        return _neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.sp:
            return self if self.sp != "-inf" else _special("inf", self.np)
        if _ENG.decide(self.n, NEG):
            return _neg(self)
        return self

    # -------- comparisons
    def _cmp(self, o, s):
        if isinstance(o, str) or o is None:
            return NotImplemented
        o = lift(o)
        if o is NotImplemented:
            return o
        if self.sp or o.sp:
            a = float(self.sp) if self.sp else 0.0
            b = float(o.sp) if o.sp else 0.0
            if a != a or b != b:
                return s == (NEG | POS)
            if a == b:
                return bool(s & ZERO)
            return bool(s & (NEG if a < b else POS))
        return symbool(_diffnum(self, o), s)

    def __lt__(self, o):
        return self._cmp(o, NEG)

    def __le__(self, o):
        return self._cmp(o, NEG | ZERO)

    def __gt__(self, o):
        return self._cmp(o, POS)

    def __ge__(self, o):
        return self._cmp(o, POS | ZERO)

    def __eq__(self, o):
        r = self._cmp(o, ZERO)
        return False if r is NotImplemented and not _isarr(o) else r

    def __ne__(self, o):
        r = self._cmp(o, NEG | POS)
        return True if r is NotImplemented and not _isarr(o) else r

    def __bool__(self):
        if self.sp:
            return True
        return _ENG.decide(self.n, NEG | POS)

    def __hash__(self):
        if self.is_const():
            return hash(F(self.constval()))
        return 77

    # -------- conversions
    def __index__(self):
        if self.kind != "int":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return _ENG.concretize(self)

    def __int__(self):
        return _ENG.concretize(to_int(self))

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        return _floor(self)

    def __ceil__(self):
        return _neg(_floor(_neg(self)))

    def __float__(self):
        if self.is_const():
            return float(self.constval())
        if self.sp:
            return float(self.sp)
        raise Unsupported("float() of a symbolic value in native code")

    def __round__(self, nd=None):
        return sym_round(self, nd)

    def __format__(self, spec):
        return _ENG.token(self, spec)

    def __str__(self):
        return _ENG.token(self, "")

    def __repr__(self):
        if self.sp:
            return self.sp
        s = repr(self.n)
        for f, e in self.d:
            s = f"({s})/({f!r})" + (f"^{e}" if e > 1 else "")
        return s

    # -------- methods that numpy object loops call
    def sqrt(self):
        return sym_sqrt(self)

    def arctan(self):
        return Angle.atan(self)

    def conjugate(self):
        return self

    def is_integer(self):
        return bool(to_int(self) == self)

    @property
    def real(self):
        return self

    def fabs(self):
        return abs(self)

    def floor(self):
        return _floor(self)

    def ceil(self):
        return self.__ceil__()


def _isarr(o):
    return type(o).__module__.startswith(("numpy", "symex")) and hasattr(o, "shape") and getattr(o, "ndim", 0) > 0


def _special(s, np=False):
    return Sym(Poly({}), (), "float", np, sp=s)


_lift_cache = {}


def lift(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, (bool, int)):
        return Sym.const(int(o), "int")
    if isinstance(o, (F, Decimal)):
        return Sym.const(o, "float")
    if isinstance(o, float):
        npf = type(o) is not float
        if o != o:
            return _special("nan", npf)
        if o in (math.inf, -math.inf):
            return _special("inf" if o > 0 else "-inf", npf)
        return Sym.const(o, "float", npf)
    if type(o).__module__ == "numpy" and getattr(o, "shape", None) == () and hasattr(o, "item"):
        r = lift(o.item())
        return Sym(r.n, r.d, r.kind, True, r.sp) if isinstance(r, Sym) else r
    if isinstance(o, SymBool):
        return Sym.const(int(bool(o)), "int")
    return NotImplemented


def _join(a, b):
    if a.kind == "decimal" or b.kind == "decimal":
        if "float" in (a.kind, b.kind):
            raise TypeError("unsupported operand type(s): 'decimal.Decimal' and 'float'")
        return "decimal", False
    return ("int" if a.kind == b.kind == "int" else "float"), (a.np or b.np)


def _neg(a):
    if a.sp:
        return _special({"inf": "-inf", "-inf": "inf", "nan": "nan"}[a.sp], a.np)
    return Sym(a.n.neg(), a.d, a.kind, a.np)


def _lcm(d1, d2):
    """-> (lcm, multiplier for d1, multiplier for d2)"""
    if d1 == d2:
        return d1, (), ()
    a, b = dict(d1), dict(d2)
    l = dict(a)
    for f, e in b.items():
        l[f] = max(l.get(f, 0), e)
    m1 = tuple((f, e - a.get(f, 0)) for f, e in l.items() if e > a.get(f, 0))
    m2 = tuple((f, e - b.get(f, 0)) for f, e in l.items() if e > b.get(f, 0))
    return tuple(l.items()), m1, m2


def _expand(n, fs):
    for f, e in fs:
        for _ in range(e):
            n = n.mul(f)
    return n


def _diffnum(a, b):
    if a.d == b.d:
        return a.n.sub(b.n)
    _, m1, m2 = _lcm(a.d, b.d)
    return _expand(a.n, m1).sub(_expand(b.n, m2))


def _cancel(n, d):
    if not d or n.is_zero():
        return n, (d if not n.is_zero() else ())
    out = []
    for f, e in d:
        while e:
            q = n.divexact(f)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out.append((f, e))
    return n, tuple(out)


def _fc(a):
    return a.sp is None and not a.d and a.n.is_const()


def _fconst(f, a, b, kind, npf):
    """IEEE double arithmetic on two constants (bit-exact mode)."""
    x, y = float(a.n.constval()), float(b.n.constval())
    r = f(x, y)
    s = lift(r)
    return Sym(s.n, (), kind, npf, s.sp)


def _add(a, b):
    kind, npf = _join(a, b)
    if Mode.exact_floats and kind == "float" and _fc(a) and _fc(b):
        return _fconst(lambda x, y: x + y, a, b, kind, npf)
    if a.sp or b.sp:
        x = (float(a.sp) if a.sp else 0.0) + (float(b.sp) if b.sp else 0.0)
        return _special("nan" if x != x else "inf" if x > 0 else "-inf", npf)
    if a.d == b.d:
        n, d = a.n.add(b.n), a.d
        if d:
            n, d = _cancel(n, d)
        return Sym(n, d, kind, npf)
    if b.n.is_zero():
        return Sym(a.n, a.d, kind, npf)
    if a.n.is_zero():
        return Sym(b.n, b.d, kind, npf)
    l, m1, m2 = _lcm(a.d, b.d)
    n = _expand(a.n, m1).add(_expand(b.n, m2))
    n, d = _cancel(n, l)
    return Sym(n, d, kind, npf)


def _mul(a, b):
    kind, npf = _join(a, b)
    if Mode.exact_floats and kind == "float" and _fc(a) and _fc(b):
        return _fconst(lambda x, y: x * y, a, b, kind, npf)
    if a.sp or b.sp:
        return _special_mul(a, b, npf)
    if a.d == () and b.d == ():
        return Sym(a.n.mul(b.n), (), kind, npf)
    n1, d2 = _cancel(a.n, b.d)
    n2, d1 = _cancel(b.n, a.d)
    n = n1.mul(n2)
    if n.is_zero():
        return Sym(n, (), kind, npf)
    l = dict(d1)
    for f, e in d2:
        l[f] = l.get(f, 0) + e
    return Sym(n, tuple(l.items()), kind, npf)


def _signval(a):
    """Sign of a as -1/0/1 on this path (forks)."""
    if a.sp:
        return {"inf": 1, "-inf": -1}[a.sp]
    if _ENG.decide(a.n, ZERO):
        return 0
    return 1 if _ENG.decide(a.n, POS) else -1


def _special_mul(a, b, npf):
    if "nan" in (a.sp, b.sp):
        return _special("nan", npf)
    s = _signval(a) * _signval(b)
    return _special("nan" if s == 0 else "inf" if s > 0 else "-inf", npf)


def _div(a, b):
    kind, npf = _join(a, b)
    if kind == "int":
        kind = "float"
    if Mode.exact_floats and _fc(a) and _fc(b) and not b.n.is_zero():
        return _fconst(lambda x, y: x / y, a, b, kind, npf)
    if b.sp or a.sp:
        if "nan" in (a.sp, b.sp) or (a.sp and b.sp):
            return _special("nan", npf)
        if b.sp:
            return Sym(Poly({}), (), kind, npf)
        s = _signval(b)
        if s == 0:
            if not npf:
                raise ZeroDivisionError("float division by zero")
            return a
        return _special("inf" if s * _signval(a) > 0 else "-inf", npf)
    if b.n.is_const():
        c = b.n.constval()
        if not c:
            if npf:
                s = _signval(a)
                return _special("nan" if s == 0 else "inf" if s > 0 else "-inf", npf)
            raise ZeroDivisionError("division by zero")
        r = Sym(a.n.scale(1 / c), a.d, kind, npf)
        return r if not b.d else _mul(r, Sym(_expand(Poly.const(1), b.d), (), kind, npf))
    if _ENG.decide(b.n, ZERO):
        if npf:
            s = _signval(a)
            return _special("nan" if s == 0 else "inf" if s > 0 else "-inf", npf)
        raise ZeroDivisionError("float division by zero")
    num, fs = _inverse(b.n)
    inv = Sym(_expand(num, b.d), fs, kind, npf)
    n, d = _cancel(inv.n, inv.d)
    return _mul(Sym(a.n, a.d, kind, npf), Sym(n, d, kind, npf))


def _inverse(p):
    """1/p as (numerator poly, factors), every factor positive on this path (p != 0 decided)."""
    c = p.content()
    q = p.scale(1 / c)
    sign = 1
    fs = []
    g = q.mono_gcd()
    if g:
        q = q.div_mono(g)
        for a, e in sorted(g.items()):
            ap = Poly.atom(Atoms.table[a])
            if not _ENG.decide(ap, POS):
                ap = ap.neg()
                if e & 1:
                    sign = -sign
            fs.append((ap, e))
    if q.is_const():
        c = c * q.constval()
    else:
        if not _ENG.decide(q, POS):
            q = q.neg()
            sign = -sign
        fs.append((q, 1))
    k = 1 / c
    return Poly.const(k if sign > 0 else -k), tuple(fs)


def sym_sqrt(a, err="python"):
    a = lift(a)
    if a.sp:
        return a if a.sp != "-inf" else _special("nan", a.np)
    if _ENG.decide(a.n, NEG):
        if a.np:
            return _special("nan", True)
        if err == "complex":
            raise Unsupported("complex power")
        raise ValueError("math domain error")
    n = a.n
    if n.is_zero():
        return Sym(n, (), "float", a.np)
    if not n.is_const():
        for h, h2 in _ENG.root_hints:
            if _diffnum(a, h2).is_zero():
                h = -h if _ENG.decide(h.n, NEG) else h
                return Sym(h.n, h.d, "float", a.np)
    if Mode.exact_floats and _fc(a):
        return Sym.const(math.sqrt(float(n.constval())), "float", a.np)
    den = []
    for f, e in a.d:
        if e & 1:
            n = n.mul(f)
            den.append((f, (e + 1) // 2))
        else:
            den.append((f, e // 2))
    den = tuple(den)
    root, rest = _sqrt_poly(n)
    r = Sym(root, (), "float", a.np)
    if rest is not None:
        r = _mul(r, Sym(rest, (), "float", a.np))
    if den:
        nn, dd = _cancel(r.n, den)
        r = Sym(nn, dd, "float", a.np)
    return r


def _sqrt_poly(n):
    """sqrt(n) = root * rest, rest an atom or None; n >= 0 on this path."""
    if n.is_const():
        c = n.constval()
        if Mode.dec:
            return Poly.const(c.sqrt()), None
        p, q = c.numerator, c.denominator
        m = p * q
        out, rem = _sqfree(m)
        root = Poly.const(F(out, q))
        if rem == 1:
            return root, None
        return root, _sqrt_atom(Poly.const(rem))
    c = n.content()
    q = n.scale(1 / c)
    if Mode.dec:
        root = Poly.const(c.sqrt())
    else:
        out, rem = _sqfree(c.numerator * c.denominator)
        root = Poly.const(F(out, c.denominator))
        q = q.scale(F(rem))
    g = q.mono_gcd()
    ev = {a: e - (e & 1) for a, e in g.items() if e > 1}
    if ev:
        q = q.div_mono(ev)
        for a, e in sorted(ev.items()):
            ap = Poly.atom(Atoms.table[a])
            if (e // 2) & 1 and _ENG.decide(ap, NEG):
                ap = ap.neg()
            root = root.mul(ap.pow(e // 2))
    if q.is_const():
        r2, rest = _sqrt_poly(q)
        return root.mul(r2), rest
    if len(q.t) > 1:
        r = poly_sqrt(q)
        if r is not None:
            if _ENG.decide(r, NEG):
                r = r.neg()
            return root.mul(r), None
        for f in _ENG.sqrt_factors:
            # pull out known square factors (e.g. R^2 of a circle)
            q2 = q.divexact(f.mul(f))
            if q2 is not None:
                if _ENG.decide(f, NEG):
                    f = f.neg()
                a, b = _sqrt_poly(q2)
                return root.mul(f).mul(a), b
    return root, _sqrt_atom(q)


def _sqfree(m):
    """m = out^2 * rem with small square factors pulled out."""
    out = 1
    r = math.isqrt(m)
    if r * r == m:
        return r, 1
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
        while m % (p * p) == 0:
            m //= p * p
            out *= p
    r = math.isqrt(m)
    if r * r == m:
        return out * r, 1
    return out, m


def _sqrt_atom(p):
    a, new = Atoms.get(("sqrt", p.key()), "sqrt", "s", arg=p, lo=F(0))
    if new:
        a.name = f"s{a.id}"
        lo, hi = interval(p)
        if (lo is None or lo < 0) and p.degree() == 2:
            lo = _square_bound(p)
        if hi is not None and hi >= 0:
            a.hi = F(math.sqrt(float(hi)) * (1 + 1e-9) + 1e-9)
            if p.is_const():
                a.hi = F(math.isqrt(int(hi * 10 ** 24)) + 1, 10 ** 12)
        if lo is not None and lo > 0:
            a.lo = F(math.isqrt(int(lo * 10 ** 24)), 10 ** 12)
    _ENG.know(p, ZERO | POS)
    return Poly.atom(a)


def sym_round(a, nd=None):
    if a.sp:
        return a
    if a.is_const():
        if nd is None:
            v = a.constval()
            return Sym.const(round(F(v)), "int", a.np)
        return Sym.const(round(F(a.constval()), int(nd)), a.kind, a.np)
    k = F(10) ** int(nd or 0)
    s = _mul(a, lift(F(k)))
    at, new = Atoms.get(("round", int(k) if k >= 1 else str(k), s.n.key(), s.d), "int", "rnd", is_int=True)
    if new:
        at.name = f"rnd{at.id}"
    p = Sym(Poly.atom(at), (), "int", a.np)
    # |s - k| < 1/2; ties are outside the claim
    _ENG.assume_p(_diffnum(s, _add(p, lift(F(1, 2)))), NEG)
    _ENG.assume_p(_diffnum(s, _add(p, lift(F(-1, 2)))), POS)
    if nd is None:
        return p
    r = _mul(p, lift(1 / k))
    return Sym(r.n, r.d, a.kind, a.np, tag=("round", int(nd)))


def sym_significant(a, n):
    """Rounded to n significant digits (formats with g)."""
    if a.sp:
        return a
    m = abs(a)
    if m == 0:
        return a
    e = 0
    while not m < lift(F(10) ** (e + 1)) and e < 30:
        e += 1
    while e > -30 and m < lift(F(10) ** e):
        e -= 1
    return sym_round(a, n - 1 - e)


def _floor(a):
    if a.sp:
        raise OverflowError("cannot convert float infinity to integer")
    if a.is_const():
        return Sym.const(math.floor(F(a.constval())), "int", a.np)
    at, new = Atoms.get(("floor", a.n.key(), a.d), "int", "flr", is_int=True)
    if new:
        at.name = f"flr{at.id}"
    p = Sym(Poly.atom(at), (), "int", a.np)
    _ENG.assume_p(_diffnum(a, p), POS | ZERO)
    _ENG.assume_p(_diffnum(a, _add(p, lift(1))), NEG)
    return p


def to_int(a):
    a = lift(a)
    if a.kind == "int":
        return a
    if a.sp:
        raise (ValueError if a.sp == "nan" else OverflowError)("cannot convert float to integer")
    if a.is_const():
        return Sym.const(int(F(a.constval())), "int")
    if _ENG.decide(a.n, NEG):
        r = _neg(_floor(_neg(a)))
    else:
        r = _floor(a)
    if _ENG.opts.get("cfloor"):
        return Sym.const(_ENG.concretize(r), "int")
    return Sym(r.n, r.d, "int", False)


# ------------------------------------------------------------------ angles
class Angle:
    """An angle known by its cosine and sine."""
    __slots__ = ("c", "s", "t")

    def __init__(self, c, s, t=None):
        self.c, self.s, self.t = c, s, t

    @staticmethod
    def atan(t):
        t = lift(t)
        if t.sp:
            if t.sp == "nan":
                return Angle(t, t, t)
            return Angle(lift(0), lift(1 if t.sp == "inf" else -1), t)
        c = lift(1) / sym_sqrt(t * t + 1)
        return Angle(c, t * c, t)

    @staticmethod
    def atan2(y, x):
        y, x = lift(y), lift(x)
        h = sym_sqrt(x * x + y * y)
        return Angle(x / h, y / h)

    def cos(self):
        return self.c

    def sin(self):
        return self.s

    def tan(self):
        return self.t if self.t is not None else self.s / self.c

    def __neg__(self):
        return Angle(self.c, -self.s, None if self.t is None else -self.t)

    def __abs__(self):
        return -self if bool(self.s < 0) else self

    def __add__(self, o):
        if isinstance(o, Angle):
            return Angle(self.c * o.c - self.s * o.s, self.s * o.c + self.c * o.s)
        if not isinstance(o, Sym) and o == 0:
            return self
        o = lift(o)
        if o is NotImplemented:
            return o
        x = float(o)
        return self + Angle(lift(math.cos(x)), lift(math.sin(x)))
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        k = lift(o)
        if k.is_const() and k.constval() in (0, 1, 2, -1):
            k = int(k.constval())
            return {0: lambda: Angle(lift(1), lift(0)), 1: lambda: self, -1: lambda: -self,
                    2: lambda: self + self}[k]()
        raise Unsupported("angle multiplication")
    __rmul__ = __mul__

    def __float__(self):
        raise Unsupported("numeric value of a symbolic angle")


TAN_POINTS = [1, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 55, 60, 65, 70, 75, 80, 85, 89]


def radians(d):
    d = lift(d)
    if d.is_const():
        v = float(d.constval())
        r = math.radians(v)
        if Mode.dec:
            return _angle_dec(d.constval())
        t = {0: 0, 45: 1, -45: -1}.get(v)
        if t is not None:
            return Angle.atan(lift(t))
        return Angle(lift(math.cos(r)), lift(math.sin(r)), lift(math.tan(r)))
    if not d.d and len(d.n.t) == 1:
        (m, c), = d.n.t.items()
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            a = Atoms.table[m[0][0]]
            t = _ENG.tan_of.get(a.id)
            if t is not None:
                t = Sym(Poly.atom(t))
                return Angle.atan(t if c == 1 else -t)
    raise Unsupported("radians of a derived symbolic value")


@functools.lru_cache(maxsize=4096)
def _angle_dec(v):
    """cos/sin/tan of v degrees to 60 digits."""
    x = Decimal(v)
    if x == 45:
        return Angle.atan(lift(1))
    if x == 0:
        return Angle(lift(1), lift(0), lift(0))
    return Angle(*map(lift, _trig(x)))


@functools.lru_cache(maxsize=4096)
def _trig(x):
    pi = Decimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803")
    r = x * pi / 180
    def series(first, k):
        t = s = first
        while abs(t) > Decimal(10) ** -70:
            t = -t * r * r / ((k + 1) * (k + 2))
            s += t
            k += 2
        return s
    c, s = series(Decimal(1), 0), series(r, 1)
    return c, s, s / c


def degrees(a):
    raise Unsupported("degrees of a symbolic angle")


# ------------------------------------------------------------------ intervals
def interval(p, depth=0):
    """Outer bounds (lo, hi) of a polynomial from atom bounds; None = unbounded."""
    lo = hi = F(0)
    for m, c in p.t.items():
        a, b = F(1), F(1)
        for at, e in m:
            A = Atoms.table[at]
            l, h = A.lo, A.hi
            for _ in range(e):
                a, b = _imul(a, b, l, h)
            if e % 2 == 0:
                # even power of a single atom is >= 0
                a2, b2 = F(1), F(1)
                for at2, e2 in m:
                    if at2 != at:
                        for _ in range(e2):
                            a2, b2 = _imul(a2, b2, Atoms.table[at2].lo, Atoms.table[at2].hi)
                if len(m) == 1 and (a is None or a < 0):
                    a = F(0) if (l is None or h is None or l <= 0 <= h) else a
        c = F(c)
        if c > 0:
            a, b = (None if a is None else a * c), (None if b is None else b * c)
        else:
            a, b = (None if b is None else b * c), (None if a is None else a * c)
        lo = None if lo is None or a is None else lo + a
        hi = None if hi is None or b is None else hi + b
        if lo is None and hi is None:
            return None, None
    return lo, hi


def _square_bound(q):
    """Lower bound of a polynomial of degree 2 by completing squares, or None."""
    for _ in range(8):
        x = None
        for m, c in q.t.items():
            if len(m) == 1 and m[0][1] == 2:
                if c < 0:
                    return None
                if x is None:
                    x, a = m[0][0], c
            elif sum(e for _, e in m) > 2:
                return None
        if x is None:
            break
        rest, lin = {}, {}
        for m, c in q.t.items():
            e = dict(m).get(x, 0)
            if e == 0:
                rest[m] = c
            elif e == 1:
                lin[tuple(t for t in m if t[0] != x)] = c
        L = Poly(lin)
        q = Poly(rest).sub(L.mul(L).scale(1 / (4 * a)))
    return interval(q)[0]


def _imul(a, b, c, d):
    if a is not None and c is not None and a >= 0 and c >= 0:
        return a * c, (None if b is None or d is None else b * d)
    if None in (a, b, c, d):
        return None, None
    ps = (a * c, a * d, b * c, b * d)
    return min(ps), max(ps)


# ------------------------------------------------------------------ tokens in strings
class Token:
    __slots__ = ("v", "spec")

    def __init__(self, v, spec):
        self.v, self.spec = v, spec


# ------------------------------------------------------------------ the engine
class Stats:
    FIELDS = ("paths", "aborted", "decisions", "queries", "q_sat", "q_unsat", "q_unknown", "checks",
              "checks_nf", "checks_solver", "witnessed", "witness_mismatch", "blind", "subdivided", "ties", "tie_paths", "tie_tries")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.max_query_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        d["max_query_s"] = round(self.max_query_s, 3)
        return d


TIE = Decimal(10) ** -25


class Engine:
    """Runs a harness on every feasible path. The harness receives this object as environment E."""
    symbolic = True

    def __init__(self, harness, params=None, opts=None):
        self.harness = harness
        self.params = params or {}
        self.opts = dict(max_paths=20000, wall=600.0, t1=1500, t2=20000, dec=False, exact_floats=False,
                         witness=1, max_cex=6, cut_unknown=False, ties=0)
        self.opts.update(opts or {})
        self.st = Stats()
        self.cex = []
        self.unknown = []
        self.functions = set()
        self.samples = []
        self.labels = {}
        self.unsupported = []
        self.mismatches = []

    # ---------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, kind="float"):
        a, new = Atoms.get(("in", name), "real", name, lo=_f(lo), hi=_f(hi))
        if new or name not in self.inputs:
            self.inputs[name] = ("real", a)
        return Sym(Poly.atom(a), (), kind)

    def int(self, name, lo=None, hi=None):
        a, new = Atoms.get(("in", name), "int", name, lo=_f(lo), hi=_f(hi), is_int=True)
        self.inputs[name] = ("int", a)
        return Sym(Poly.atom(a), (), "int")

    def angle(self, name, lo, hi):
        """Degrees, paired with an atom for its tangent (0 <= lo < hi < 90)."""
        a, _ = Atoms.get(("in", name), "real", name, lo=_f(lo), hi=_f(hi))
        t, new = Atoms.get(("tan", name), "real", "tan_" + name,
                           lo=_f(math.tan(math.radians(lo))), hi=_f(math.tan(math.radians(hi))))
        self.tan_of[a.id] = t
        self.inputs[name] = ("angle", a, t)
        if new:
            t.extra = []
        return Sym(Poly.atom(a), ())

    def const(self, x, kind="float"):
        return Sym.const(x, kind)

    def choice(self, name, options):
        """One of a finite list of options; every one is explored."""
        options = list(options)
        k = self.raw_decide(("choice", name, len(options)), len(options))
        self.choices[name] = k
        return options[k]

    def bool(self, name):
        return self.choice(name, [False, True])

    def decimal_number(self, name, ints, decs):
        """Number written with the given numbers of integer and decimal digits; str() of it is symbolic."""
        from .strings import DecimalSym
        return DecimalSym.make(self, name, ints, decs)

    # ---------------------------------------------------------------- path primitives
    def raw_decide(self, key, n):
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            k = self.prefix[i][1]
        else:
            k = 0
            for alt in range(n - 1, 0, -1):
                self.work.append((self.prefix[:i] + [("c", alt)], list(self.cons), None))
            self.prefix.append(("c", 0))
        return k

    def norm(self, p, s):
        """Normalise polynomial constraint -> (primitive poly with positive leading coefficient, signset)"""
        k = p.key()
        r = self._norm.get(k)
        if r is None:
            c = p.content()
            _, lc = p.lead()
            if lc < 0:
                r = (p.scale(-1 / c), True)
            else:
                r = (p.scale(1 / c), False)
            self._norm[k] = r
        q, fl = r
        return q, (FLIP[s] if fl else s)

    def known(self, q):
        return self.signs.get(q.key(), 7)

    def quick_sign(self, q):
        """Sign set from bounds and from known signs of simple parts."""
        k = q.key()
        r = self._qs.get(k)
        if r is None:
            lo, hi = interval(q)
            r = 7
            if lo is not None:
                if lo > 0:
                    r &= POS
                elif lo == 0:
                    r &= POS | ZERO
            if hi is not None:
                if hi < 0:
                    r &= NEG
                elif hi == 0:
                    r &= NEG | ZERO
            if r == 7 and len(q.t) > 1 and q.degree() == 2:
                lo = _square_bound(q)
                if lo is not None and lo >= 0:
                    r = POS if lo > 0 else POS | ZERO
                else:
                    lo = _square_bound(q.neg())
                    if lo is not None and lo >= 0:
                        r = NEG if lo > 0 else NEG | ZERO
            self._qs[k] = r
        kn = self.known(q)
        r &= kn
        if r in (1, 2, 4):
            return r
        if self.pb and len(q.t) <= 2:
            r = self.linear_sign(q, r) or r
            if r in (1, 2, 4):
                return r
        # product of atoms with known sign
        g = q.mono_gcd()
        if g:
            s = POS
            for a, e in g.items():
                ap = Poly.atom(Atoms.table[a])
                sa = self._atom_sign(ap)
                for _ in range(e):
                    s = _smul(s, sa)
            rest = q.div_mono(g)
            if rest.is_const():
                s = _smul(s, sgn(rest.constval()))
            else:
                rn, fl = self.norm(rest, 7)[0], self._norm[rest.key()][1]
                rs = self.quick_sign(rn)
                s = _smul(s, FLIP[rs] if fl else rs)
            r &= s
        return r or kn

    @staticmethod
    def linear(q):
        """(atom, value) for q = atom*c + k of one atom (c > 0 after normalisation), or None."""
        at = None
        k = 0
        for m, c in q.t.items():
            if not m:
                k = c
            elif len(m) == 1 and m[0][1] == 1 and at is None and c > 0:
                at, cc = m[0][0], c
            else:
                return None
        return None if at is None else (at, -k / cc)

    def linear_sign(self, q, r):
        """Sign from the bounds of single variables learned on this path."""
        lv = self.linear(q)
        if lv is None or lv[0] not in self.pb:
            return r
        v = lv[1]
        lo, ls, hi, hs = self.pb[lv[0]]
        if lo is not None and lo >= v:
            r &= POS if lo > v or ls else POS | ZERO
        if hi is not None and hi <= v:
            r &= NEG if hi < v or hs else NEG | ZERO
        return r

    def learn(self, q, s):
        """Bounds of single variables from a decided constraint."""
        if len(q.t) > 2:
            return
        lv = self.linear(q)
        if lv is None:
            return
        a, v = lv
        lo, ls, hi, hs = self.pb.get(a, (None, False, None, False))
        if not s & NEG:
            st = not s & ZERO
            if lo is None or v > lo or (v == lo and st):
                lo, ls = v, st
        if not s & POS:
            st = not s & ZERO
            if hi is None or v < hi or (v == hi and st):
                hi, hs = v, st
        self.pb[a] = (lo, ls, hi, hs)
        if Mode.dec and None not in (lo, hi) and hi - lo <= TIE * (1 + abs(lo)) and not Atoms.table[a].is_int \
                and len(v.as_tuple().digits) > 25:
            # a variable exactly on an irrational border: a matter of rounding
            self.st.ties += 1
            raise PathAbort

    def _atom_sign(self, ap):
        k = ap.key()
        lo, hi = interval(ap)
        r = 7
        if lo is not None:
            r &= POS if lo > 0 else (POS | ZERO if lo == 0 else 7)
        if hi is not None:
            r &= NEG if hi < 0 else (NEG | ZERO if hi == 0 else 7)
        return (r & self.signs.get(k, 7)) or 7

    def know(self, p, s):
        """Record a fact that follows from the path."""
        if p.is_const():
            return
        q, s = self.norm(p, s)
        self.signs[q.key()] = self.known(q) & s or s

    def decide(self, p, s):
        if p.is_const():
            return bool(sgn(p.constval()) & s)
        q, s = self.norm(p, s)
        kn = self.quick_sign(q)
        if self.opts["ties"] and not self.tied and kn & ZERO and len(q.t) > 1 and _in_code():
            # the code may also see the two sides in another order, by rounding
            self.dn += 1
            if self.tie_at and self.tie_at[0] == self.dn:
                self.tied = True
                o = self.tie_at[1]
                self.cons.append((q, ZERO))
                self.signs[q.key()] = o
                return bool(o & s)
            if self.pos >= len(self.prefix):
                for o in (POS, NEG):
                    if bool(o & s) != bool(ZERO & s):
                        self.tie_work.append((self.prefix[:self.pos] + [("t", (self.dn, o))], self.cons + [(q, ZERO)], None))
        if not kn & ~s:
            return True
        if not kn & s:
            return False
        if q.degree() > 3:
            b = self.subdivide(q)
            if b:
                self.know(q, b)
                return bool(b & s)
        self.st.decisions += 1
        if self.st.decisions % 64 == 0 and time.time() > self.deadline:
            raise Budget("wall clock")
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            tag, val = self.prefix[i]
            if tag != "b":
                raise Unsupported("non-deterministic harness")
        else:
            val = self.pick(q, s, kn)
            alt = kn & (7 & ~s if val else s)
            self.work.append((self.prefix[:i] + [("b", not val)], self.cons + [(q, alt)], self.model))
            self.prefix.append(("b", val))
        ns = kn & (s if val else 7 & ~s)
        self.cons.append((q, ns))
        self.signs[q.key()] = ns
        self.learn(q, ns)
        return val

    def subdivide(self, q, boxes=96):
        """Sign of a polynomial of high degree in one or two bounded atoms, by interval evaluation of sub-boxes
        (0 = not decided). Margins are far above the rounding of floats."""
        k = q.key()
        r = self._sub.get(k)
        if r is not None:
            return r
        self._sub[k] = 0
        at = sorted(q.atoms())
        A = [Atoms.table[a] for a in at]
        if len(at) > 2 or len(q.t) > 400 or any(a.lo is None or a.hi is None for a in A):
            return 0
        terms = []
        for m, c in q.t.items():
            d = dict(m)
            terms.append((float(c), [d.get(a, 0) for a in at]))

        def bound(box):
            lo = hi = mag = 0.0
            pw = [(pow_iv(l, h)) for l, h in box]
            for c, es in terms:
                a = b = c
                for (pl, ph), e in zip(pw, es):
                    if e:
                        x, y = pl(e), ph(e)
                        v = (a * x, a * y, b * x, b * y)
                        a, b = min(v), max(v)
                if a > b:
                    a, b = b, a
                lo += a
                hi += b
                mag += max(abs(a), abs(b))
            return lo - 1e-9 * mag, hi + 1e-9 * mag

        def pow_iv(l, h):
            def pl(e):
                return l ** e if l >= 0 or e & 1 else (h ** e if h <= 0 else 0.0)

            def ph(e):
                return h ** e if e & 1 or -l <= h else l ** e
            return pl, ph
        todo = [[(float(a.lo), float(a.hi)) for a in A]]
        sign, n = 0, 0
        try:
            while todo:
                box = todo.pop()
                n += 1
                if n > boxes:
                    return 0
                lo, hi = bound(box)
                s = POS if lo > 0 else NEG if hi < 0 else 0
                if s:
                    if sign and sign != s:
                        return 0
                    sign = s
                    continue
                i = max(range(len(box)), key=lambda j: (box[j][1] - box[j][0]) / (1e-3 + abs(box[j][0])))
                l, h = box[i]
                c = math.sqrt(l * h) if l > 0 and h > 4 * l else (l + h) / 2
                for iv in ((l, c), (c, h)):
                    todo.append(box[:i] + [iv] + box[i + 1:])
        except OverflowError:
            return 0
        self._sub[k] = sign
        self.st.subdivided += 1
        return sign

    def pick(self, q, s, kn):
        v = self.model_sign(q)
        if v is not None and v & kn:
            return bool(v & s)
        # ask the solver
        r, m = self.solve(self.cons + [(q, kn & s)])
        if r == "sat":
            self.model = m
            return True
        if r == "unsat":
            return False
        return True

    def model_sign(self, q):
        if self.model is None:
            return None
        ok = True
        m = self.model

        def val(a):
            nonlocal ok
            v = self.model_val(m, a)
            if v is None:
                ok = False
                return 0
            return v
        try:
            exact = all(isinstance(m.get(a), F) for a in q.atoms())
            v = q.evalf(lambda a: F(val(a)) if exact else float(val(a))) if not Mode.dec or exact else \
                sum(float(c) * math.prod(float(val(a)) ** e for a, e in mm) for mm, c in q.t.items())
        except (OverflowError, ZeroDivisionError, TypeError):
            try:
                v = sum(float(c) * math.prod(float(val(a)) ** e for a, e in mm) for mm, c in q.t.items())
                exact = False
            except OverflowError:
                return None
        if not ok:
            return None
        if exact and not Mode.dec:
            return sgn(v)
        if exact:
            v = float(v)
        scale = sum(abs(float(c)) * math.prod(abs(float(val(a))) ** e for a, e in mm) for mm, c in q.t.items())
        if abs(v) <= 1e-9 * scale:
            return None
        return POS if v > 0 else NEG

    def model_val(self, m, a):
        v = m.get(a)
        if v is not None:
            return v
        A = Atoms.table[a]
        if A.kind == "sqrt":
            x = sum(float(c) * math.prod(float(self.model_val(m, b) or 0) ** e for b, e in mm)
                    for mm, c in A.arg.t.items())
            return math.sqrt(x) if x >= 0 else (0.0 if x > -1e-9 else None)
        if A.name.startswith(("rnd", "flr")):
            return None
        # unconstrained input: pick a value inside the bounds
        v = _inside(A)
        m[a] = v
        return v

    def assume_p(self, p, s):
        if p.is_const():
            if not sgn(p.constval()) & s:
                raise PathAbort
            return
        q, s = self.norm(p, s)
        kn = self.quick_sign(q)
        if not kn & ~s:
            return
        if not kn & s:
            raise PathAbort
        ns = kn & s
        self.cons.append((q, ns))
        self.signs[q.key()] = ns
        self.learn(q, ns)
        v = self.model_sign(q)
        if v is not None and v & ns:
            return
        if self.pos < len(self.prefix):
            return     # prefix is known feasible (or will be found infeasible at its end)
        r, m = self.solve(self.cons)
        if r == "unsat":
            raise PathAbort
        self.model = m if r == "sat" else None

    def hint(self, *roots):
        """Expressions whose squares the code takes square roots of (each use is verified algebraically)."""
        for h in roots:
            h = lift(h)
            if not h.is_const():
                self.root_hints.append((h, h * h))

    def assume(self, c):
        """c: SymBool / bool, or an iterable of them (conjunction)."""
        if isinstance(c, SymBool):
            self.assume_p(c.p, c.s)
        elif isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x)
        elif not c:
            raise PathAbort

    def concretize(self, v):
        """Enumerate all values of an integer expression."""
        if v.is_const():
            return int(v.constval())
        i = self.pos
        if i < len(self.prefix) and self.prefix[i][0] == "k":
            self.pos += 1
            k = self.prefix[i][1]
            p = v.n.sub(_expand(Poly.const(k), v.d)) if v.d else v.n.sub(Poly.const(k))
            self._addcon(p, ZERO)
            return k
        r, m = self.solve(self.cons)
        if r != "sat":
            if r == "unsat":
                raise PathAbort
            raise Unsupported("cannot enumerate an integer")
        self.model = m
        k = round(float(v.evalf(lambda a: coef(self.model_val(m, a)) if Mode.dec else float(self.model_val(m, a)))))
        p = v.n.sub(_expand(Poly.const(k), v.d)) if v.d else v.n.sub(Poly.const(k))
        q, s = self.norm(p, ZERO)
        self.pos += 1
        # alternatives: v == k here, v < k, v > k later (as ordinary decisions)
        kn = self.quick_sign(q)
        for alt in (NEG, POS):
            if kn & alt:
                self.work.append((self.prefix[:i] + [("n", (q, alt))], self.cons + [(q, alt)], None))
        self.prefix.append(("k", k))
        self.cons.append((q, ZERO))
        self.signs[q.key()] = ZERO
        self.learn(q, ZERO)
        return k

    def _addcon(self, p, s):
        if p.is_const():
            if not sgn(p.constval()) & s:
                raise PathAbort
            return
        q, s = self.norm(p, s)
        self.cons.append((q, s))
        self.signs[q.key()] = self.known(q) & s or s
        self.learn(q, s)

    # ---------------------------------------------------------------- solving
    def definitions(self, atoms):
        """Constraints that define the atoms used (closure)."""
        out = []
        seen = set()
        todo = list(atoms)
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            A = Atoms.table[a]
            v = z3atom(A)
            if A.lo is not None:
                out.append(v >= _z3num(F(0) if A.kind == "sqrt" else A.lo))
            if A.hi is not None and A.kind != "sqrt":
                out.append(v <= _z3num(A.hi))
            if A.kind == "sqrt":
                out.append(v * v == z3poly(A.arg))
                todo += [b for b in A.arg.atoms() if b not in seen]
            t = self.tan_of.get(a)
            if t is not None:
                tv = z3atom(t)
                for d in TAN_POINTS:
                    tp = _z3num(F(repr(math.tan(math.radians(d)))))
                    dd = z3.RealVal(d)
                    out.append(z3.And((v < dd) == (tv < tp), (v > dd) == (tv > tp)))
                out.append(z3.And((v > 0) == (tv > 0), (v < 0) == (tv < 0)))
                if t.id not in seen:
                    todo.append(t.id)
            for o, tt in self.tan_of.items():
                if tt.id == a and o not in seen:
                    todo.append(o)
        return out, seen

    def solve(self, cons, extra=(), timeout=None, model=True):
        """-> ('sat', model dict) / ('unsat', None) / ('unknown', None)"""
        t0 = time.time()
        if not extra and any(p.degree() > 3 for p, _ in cons):
            m = self.guess(cons)
            if m is not None:
                self.st.queries += 1
                self.st.q_sat += 1
                return "sat", m
        atoms = set()
        nonlin = False
        ints = False
        fs = []
        seen = set()
        for p, s in cons:
            k = (p.key(), s)
            if k in seen:
                continue
            seen.add(k)
            fs.append(z3con(p, s))
            atoms |= p.atoms()
            if p.degree() > 1:
                nonlin = True
        for p, s in extra:
            fs.append(z3con(p, s))
            atoms |= p.atoms()
            if p.degree() > 1:
                nonlin = True
        allat = set(atoms)
        todo = list(atoms)
        while todo:
            A = Atoms.table[todo.pop()]
            if A.kind == "sqrt":
                nonlin = True
                for b in A.arg.atoms():
                    if b not in allat:
                        allat.add(b)
                        todo.append(b)
            if A.is_int:
                ints = True
        dd, defs = self.definitions(atoms)
        fs += dd
        r, m = self._run_solver(fs, nonlin, ints, timeout)
        dt = time.time() - t0
        self.st.queries += 1
        self.st.solver_s += dt
        self.st.max_query_s = max(self.st.max_query_s, dt)
        if r == z3.sat:
            self.st.q_sat += 1
            md = {}
            if model:
                for a in defs:
                    A = Atoms.table[a]
                    if A.kind == "sqrt" or A.z3v is None:
                        continue
                    md[a] = _mval(m.eval(A.z3v, model_completion=True))
            return "sat", md
        if r == z3.unsat:
            self.st.q_unsat += 1
            return "unsat", None
        self.st.q_unknown += 1
        return "unknown", None

    def guess(self, cons):
        """A model among a few points of the input space, or None."""
        ins = set()
        todo = [a for p, _ in cons for a in p.atoms()]
        while todo:
            a = todo.pop()
            if a in ins:
                continue
            A = Atoms.table[a]
            if A.kind == "sqrt":
                todo += list(A.arg.atoms())
            elif A.is_int or A.lo is None or A.hi is None or A.name.startswith(("rnd", "flr")) or a in self.tan_of:
                return None
            else:
                ins.add(a)
        ins = sorted(ins)
        if len(ins) > 4:
            return None
        save = self.model
        try:
            for k in range(60):
                m = {}
                for j, a in enumerate(ins):
                    A = Atoms.table[a]
                    t = F((k * (7, 11, 13, 17)[j] + 1 + k // 7) % 61, 61) if k else F(1, 2)
                    lo, hi = F(A.lo), F(A.hi)
                    if k % 3 == 2 and lo >= 0:
                        t = t ** 4
                    if k % 3 == 1:
                        t = F(round(t * 4), 4)
                    m[a] = lo + (hi - lo) * F(round(t * 1000), 1000)
                self.model = m
                for p, s in cons:
                    v = self.model_sign(p)
                    if v is None or not v & s:
                        break
                else:
                    return m
        finally:
            self.model = save
        return None

    def _run_solver(self, fs, nonlin, ints, timeout=None):
        if not nonlin:
            s = z3.SimpleSolver() if not ints else z3.Solver()
            s.set("timeout", timeout or self.opts["t2"])
            s.add(fs)
            r = s.check()
            return r, (s.model() if r == z3.sat else None)
        s = z3.Solver()
        s.set("timeout", self.opts["t1"])
        s.add(fs)
        r = s.check()
        if r != z3.unknown:
            return r, (s.model() if r == z3.sat else None)
        if not ints:
            t = z3.Then(z3.With("simplify", som=True), "propagate-values", "solve-eqs", "qfnra-nlsat")
            s = t.solver()
            s.set("timeout", timeout or self.opts["t2"])
            s.add(fs)
            try:
                r = s.check()
                if r != z3.unknown:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                pass
        s = z3.Solver()
        s.set("timeout", timeout or self.opts["t2"])
        s.set("random_seed", 7)
        s.add(fs)
        r = s.check()
        return r, (s.model() if r == z3.sat else None)

    # ---------------------------------------------------------------- assertions
    def check(self, c, label, detail=""):
        self.st.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(c, (list, tuple)):
            for x in c:
                self.check(x, label, detail)
            return
        if not isinstance(c, SymBool):
            if c is True or (c is not False and bool(c)):
                self.st.checks_nf += 1
                return
            self._violation(label, detail, [])
            return
        q, s = self.norm(c.p, c.s)
        kn = self.quick_sign(q)
        if not kn & ~s:
            # follows from bounds or from a branch already decided on this path
            self.st.checks_nf += 1
            return
        if q.degree() > 3:
            b = self.subdivide(q)
            if b and not b & ~s:
                return
        self._violation(label, detail, [(q, kn & ~s & 7)])

    def close(self, a, b, label, tol=1e-6, detail=""):
        """|a - b| <= tol; None and containers are compared structurally."""
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return self.check(False, label, f"{detail} lengths {len(a)} != {len(b)}")
            for x, y in zip(a, b):
                self.close(x, y, label, tol, detail)
            return
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            return self.check(a == b, label, f"{detail} {a!r} vs {b!r}")
        a, b = lift(a), lift(b)
        self.st.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if a.sp or b.sp:
            if a.sp == b.sp:
                self.st.checks_nf += 1
                return
            return self._violation(label, f"{detail} {a!r} vs {b!r}", [])
        d = a - b
        if d.n.is_zero():
            self.st.checks_nf += 1
            return
        t = lift(F(repr(tol)) if not Mode.dec else Decimal(repr(tol)))
        for lo in (_diffnum(d, t), _diffnum(_neg(d), t)):
            if lo.is_const():
                if lo.constval() > 0:
                    self._violation(label, detail, [])
                continue
            q, s = self.norm(lo, POS)
            kn = self.quick_sign(q)
            if kn & s and q.degree() > 3:
                kn = self.subdivide(q) or kn
            if kn & s:
                self._violation(label, detail, [(q, kn & s)])

    def interior(self, extra):
        """A counterexample away from the borders of its region, if there is one (replays better)."""
        for eps in (F(1, 1000), F(1, 10 ** 6)):
            fs = []
            for p, s in list(self.cons) + list(extra):
                q = p.add(Poly.const(eps if s == NEG else -eps)) if s in (NEG, POS) else p
                fs.append((q, s))
            r, m = self.solve(fs, timeout=3000)
            if r == "sat":
                return m
        return None

    def fail(self, label, detail=""):
        self.st.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        self._violation(label, detail, [])

    def _violation(self, label, detail, extra):
        if len([c for c in self.cex if c["label"] == label]) >= self.opts["max_cex"]:
            return
        self.st.checks_solver += 1
        if self.tied:
            return self._tied_violation(label, detail, extra)
        r, m = self.solve(self.cons, extra)
        if r == "unsat":
            return
        if r == "sat":
            m = self.interior(extra) or m
        if r == "unknown":
            self.unknown.append(f"{label}: solver unknown")
            return
        if not self.cex:
            self.deadline = min(self.deadline, time.time() + 25)      # some more, to have candidates for the replay
        self.cex.append(dict(label=label, detail=str(detail)[:300], inputs=self.inputs_of(m), choices=dict(self.choices)))

    def _tied_violation(self, label, detail, extra):
        """A violation that needs two equal numbers to be told apart by rounding: it counts when one of a few models
        shows it on the real code."""
        from .concrete import run_concrete
        if self.st.tie_tries >= 400 or any(c["label"] == label for c in self.cex):
            return
        rnd = __import__("random").Random(len(self.cons) * 1000 + self.st.tie_tries)
        free = [inp[1] for inp in self.inputs.values() if inp[0] == "real" and inp[1].lo is not None and inp[1].hi is not None]
        for k in range(self.opts["ties"]):
            fix = []
            if k:
                for a in rnd.sample(free, max(0, min(len(free), len(free) - (k & 1)))):
                    d = F(rnd.choice((1, 2, 10, 10, 100, 100, 1000)))
                    v = F(math.floor((a.lo + (a.hi - a.lo) * F(rnd.random())) * d)) / d
                    if a.lo <= v <= a.hi:
                        fix.append((Poly.atom(a).sub(Poly.const(coef(v))), ZERO))
            m = None
            while True:
                r, m = self.solve(self.cons + fix, extra, timeout=1500)
                if r == "sat" or not fix:
                    break
                fix = fix[:len(fix) - 1] if len(fix) < 4 else fix[:len(fix) // 2]
            if r != "sat":
                return
            self.st.tie_tries += 1
            inputs = self.inputs_of(m)
            try:
                res = run_concrete(self.harness, self.params, inputs, self.choices)
            except Exception:
                continue
            if any(v["label"] == label for v in res["violations"]):
                if not self.cex:
                    self.deadline = min(self.deadline, time.time() + 25)
                self.cex.append(dict(label=label, detail="equal but for rounding: " + str(detail)[:250], inputs=inputs, choices=dict(self.choices)))
                return
            if not free:
                return

    def observe(self, name, v):
        self.obs.append((name, v))

    # ---------------------------------------------------------------- witnesses
    def inputs_of(self, m):
        out = {}
        for name, inp in self.inputs.items():
            a = inp[1]
            if inp[0] == "angle":
                t = self.model_val(m, inp[2].id)
                v = math.degrees(math.atan(float(t)))
                d = m.get(a.id)
                if d is not None and float(d) in (0.0, float(a.lo or 0), float(a.hi or 90)) and abs(float(d) - v) < 1e-6:
                    v = float(d)
                out[name] = v
                continue
            v = self.model_val(m, a.id)
            out[name] = int(v) if inp[0] == "int" else float(v)
        return out

    # ---------------------------------------------------------------- strings
    def token(self, v, spec):
        k = len(self.tokens)
        self.tokens.append(Token(v, spec))
        return f"\u27e6{k}\u27e7"

    # ---------------------------------------------------------------- driver
    def explore(self):
        global _ENG
        old = _ENG
        _ENG = self
        Atoms.reset()
        _z3cache.clear()
        Mode.dec = self.opts["dec"]
        Mode.exact_floats = self.opts["exact_floats"]
        self.t0 = time.time()
        self.deadline = self.t0 + self.opts["wall"]
        self.work = [([], [], None)]
        self.tie_work = []
        self._norm = {}
        self._qs = {}
        self._sub = {}
        self.tan_of = {}
        self.sqrt_factors = []
        self.root_hints = []
        self.complete = True
        try:
            while self.work or self.tie_work:
                if not self.work:
                    self.tie_phase()
                    break
                if self.st.paths >= self.opts["max_paths"] or time.time() > self.deadline:
                    self.complete = False
                    self.unknown.append(f"budget exhausted with {len(self.work)} alternatives left")
                    break
                prefix, cons, model = self.work.pop()
                m = None
                if prefix:
                    self.inputs = getattr(self, "inputs", {})
                    if prefix[-1][0] == "c":
                        r, m = ("sat", None) if not cons else self.solve(cons)
                    else:
                        r, m = self.solve(cons)
                    if r == "unsat":
                        continue
                    if r == "unknown":
                        self.st.blind += 1
                        m = None
                self.run_path(prefix, m)
        except Budget:
            self.complete = False
            self.unknown.append("budget exhausted inside a path")
        finally:
            _ENG = old
        return self

    def tie_phase(self):
        """Paths on which equal numbers differ by rounding, one decision at a time; as far as the budget goes."""
        end = min(self.deadline, time.time() + self.opts.get("tie_wall", 20))
        unknown, bad = list(self.unknown), list(self.unsupported)
        while (self.tie_work or self.work) and time.time() < end:
            prefix, cons, model = (self.work or self.tie_work).pop()
            r, m = self.solve(cons)
            if r == "unsat":
                continue
            self.st.tie_paths += 1
            try:
                self.run_path(prefix, m if r == "sat" else None)
            except Budget:
                break
            self.unknown, self.unsupported = list(unknown), list(bad)
        self.work = []

    def run_path(self, prefix, model):
        self.prefix = [x for x in prefix]
        self.tied = False
        self.tie_at = None
        self.dn = 0
        self.pos = 0
        self.cons = []
        self.signs = {}
        self.pb = {}
        self.model = dict(model) if model is not None else {}
        if prefix and model is None and not all(x[0] == "c" for x in prefix):
            self.model = None
        self.inputs = {}
        self.choices = {}
        self.obs = []
        self.tokens = []
        self.expected = None
        # "n" entries are constraints without a program point
        self.prefix = []
        pre = []
        for x in prefix:
            if x[0] == "n":
                pre.append((len(self.prefix), x[1]))
            elif x[0] == "t":
                self.tie_at = x[1]
            else:
                self.prefix.append(x)
        for _, (q, s) in pre:
            self.cons.append((q, s))
            self.signs[q.key()] = self.known(q) & s or s
        self._pre = pre
        from .loader import loader
        loader().reset()
        status = "ok"
        prof = None
        if self.st.paths < 3:
            prof = self._profile
            sys.setprofile(prof)
        try:
            try:
                self.harness(self, **self.params)
            finally:
                sys.setprofile(None)
        except PathAbort:
            self.st.aborted += 1
            return
        except Unsupported as e:
            status = "unsupported"
            self.unsupported.append(f"{e} @ {_where()}")
            if len(self.unsupported) > 20:
                raise Budget
        except (Budget, KeyboardInterrupt):
            raise
        except Exception as e:
            # an exception the harness did not expect is a violation on this path
            self.st.checks += 1
            tb = traceback.extract_tb(sys.exc_info()[2])
            if not any("/repo/" in f.filename for f in tb) and not self.opts.get("harness_exc_ok"):
                if "/verif/" in tb[-1].filename and type(e).__name__ not in ("AttributeError", "IndexError", "KeyError", "TypeError"):
                    raise
            where = "; ".join(f"{f.name}:{f.lineno}" for f in tb[-3:])
            if isinstance(e, AttributeError) and "/verif/" in tb[-1].filename:
                self.unsupported.append(f"{e} @ {where}")
                if len(self.unsupported) > 20:
                    raise Budget
                return
            self._violation("unexpected-exception", f"{type(e).__name__}: {e} at {where}", [])
        self.st.paths += 1
        self.witness(status)

    def _profile(self, frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith("/repo/") and frame.f_code.co_name != "<module>":
                self.functions.add(fn[6:] + ":" + frame.f_code.co_qualname)

    def witness(self, status="ok"):
        """Run the real code on a model of this path and compare the observed values."""
        if not self.opts["witness"] or self.tied:
            return
        if self.st.paths % self.opts["witness"] and self.st.paths > 3 and status == "ok":
            return
        m = self.model
        r = None
        if m is None or self._model_stale():
            r, m = self.solve(self.cons)
            if r != "sat":
                return
        inputs = self.inputs_of(m)
        from .concrete import run_concrete
        res = run_concrete(self.harness, self.params, inputs, self.choices)
        self.st.witnessed += 1
        if len(self.samples) < 3:
            self.samples.append(dict(inputs=inputs, choices=dict(self.choices),
                                     constraints=len(self.cons), observed=[(n, _show(v)) for n, v in res["obs"][:4]]))
        if res["violations"]:
            # the real run shows a violation: keep it if it is no artefact of a border case
            m2 = self.interior(())
            if m2 is not None:
                in2 = self.inputs_of(m2)
                r2 = run_concrete(self.harness, self.params, in2, self.choices)
                for v in r2["violations"][:2]:
                    if r2["error"] is None and len([c for c in self.cex if c["label"] == v["label"]]) < self.opts["max_cex"]:
                        self.cex.append(dict(label=v["label"], detail="witness run: " + v["detail"], inputs=in2,
                                             choices=dict(self.choices)))
        if status == "ok" and not self._agree(m, res):
            self.st.witness_mismatch += 1
            if len(self.mismatches) < 10:
                def ev(v):
                    try:
                        return float(v.evalf(lambda i: _flt(self.model_val(m, i)))) if isinstance(v, Sym) else v
                    except Exception as ex:
                        return repr(ex)
                bad = [(n1, ev(a), b) for (n1, a), (n2, b) in zip(self.obs, res["obs"])
                       if not self._agree1(m, a, b)][:3]
                self.mismatches.append(dict(inputs=inputs, choices=dict(self.choices), error=res.get("error"),
                                            nobs=(len(self.obs), len(res["obs"])), bad=repr(bad),
                                            viol=res["violations"][:2]))

    def _model_stale(self):
        m = self.model
        for q, s in self.cons:
            v = self.model_sign(q)
            if v is not None and not v & s:
                return True
        return False

    def _agree(self, m, res):
        if res.get("error") or len(res["obs"]) != len(self.obs):
            return False
        for (n1, a), (n2, b) in zip(self.obs, res["obs"]):
            if n1 != n2 or not self._agree1(m, a, b):
                return False
        return True

    def _agree1(self, m, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self._agree1(m, x, y) for x, y in zip(a, b))
        if isinstance(a, Sym):
            if b is None or isinstance(b, (str, list, tuple)):
                return False
            try:
                x = float(a.evalf(lambda i: _flt(self.model_val(m, i))))
            except (ZeroDivisionError, TypeError):
                return True
            y = float(b)
            return x != x and y != y or abs(x - y) <= 1e-6 * max(1, abs(x), abs(y))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            a, b = float(a), float(b)
            return abs(a - b) <= 1e-6 * max(1, abs(a)) or (a != a and b != b) or a == b
        return a == b

    # ---------------------------------------------------------------- code access
    @property
    def ps(self):
        from .loader import symbolic_package
        return symbolic_package()

    def views(self):
        from .loader import symbolic_views
        return symbolic_views()

    # -------- text in figures
    def text_number(self, s, rounded=True):
        """The number shown in a label (or, not rounded, the number it was written from), with the format spec used."""
        import re
        mt = re.search("\u27e6(\\d+)\u27e7", str(s))
        if mt:
            t = self.tokens[int(mt.group(1))]
            v = t.v
            if rounded and t.spec:
                k = re.fullmatch(r"[-+ 0-9,]*?(?:\.(\d+))?(f|g|)", t.spec)
                if not k:
                    raise Unsupported("format " + t.spec)
                if k.group(2) == "f":
                    v = sym_round(lift(v), int(k.group(1) or 6))
                elif k.group(2) == "g" or k.group(1):
                    v = sym_significant(lift(v), max(1, int(k.group(1) or 6)))
            return v, t.spec
        mt = re.search(r"-?\d+(\.\d+)?([eE][-+]?\d+)?", str(s))
        return (lift(float(mt.group(0))), None) if mt else (None, None)

    def le(self, a, b, label, tol=1e-6, detail=""):
        """a <= b + tol"""
        d = lift(a) - lift(b)
        if d.sp:
            return self.check(d.sp == "-inf", label, detail)
        t = lift(F(repr(tol)) if not Mode.dec else Decimal(repr(tol)))
        p = _diffnum(d, t)
        self.check(symbool(p, NEG | ZERO), label, detail)

    def fig(self, f):
        from .figstub import normal
        return normal(f)

    def sqrt(self, x):
        x = lift(x)
        return sym_sqrt(Sym(x.n, x.d, "float", False, x.sp))

    def tan(self, deg):
        return radians(deg).tan()

    def isnum(self, v):
        return isinstance(v, Sym) or (isinstance(v, (int, float)) and not isinstance(v, bool))

    def same(self, a, b, tol=1e-9):
        return bool(lift(a) == lift(b))

    def identical(self, a, b):
        """Equal as expressions (no branching)."""
        return _diffnum(lift(a), lift(b)).is_zero()

    def isnan(self, v):
        return isinstance(v, Sym) and v.sp == "nan"

    def isfinite(self, v):
        return not (isinstance(v, Sym) and v.sp)


def _in_code():
    f = sys._getframe(2)
    while f is not None and "/symex/" in f.f_code.co_filename:
        f = f.f_back
    return f is not None and "/repo/" in f.f_code.co_filename


def _flt(v):
    return Decimal(float(v)) if Mode.dec else float(v)


def _show(v):
    return v if isinstance(v, (int, float, str)) or v is None else repr(v)


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    return "; ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in tb[-4:])


def _smul(a, b):
    r = 0
    for x in (NEG, ZERO, POS):
        if a & x:
            for y in (NEG, ZERO, POS):
                if b & y:
                    if ZERO in (x, y):
                        r |= ZERO
                    else:
                        r |= POS if x == y else NEG
    return r


def _f(x):
    if x is None:
        return None
    return F(repr(float(x))) if not isinstance(x, (int, F)) else F(x)


def _inside(A):
    lo, hi = A.lo, A.hi
    if lo is not None and hi is not None:
        v = (lo + hi) / 2
    elif lo is not None:
        v = lo + 1
    elif hi is not None:
        v = hi - 1
    else:
        v = F(1)
    return F(math.floor(v)) if A.is_int else v


def _mval(v):
    if z3.is_rational_value(v):
        return F(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return F(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(F(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_to_real(v):
        return _mval(v.arg(0))
    return None
