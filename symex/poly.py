"""Sparse multivariate polynomials over atoms, with the rewrite s*s -> t for square root atoms.

A monomial is a sorted tuple of (atom id, exponent); a polynomial maps monomials to coefficients.
Coefficients are exact Fractions, or 60 digit Decimals in "dec" mode (concrete geometry with irrational
constants), where results of additions smaller than 1e-40 of the operands are cancellation noise and
become 0."""
from fractions import Fraction as F
import decimal
from decimal import Decimal

decimal.getcontext().prec = 60
_NOISE = Decimal(10) ** -40


class Mode:
    dec = False          # coefficients are Decimals
    exact_floats = False  # float literals are taken bit-exactly instead of as their shortest decimal


def coef(x):
    """Any finite python number -> coefficient of the current mode."""
    if Mode.dec:
        if isinstance(x, Decimal):
            return x
        if isinstance(x, F):
            return Decimal(x.numerator) / Decimal(x.denominator)
        if isinstance(x, bool) or isinstance(x, int):
            return Decimal(int(x))
        return Decimal(repr(float(x)))
    if isinstance(x, F):
        return x
    if isinstance(x, int):
        return F(x)
    if isinstance(x, Decimal):
        return F(x)
    x = float(x)
    return F(x) if Mode.exact_floats else F(repr(x))


def cadd(a, b):
    c = a + b
    if Mode.dec and c and abs(c) < _NOISE * max(abs(a), abs(b)):
        return c * 0
    return c


class Atom:
    __slots__ = ("id", "kind", "name", "arg", "lo", "hi", "z3v", "extra", "is_int")

    def __init__(self, id, kind, name, arg=None, lo=None, hi=None, is_int=False):
        self.id, self.kind, self.name, self.arg = id, kind, name, arg
        self.lo, self.hi, self.is_int = lo, hi, is_int
        self.z3v = None
        self.extra = []      # extra constraints: list of (Poly, signset)


class Atoms:
    """Interned table of atoms (one per process and harness run)."""
    table = []
    index = {}
    sqrt_ids = {}

    @classmethod
    def reset(cls):
        cls.table, cls.index, cls.sqrt_ids = [], {}, {}

    @classmethod
    def get(cls, key, kind, name, arg=None, lo=None, hi=None, is_int=False):
        a = cls.index.get(key)
        if a is None:
            a = Atom(len(cls.table), kind, name, arg, lo, hi, is_int)
            cls.table.append(a)
            cls.index[key] = a
            if kind == "sqrt":
                cls.sqrt_ids[a.id] = arg
            return a, True
        return a, False


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    if len(m1) == 1 and len(m2) == 1:
        (a, e), (b, f) = m1[0], m2[0]
        if a < b:
            return (m1[0], m2[0])
        if a > b:
            return (m2[0], m1[0])
        return ((a, e + f),)
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ("t", "_h", "_atoms")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._atoms = None

    @staticmethod
    def const(c):
        c = coef(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): coef(1)})

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), coef(0))

    def atoms(self):
        if self._atoms is None:
            self._atoms = frozenset(a for m in self.t for a, _ in m)
        return self._atoms

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def add(self, o, k=None):
        if k is None and len(o.t) > len(self.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            if k is not None:
                c = c * k
            old = r.get(m)
            if old is None:
                if c:
                    r[m] = c
            else:
                s = cadd(old, c)
                if s:
                    r[m] = s
                else:
                    del r[m]
        return Poly(r)

    def sub(self, o):
        return self.add(o, coef(-1))

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t.items()}) if k else Poly({})

    def mul(self, o):
        if not self.t or not o.t:
            return Poly({})
        if o.is_const():
            return self.scale(o.constval())
        if self.is_const():
            return o.scale(self.constval())
        sq = Atoms.sqrt_ids
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                c = c1 * c2
                old = r.get(m)
                if old is None:
                    r[m] = c
                else:
                    s = cadd(old, c)
                    if s:
                        r[m] = s
                    else:
                        del r[m]
        if sq and any(e > 1 and a in sq for m in r for a, e in m):
            return _reduce(r)
        return Poly(r)

    def pow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def lead(self):
        m = max(self.t)
        return m, self.t[m]

    def content(self):
        """Positive rational c with self/c primitive; in dec mode the leading |coefficient|."""
        if Mode.dec:
            return abs(self.lead()[1])
        from math import gcd
        n = 0
        d = 1
        for c in self.t.values():
            n = gcd(n, c.numerator)
            d = d * c.denominator // gcd(d, c.denominator)
        return F(n, d)

    def mono_gcd(self):
        it = iter(self.t)
        g = dict(next(it))
        for m in it:
            if not g:
                break
            dm = dict(m)
            g = {a: min(e, dm[a]) for a, e in g.items() if a in dm}
        return g

    def div_mono(self, g):
        if not g:
            return self
        r = {}
        for m, c in self.t.items():
            d = dict(m)
            for a, e in g.items():
                d[a] -= e
                if not d[a]:
                    del d[a]
            r[tuple(sorted(d.items()))] = c
        return Poly(r)

    def divexact(self, f):
        """self / f if f divides self as plain polynomial, else None."""
        if f.is_const():
            return self.scale(1 / f.constval())
        if not self.t:
            return self
        if Mode.dec and len(self.t) > 1 and len(f.t) > 1 and self.degree() > 12:
            return None
        fm, fc = _lexlead(f)
        fmd = dict(fm)
        r = dict(self.t)
        q = {}
        steps = 0
        while r:
            steps += 1
            if steps > 400:
                return None
            m = max(r, key=_lexkey)
            c = r[m]
            d = dict(m)
            for a, e in fmd.items():
                if d.get(a, 0) < e:
                    return None
                d[a] -= e
                if not d[a]:
                    del d[a]
            qm = tuple(sorted(d.items()))
            qc = c / fc
            q[qm] = qc
            for m2, c2 in f.t.items():
                mm = _mono_mul(qm, m2)
                old = r.get(mm)
                if old is None:
                    r[mm] = -qc * c2
                else:
                    s = cadd(old, -qc * c2)
                    if s and mm != m:
                        r[mm] = s
                    else:
                        del r[mm]
        return Poly(q)

    def evalf(self, val):
        """val: atom id -> number."""
        tot = 0
        for m, c in self.t.items():
            p = c
            for a, e in m:
                p = p * val(a) ** e
            tot = tot + p
        return tot

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            s = "*".join(Atoms.table[a].name + (f"^{e}" if e > 1 else "") for a, e in m)
            out.append(f"{float(c):g}" + ("*" + s if s else ""))
        return " + ".join(out)


def _lexkey(m):
    # lexicographic monomial order on atom ids (small id = most significant)
    k = []
    last = 0
    for a, e in m:
        k.append((-a, e))
    return k


def _lexlead(f):
    m = max(f.t, key=_lexkey)
    return m, f.t[m]


def _reduce(r):
    sq = Atoms.sqrt_ids
    while True:
        bad = [m for m in r if any(e > 1 and a in sq for a, e in m)]
        if not bad:
            return Poly(r)
        for m in bad:
            c = r.pop(m)
            rest = []
            mult = Poly({(): c})
            for a, e in m:
                if a in sq and e > 1:
                    mult = mult.mul(sq[a].pow(e // 2))
                    if e & 1:
                        rest.append((a, 1))
                else:
                    rest.append((a, e))
            rest = tuple(rest)
            for m2, c2 in mult.t.items():
                mm = _mono_mul(rest, m2)
                old = r.get(mm)
                if old is None:
                    r[mm] = c2
                else:
                    s = cadd(old, c2)
                    if s:
                        r[mm] = s
                    else:
                        del r[mm]


def poly_sqrt(p):
    """Polynomial r with r*r == p, or None (multi-term perfect squares, no sqrt atoms, exact mode)."""
    if Mode.dec or len(p.t) > 60:
        return None
    if any(a in Atoms.sqrt_ids for a in p.atoms()):
        return None
    if p.degree() % 2:
        return None
    from math import isqrt

    def csqrt(c):
        if c < 0:
            return None
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        return F(n, d) if n * n == c.numerator and d * d == c.denominator else None
    m, c = _lexlead(p)
    if any(e % 2 for _, e in m):
        return None
    rc = csqrt(c)
    if rc is None:
        return None
    lm = tuple((a, e // 2) for a, e in m)
    lmd = dict(lm)
    root = Poly({lm: rc})
    for _ in range(len(p.t) + 1):
        rem = p.sub(root.mul(root))
        if rem.is_zero():
            return root
        m2, c2 = _lexlead(rem)
        d = dict(m2)
        for a, e in lmd.items():
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if not d[a]:
                del d[a]
        t = tuple(sorted(d.items()))
        if t in root.t:
            return None
        root = root.add(Poly({t: c2 / (2 * rc)}))
    return None
