"""Numbers whose decimal digits are symbolic, and the strings they are written as."""
from . import core
from .core import Sym, SymBool, lift, symbool, POS, ZERO, NEG


class DecimalSym(Sym):
    """A number together with the digits of its shortest decimal representation."""
    __slots__ = ("digits", "point")

    @staticmethod
    def make(E, name, ints, decs):
        n = ints + decs
        ds = [E.int(f"{name}_d{i}", 0, 9) for i in range(n)]
        if ints > 1:
            E.assume(ds[0] >= 1)
        if decs > 1:
            E.assume(ds[-1] >= 1)
        v = lift(0)
        from fractions import Fraction as F
        for i, d in enumerate(ds):
            v = v + d * lift(F(10) ** (ints - 1 - i))
        if decs > 4 and ints == 1:
            E.assume(v >= lift(F(1, 10000)))     # below that Python writes exponents
        r = DecimalSym(v.n, v.d, "float" if decs else "int")
        r.digits, r.point = ds, ints
        return r

    def sym_str(self):
        cs = list(self.digits)
        if self.point < len(cs):
            cs.insert(self.point, ".")
        return SymStr(cs)

    def __abs__(self):
        return self

    __str__ = lambda self: core.eng().token(self, "")


def _digit_eq(a, b):
    """a, b: char or digit Sym"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        if not b.isdigit() or len(b) != 1:
            return False
        return bool(a == int(b))
    return bool(a == b)


class SymStr:
    def __init__(self, cs):
        self.cs = list(cs)

    def __len__(self):
        return len(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield c if isinstance(c, str) else SymStr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.cs[i])
        c = self.cs[i]
        return c if isinstance(c, str) else SymStr([c])

    def _o(self, o):
        return o.cs if isinstance(o, SymStr) else list(o)

    def _at(self, i, o):
        return all(_digit_eq(self.cs[i + k], c) for k, c in enumerate(o))

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        o = self._o(o)
        return len(o) == len(self.cs) and self._at(0, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 78

    def __bool__(self):
        return bool(self.cs)

    def __contains__(self, o):
        return self.find(o) >= 0

    def find(self, o, start=0):
        o = self._o(o)
        for i in range(start, len(self.cs) - len(o) + 1):
            if self._at(i, o):
                return i
        return -1

    def rfind(self, o):
        o = self._o(o)
        for i in range(len(self.cs) - len(o), -1, -1):
            if self._at(i, o):
                return i
        return -1

    def index(self, o):
        i = self.find(o)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, o):
        return sum(1 for i in range(len(self.cs)) if self._at(i, self._o(o)[:1]))

    def split(self, sep=None, maxsplit=-1):
        out, cur, i, o = [], [], 0, self._o(sep)
        while i < len(self.cs):
            if i + len(o) <= len(self.cs) and maxsplit != 0 and self._at(i, o):
                out.append(SymStr(cur))
                cur = []
                i += len(o)
                maxsplit -= 1
            else:
                cur.append(self.cs[i])
                i += 1
        out.append(SymStr(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, SymStr([]), SymStr([])
        return SymStr(self.cs[:i]), sep, SymStr(self.cs[i + len(sep):])

    rpartition = partition

    def rstrip(self, chars=" "):
        cs = list(self.cs)
        while cs and any(_digit_eq(cs[-1], c) for c in chars):
            cs.pop()
        return SymStr(cs)

    def lstrip(self, chars=" "):
        cs = list(self.cs)
        while cs and any(_digit_eq(cs[0], c) for c in chars):
            cs.pop(0)
        return SymStr(cs)

    def strip(self, chars=" "):
        return self.lstrip(chars).rstrip(chars)

    def startswith(self, o):
        o = self._o(o)
        return len(o) <= len(self.cs) and self._at(0, o)

    def endswith(self, o):
        o = self._o(o)
        return len(o) <= len(self.cs) and self._at(len(self.cs) - len(o), o)

    def lower(self):
        return self
    upper = lower

    def isdigit(self):
        return bool(self.cs) and all(not isinstance(c, str) or c.isdigit() for c in self.cs)

    def to_sym(self):
        from fractions import Fraction as F
        p = self.cs.index(".") if any(isinstance(c, str) and c == "." for c in self.cs) else len(self.cs)
        v = lift(0)
        ds = [c for c in self.cs if not (isinstance(c, str) and c == ".")]
        for i, d in enumerate(ds):
            v = v + (lift(int(d)) if isinstance(d, str) else d) * lift(F(10) ** (p - 1 - i))
        return v
