"""Loads the current sources of /repo into symbolic form.

Every module is compiled from the file in /repo on every run (no copy, no cache). The only source
transformation is: dict and set displays become dict/set subclasses that compare symbolic keys by value.
Builtins (int, float, str, type, isinstance, round, ...) and the modules math, numpy, plotly and tqdm are
replaced by symbolic stand-ins; everything else is executed as it is."""
import ast
import builtins
import numbers
import os
import sys
import types

from . import core
from .core import Sym, SymBool, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"


# ------------------------------------------------------------------ builtins
class _M(type):
    def __instancecheck__(cls, x):
        return cls._isinst(x)

    def __subclasscheck__(cls, c):
        return isinstance(c, type) and issubclass(c, cls._real) or type.__subclasscheck__(cls, c)

    def __repr__(cls):
        return repr(cls._real)

    def __getattr__(cls, name):
        return getattr(type.__getattribute__(cls, "_real"), name)

    def __or__(cls, o):
        return _Union((cls,)) | o

    def __ror__(cls, o):
        return _Union((o,)) | cls


class _Union(tuple):
    """float | None and the like"""

    def __or__(self, o):
        return _Union(tuple(self) + (tuple(o) if isinstance(o, tuple) else (o,)))

    def __ror__(self, o):
        return _Union((o,) + tuple(self))

    def __call__(self):
        raise TypeError("a union is no type")


class float_(metaclass=_M):
    _real = float
    __name__ = "float"

    @staticmethod
    def _isinst(x):
        return isinstance(x, float) or (isinstance(x, Sym) and x.kind == "float")

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return Sym(x.n, x.d, "float", False, x.sp, x.tag)
        if isinstance(x, SymBool):
            return 1.0 if x else 0.0
        if isinstance(x, str):
            v, spec = core.eng().text_number(x) if "\u27e6" in x else (None, None)
            if v is not None:
                return float_(v)
        if hasattr(x, "to_sym"):
            return x.to_sym()
        if type(x).__name__ == "SArr" and x.size == 1:
            return float_(x.reshape(-1)[0])
        return float(x)

    fromhex = float.fromhex


class int_(metaclass=_M):
    _real = int
    __name__ = "int"

    @staticmethod
    def _isinst(x):
        return isinstance(x, int) or (isinstance(x, Sym) and x.kind == "int") or isinstance(x, SymBool)

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return core.to_int(x)
        if isinstance(x, SymBool):
            return int(bool(x))
        if hasattr(x, "to_sym"):
            return core.to_int(x.to_sym())
        return int(x, *a)


class str_(metaclass=_M):
    _real = str
    __name__ = "str"

    @staticmethod
    def _isinst(x):
        return isinstance(x, str) or type(x).__name__ == "SymStr"

    def __new__(cls, x="", *a):
        if hasattr(x, "sym_str"):
            return x.sym_str()
        return str(x, *a)

    join = str.join
    format = str.format
    lower = str.lower
    upper = str.upper
    strip = str.strip


class bool_(metaclass=_M):
    _real = bool
    __name__ = "bool"

    @staticmethod
    def _isinst(x):
        return isinstance(x, (bool, SymBool))

    def __new__(cls, x=False):
        return bool(x)


class type_(metaclass=_M):
    _real = type
    __name__ = "type"

    @staticmethod
    def _isinst(x):
        return isinstance(x, type)

    def __new__(cls, *a, **k):
        if len(a) != 1:
            return type(*a, **k)
        x = a[0]
        if isinstance(x, Sym):
            return {"int": int_, "float": float_}.get(x.kind) or __import__("decimal").Decimal
        if isinstance(x, SymBool):
            return bool_
        if type(x).__name__ == "SymStr":
            return str_
        if hasattr(x, "to_sym"):
            return float_
        return {int: int_, float: float_, str: str_, bool: bool_, SymDict: dict_, dict: dict_,
                set: set_}.get(type(x), type(x))


def isinstance_(x, c):
    if isinstance(c, tuple):
        return any(isinstance_(x, type(None) if k is None else k) for k in c)
    c = {int: int_, float: float_, str: str_, bool: bool_}.get(c, c)
    if isinstance(x, Sym):
        if c in (numbers.Number, numbers.Complex, numbers.Real):
            return x.kind != "decimal"
        if c in (numbers.Integral, numbers.Rational):
            return x.kind == "int"
        if getattr(c, "__name__", "") == "Decimal":
            return x.kind == "decimal"
        import numpy
        if c in (numpy.floating, numpy.number, numpy.generic):
            return x.np
        if c in (numpy.integer, numpy.bool_):
            return False
    elif hasattr(x, "to_sym") and c in (numbers.Number, numbers.Real):
        return True
    return isinstance(x, c)


def _has_sym(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, (tuple, list)):
        return any(_has_sym(x) for x in k)
    return False


class SymDict(dict):
    """dict in which keys that are symbolic numbers are compared by value (forking)."""
    __slots__ = ()

    def _k(self, k):
        if isinstance(k, (int, float)) and not isinstance(k, bool):
            if not any(isinstance(q, Sym) for q in self):
                return k
        elif not _has_sym(k):
            return k
        for q in self:
            if q is k:
                return q
        for q in self:
            if isinstance(q, (Sym, int, float, tuple)) and bool(q == k):
                return q
        return k

    def __getitem__(self, k):
        return dict.__getitem__(self, self._k(k))

    def __setitem__(self, k, v):
        dict.__setitem__(self, self._k(k), v)

    def __delitem__(self, k):
        dict.__delitem__(self, self._k(k))

    def __contains__(self, k):
        return dict.__contains__(self, self._k(k))

    def get(self, k, d=None):
        return dict.get(self, self._k(k), d)

    def pop(self, k, *d):
        return dict.pop(self, self._k(k), *d)

    def setdefault(self, k, d=None):
        return dict.setdefault(self, self._k(k), d)

    def update(self, *a, **k):
        for q, v in dict(*a, **k).items():
            self[q] = v

    def copy(self):
        return SymDict(self)


class dict_(metaclass=_M):
    _real = dict
    __name__ = "dict"

    @staticmethod
    def _isinst(x):
        return isinstance(x, dict)

    def __new__(cls, *a, **k):
        r = SymDict()
        if a:
            src = a[0]
            for q, v in (src.items() if isinstance(src, dict) else src):
                r[q] = v
        for q, v in k.items():
            dict.__setitem__(r, q, v)
        return r

    @staticmethod
    def fromkeys(it, v=None):
        r = SymDict()
        for k in it:
            r[k] = v
        return r


class set_(metaclass=_M):
    _real = set
    __name__ = "set"

    @staticmethod
    def _isinst(x):
        return isinstance(x, set)

    def __new__(cls, it=()):
        out = []
        sym = False
        items = list(it)
        if not any(_has_sym(x) for x in items):
            return set(items)
        for x in items:
            if not any(x is y or bool(x == y) for y in out):
                out.append(x)
        return SymSet(out)


class SymSet(set):
    def __init__(self, items):
        super().__init__()
        self.items = items
        for i in items:
            super().add(_Box(i))

    def __iter__(self):
        return iter(self.items)

    def __contains__(self, x):
        return any(x is y or bool(x == y) for y in self.items)

    def add(self, x):
        if x not in self:
            self.items.append(x)
            super().add(_Box(x))


class _Box:
    def __init__(self, v):
        self.v = v


def print_(*a, **k):
    pass


class range_(metaclass=_M):
    _real = range
    __name__ = "range"

    @staticmethod
    def _isinst(x):
        return isinstance(x, range)

    def __new__(cls, *a):
        return range(*a)


for _c in (float_, int_, str_, bool_, type_, dict_, set_, range_):
    _c.__name__ = _c.__qualname__ = _c._real.__name__


# ------------------------------------------------------------------ modules
class _Tqdm:
    def __new__(cls, it=None, *a, **k):
        return it if it is not None else object.__new__(cls)

    def update(self, *a):
        pass
    close = set_description = set_postfix = write = update

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


class Loader:
    def __init__(self):
        from . import mathstub, npstub, figstub
        self.mods = {}
        self.snaps = []
        self.builtins = dict(builtins.__dict__)
        self.builtins.update(
            int=int_, float=float_, str=str_, bool=bool_, type=type_, isinstance=isinstance_, dict=dict_,
            set=set_, print=print_, __import__=self.imp, __symdict__=dict_, __symset__=set_, __percent__=percent)
        tq = _mod("tqdm", tqdm=_Tqdm, trange=lambda n, *a, **k: range(n))
        go = figstub.module()
        self.stubs = {
            "math": mathstub.module(), "numpy": npstub.module(), "tqdm": tq, "tqdm.auto": tq,
            "tqdm.notebook": tq, "plotly.graph_objects": go, "plotly.graph_objs": go,
            "plotly": _mod("plotly", graph_objects=go, graph_objs=go, io=figstub.io_module()),
            "plotly.io": figstub.io_module(),
        }

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + name if name else "")
        else:
            full = name
        if full in self.stubs:
            m = self.stubs[full]
            if not fromlist and "." in full:
                return self.stubs[full.partition(".")[0]]
            return m
        top = full.partition(".")[0]
        if self.path(full):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self.path(full + "." + f):
                        setattr(m, f, self.load(full + "." + f))
                return m
            return self.load(top)
        # numpy's own lazy imports (array methods) run with the importing frame of the code under test
        if top in ("math", "numpy", "plotly", "tqdm") and not full.startswith("numpy._") and full != "numpy.typing":
            raise Unsupported(f"import of {full}")
        if SITE not in sys.path:
            sys.path.append(SITE)
        m = builtins.__import__(name, globals, locals, fromlist, level)
        return m

    def path(self, full):
        p = os.path.join(REPO, *full.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py") and full.partition(".")[0] in ("pyslope", "slope", "engineering"):
            return p + ".py"
        return None

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        parent = full.rpartition(".")[0]
        if parent and parent not in self.mods and self.path(parent):
            self.load(parent)
            if full in self.mods:
                return self.mods[full]
        path = self.path(full)
        m = types.ModuleType(full)
        self.mods[full] = m
        ispkg = path.endswith("__init__.py")
        m.__file__ = path
        m.__package__ = full if ispkg else full.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        sys.modules["symexrepo." + full] = m
        if full.endswith("._version"):
            m.get_versions = lambda: {"version": "0"}
        else:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read(), path)
            tree = ast.fix_missing_locations(_Tr().visit(tree))
            # dataclasses look the module up by name
            m.__dict__["__name__"] = full
            old = sys.modules.get(full)
            sys.modules[full] = m
            try:
                exec(compile(tree, path, "exec"), m.__dict__)
            finally:
                if old is None:
                    sys.modules.pop(full, None)
                else:
                    sys.modules[full] = old
        parent, _, leaf = full.rpartition(".")
        if parent and parent in self.mods:
            setattr(self.mods[parent], leaf, m)
        if full.startswith("pyslope"):
            self.snaps.append(_State(m))
        return m

    def reset(self):
        """Module and class state as after the import: paths do not see what earlier paths left behind."""
        for s in self.snaps:
            s.restore()


class _State:
    """What the names, classes, functions and containers of a module hold."""

    def __init__(self, m):
        self.scopes, self.items, self.caches, seen = [], [], [], set()
        self.name = m.__name__
        todo = [m]
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, (types.ModuleType, type, types.FunctionType)):
                self.scopes.append((o, dict(vars(o))))
                todo += [v for k, v in vars(o).items() if not k.startswith("__") and self.own(v)]
                if isinstance(o, types.FunctionType):
                    todo += [v for v in list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values())
                             + [c.cell_contents for c in o.__closure__ or () if _filled(c)] if self.own(v)]
            elif isinstance(o, (classmethod, staticmethod)):
                todo.append(o.__func__)
            elif isinstance(o, property):
                todo += [f for f in (o.fget, o.fset) if f]
            elif isinstance(o, (dict, list, set)):
                self.items.append((o, o.copy()))
                todo += [v for v in (o.values() if isinstance(o, dict) else o) if self.own(v)]
            elif hasattr(o, "cache_clear"):
                self.caches.append(o)
                todo.append(o.__wrapped__)

    def own(self, v):
        return isinstance(v, (dict, list, set, classmethod, staticmethod, property)) or hasattr(v, "cache_clear") and hasattr(v, "__wrapped__") \
            or isinstance(v, (type, types.FunctionType)) and v.__module__ == self.name

    def restore(self):
        for o, was in self.scopes:
            now = vars(o)
            for k in [k for k in now if k not in was]:
                if not k.startswith("__"):
                    delattr(o, k)
            for k, v in was.items():
                if now.get(k, self) is not v and not k.startswith("__"):
                    setattr(o, k, v)
        for o, was in self.items:
            if isinstance(o, dict):
                if len(o) != len(was) or any(k not in o or o[k] is not v for k, v in was.items()):
                    o.clear()
                    o.update(was)
            elif isinstance(o, list):
                o[:] = was
            elif o != was:
                o.clear()
                o.update(was)
        for c in self.caches:
            c.cache_clear()


def _filled(c):
    try:
        c.cell_contents
    except ValueError:
        return False
    return True


_PCT = __import__("re").compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-#0 +]*)(?P<width>\d*)(?P<prec>\.\d+)?[hlL]?(?P<conv>[a-zA-Z%])")


def percent(fmt, args):
    """the % operator of a text constant, for symbolic arguments"""
    if not isinstance(fmt, str):
        return fmt % args
    flat = list(args.values()) if isinstance(args, dict) else list(args) if isinstance(args, tuple) else [args]
    if not any(isinstance(a, Sym) or hasattr(a, "to_sym") for a in flat):
        return fmt % args
    todo = iter(flat)

    def one(m):
        if m["conv"] == "%":
            return "%"
        v = args[m["key"]] if m["key"] is not None else next(todo)
        if m["conv"] in "sr":
            return str_(v)
        if not isinstance(v, Sym):
            return m[0].replace("(%s)" % m["key"], "") % v
        if m["flags"].strip("0 +") or m["conv"] not in "fFd":
            raise Unsupported(f"format {m[0]} of a symbolic number")
        if m["conv"] == "d":
            return format(core.to_int(v), "d")
        return format(v, m["flags"] + m["width"] + (m["prec"] or ".6") + m["conv"])
    return _PCT.sub(one, fmt)


class _Tr(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("__percent__", ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__symdict__", ast.Load()), [node], []), node) \
            if any(k is None for k in node.keys) or not node.keys else ast.copy_location(ast.Call(
                ast.Name("__symdict__", ast.Load()),
                [ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())],
                []), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__symdict__", ast.Load()), [ast.ListComp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators)], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__symset__", ast.Load()),
                                          [ast.List(node.elts, ast.Load())], []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name("__symset__", ast.Load()),
                                          [ast.ListComp(node.elt, node.generators)], []), node)


_L = None


def loader():
    global _L
    if _L is None:
        sys.dont_write_bytecode = True
        sys.setrecursionlimit(10000)
        _L = Loader()
    return _L


def symbolic_package():
    return loader().load("pyslope.pyslope")


def symbolic_views():
    from .concrete import setup_django
    setup_django()
    L = loader()
    import warnings
    warnings.filterwarnings("ignore", message="Model .* was already registered")
    m = L.load("slope.views")
    # the session is stored as text and read back with eval(str(x)): identity on values
    m.__dict__["eval"] = lambda x, *a: x.v if isinstance(x, _Opaque) else eval(x, *a)
    m.__dict__["str"] = lambda x="", *a: _Opaque(x) if isinstance(x, (list, dict)) else str_(x, *a)
    return m


class _Opaque:
    def __init__(self, v):
        self.v = v
