"""The same environment interface on concrete values and the real, unmodified package: replay and witnesses."""
import math
import os
import re
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
os.environ.setdefault("TQDM_DISABLE", "1")


class AssumeFailed(BaseException):
    pass


def setup_path():
    sys.dont_write_bytecode = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def setup_django():
    setup_path()
    from django.conf import settings
    if not settings.configured:
        settings.configure(SECRET_KEY="x", INSTALLED_APPS=["django.contrib.contenttypes", "slope"],
                           DATABASES={"default": {"ENGINE": "django.db.backends.sqlite3", "NAME": ":memory:"}},
                           DEFAULT_AUTO_FIELD="django.db.models.AutoField", USE_TZ=False)
        import django
        django.setup()


_PS = None


def real_package():
    global _PS
    if _PS is None:
        setup_path()
        import io
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            import pyslope.pyslope as ps
        finally:
            sys.stderr = err
        assert ps.__file__.startswith(REPO), ps.__file__
        ps_tqdm(ps)
        _PS = ps
    return _PS


def ps_tqdm(ps):
    if hasattr(ps, "tqdm"):
        ps.tqdm = lambda it=None, *a, **k: it


class CEnv:
    symbolic = False

    def __init__(self, inputs, choices, params=None):
        self.inputs_given = dict(inputs)
        self.choices_given = dict(choices)
        self.obs = []
        self.violations = []
        self.sqrt_factors = []

    def real(self, name, lo=None, hi=None, kind="float"):
        v = self.inputs_given.get(name)
        if v is None:
            v = (lo + hi) / 2 if lo is not None and hi is not None else (lo if lo is not None else hi or 0.0)
        if kind == "decimal":
            from decimal import Decimal
            return Decimal(repr(float(v)))
        if kind == "int":
            return int(round(v))
        return float(v)

    def int(self, name, lo=None, hi=None):
        v = self.inputs_given.get(name)
        return int(v if v is not None else (lo or 0))

    def angle(self, name, lo, hi):
        v = self.inputs_given.get(name)
        return float(v if v is not None else (lo + hi) / 2)

    def const(self, x, kind="float"):
        return float(x) if kind == "float" else x

    def choice(self, name, options):
        options = list(options)
        k = self.choices_given.get(name, 0)
        return options[k] if k < len(options) else options[0]

    def bool(self, name):
        return self.choice(name, [False, True])

    def decimal_number(self, name, ints, decs):
        ds = [self.int(f"{name}_d{i}", 0, 9) for i in range(ints + decs)]
        s = "".join(map(str, ds[:ints]))
        return float(s + "." + "".join(map(str, ds[ints:]))) if decs else int(s)

    def hint(self, *roots):
        pass

    def assume(self, c):
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x)
        elif not c:
            raise AssumeFailed

    # ---- assertions
    def check(self, c, label, detail=""):
        if isinstance(c, (list, tuple)):
            for x in c:
                self.check(x, label, detail)
        elif not c:
            self.violations.append(dict(label=label, detail=str(detail)[:300]))

    def close(self, a, b, label, tol=1e-6, detail=""):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return self.check(False, label, f"{detail} lengths {len(a)} != {len(b)}")
            for x, y in zip(a, b):
                self.close(x, y, label, tol, detail)
            return
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            return self.check(a == b, label, f"{detail} {a!r} vs {b!r}")
        x, y = float(a), float(b)
        if x != x or y != y:
            return self.check(x != x and y != y, label, f"{detail} {a!r} vs {b!r}")
        if math.isinf(x) or math.isinf(y):
            return self.check(x == y, label, f"{detail} {a!r} vs {b!r}")
        self.check(abs(x - y) <= tol / 2, label, f"{detail} {x!r} vs {y!r}")

    def le(self, a, b, label, tol=1e-6, detail=""):
        self.check(float(a) <= float(b) + tol / 2, label, f"{detail} {a!r} > {b!r}")

    def fail(self, label, detail=""):
        self.violations.append(dict(label=label, detail=str(detail)[:300]))

    def observe(self, name, v):
        self.obs.append((name, v))

    @property
    def ps(self):
        return real_package()

    def views(self):
        setup_django()
        import slope.views as v
        assert v.__file__.startswith(REPO), v.__file__
        real_package()
        return v

    def fig(self, f):
        from .figstub import normal
        return normal(f)

    def text_number(self, s, rounded=True):
        m = re.search(r"-?\d+(\.\d+)?([eE][-+]?\d+)?", str(s))
        return (float(m.group(0)), None) if m else (None, None)

    def identical(self, a, b):
        return abs(a - b) < 1e-9

    def isnan(self, v):
        return v != v

    def isfinite(self, v):
        return math.isfinite(v)

    def sqrt(self, x):
        return math.sqrt(x)

    def tan(self, deg):
        return math.tan(math.radians(deg))

    def isnum(self, v):
        return isinstance(v, (int, float)) and not isinstance(v, bool)

    def same(self, a, b, tol=1e-9):
        """Truth value of a == b up to rounding."""
        return abs(a - b) <= tol


def run_concrete(harness, params, inputs, choices):
    E = CEnv(inputs, choices, params)
    err = None
    try:
        harness(E, **params)
    except AssumeFailed:
        err = "assume"
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = "; ".join(f"{f.name}:{f.lineno}" for f in tb[-3:])
        ours = [f.filename for f in tb if "/repo/" in f.filename or "/verif/" in f.filename]
        if isinstance(e, AttributeError) and not (ours and "/repo/" in ours[-1]):
            err = f"harness: {e}"
        else:
            E.violations.append(dict(label="unexpected-exception", detail=f"{type(e).__name__}: {e} at {where}"))
    return dict(obs=E.obs, error=err, violations=E.violations)
