"""Shared pieces of the harnesses."""


def rejects(E, f, *a, **k):
    """True when the call raises ValueError (any other exception propagates)."""
    try:
        f(*a, **k)
    except ValueError:
        return True
    return False


def slope(E, prefix="", hmax=30, lmax=60, hmin=0.1, lmin=0):
    """A slope of arbitrary height and length -> (slope, height, length)."""
    H = E.real(prefix + "height", hmin, hmax)
    L = E.real(prefix + "length", lmin, lmax)
    return E.ps.Slope(height=H, length=L), H, max(L, 0.001)


def top(s):
    return s.get_top_coordinates()


def bot(s):
    return s.get_bottom_coordinates()


def geometry(s):
    t, b = top(s), bot(s)
    return [t[0], t[1], b[0], b[1], s._external_length, s._external_height]


def materials(s):
    return [[m.depth_to_bottom, m.RL, m.unit_weight, m.cohesion, m.tan_friction_angle] for m in s._materials]


def udls(s):
    return [[u.magnitude, u.offset, u.length, u.left, u.right] for u in s._udls]


def lls(s):
    return [[p.magnitude, p.offset, p.coord] for p in s._lls]


def options(s):
    return [s._slices, s._iterations, s._min_failure_distance, s._tolerance, s._max_iterations]


def water(s):
    return [s._water_RL, s._water_analysis_H]


def limits(s):
    return list(s._limits)


def state(s):
    """Everything a user can set, as nested lists."""
    return [geometry(s), materials(s), udls(s), lls(s), water(s), options(s), limits(s)]


STATE_NAMES = ["section", "strata", "uniform loads", "line loads", "water", "options", "limits"]


def same_state(E, a, b, what, skip=(), tol=1e-6):
    for n, x, y in zip(STATE_NAMES, a, b):
        if n not in skip:
            E.close(x, y, f"{what}: {n}", tol=tol)


def kth(E, kind, name, lo, hi):
    """Number of the given Python kind."""
    return E.int(name + "_i", int(lo), int(hi)) if kind == "int" else E.real(name, lo, hi)


def same_fig(E, f, g, what, tol=1e-6):
    """Both figures show the same."""
    a, b = E.fig(f), E.fig(g)
    for part in ("traces", "shapes", "annotations"):
        x, y = a[part], b[part]
        E.check(len(x) == len(y), f"{what}: number of {part}", f"{len(x)} vs {len(y)}")
        if len(x) != len(y):
            continue
        for p, q in zip(x, y):
            same_item(E, p, q, f"{what}: {part}", tol)


def same_item(E, p, q, label, tol):
    if isinstance(p, dict) and isinstance(q, dict):
        E.check(set(p) == set(q), label, f"{sorted(p)} vs {sorted(q)}")
        for k in p:
            if k in q:
                same_item(E, p[k], q[k], label, tol)
    elif isinstance(p, (list, tuple)) and isinstance(q, (list, tuple)):
        E.check(len(p) == len(q), label)
        for u, v in zip(p, q):
            same_item(E, u, v, label, tol)
    elif isinstance(p, str) and isinstance(q, str):
        if p != q:
            same_text(E, p, q, label, tol)
    elif p is None or q is None or isinstance(p, (str, bool)) or isinstance(q, (str, bool)):
        E.check(p == q, label, f"{p!r} vs {q!r}")
    else:
        E.close(p, q, label, tol)


def same_text(E, p, q, label, tol):
    a, x = E.text_number(p, False)
    b, y = E.text_number(q, False)
    if a is None or b is None:
        E.check(False, label, f"{p!r} vs {q!r}")
    else:
        E.check(x == y, label, f"{p!r} vs {q!r}")
        E.close(a, b, label, tol)
