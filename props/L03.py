"""L03 A line load acts on exactly one slice."""
from .fos import Case, PLANES

OUTSIDE = ("loads reaching beyond the section as it is; positions within 1e-9 m of a slice border count for either neighbour, "
           "positions within 1e-9 m of an end of the plane for none or the last slice; real-valued positions, not only floats")


def case(E, plane, n, it):
    k = Case(E, plane, n, it)
    k.s.update_boundary_options(MIN_EXT_L=40)   # no load extends the section
    k.strata()
    k.place()
    return k


def border(k, i):
    x0, x1 = k.plane[:2]
    return x0 + (x1 - x0) * i / k.n


def home(E, k, x, eps):
    """Slices in which a load at x may count: one, or the two around a border; [None] outside."""
    if x < border(k, 0) - eps or x > border(k, k.n) + eps:
        return [None]
    lo, hi = 0, k.n
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if x >= border(k, mid):
            lo = mid
        else:
            hi = mid
    out = [lo]
    if x < border(k, lo) + eps:
        out.append(lo - 1 if lo else None)
    elif x > border(k, lo + 1) - eps:
        out.append(lo + 1 if lo < k.n - 1 else None)
    return out


def value(k, sl, add):
    """Factor of safety of the reference with extra weights on slices."""
    sl = [dict(s) for s in sl]
    for i, p in add:
        if i is not None:
            sl[i]["w"] = sl[i]["w"] + p
    ref, keep = k.ref, k.ref.slices
    ref.slices = lambda *a: sl
    try:
        return ref.fos(k.plane, k.n, k.it)
    finally:
        ref.slices = keep


def once(E, plane, n, it, magnitude):
    """The load counts for one slice, the one that has it."""
    k = case(E, plane, n, it)
    R = min(k.back * 1.6, 12)
    x = E.real("offset", 0, R)
    p = E.real("p", 1, 400) if magnitude else E.const(37)
    k.ll(p, x)
    got = k.reported()
    pos = k.ref.top[0] - x
    lls, k.ref.lls = k.ref.lls, []
    sl = k.ref.slices(k.plane, k.n)
    k.ref.lls = lls
    at = home(E, k, pos, E.const(1e-9))
    want = [value(k, sl, [(i, p)]) for i in at]
    if len(want) == 1:
        E.close(got, want[0], "load counted once, on its slice", 1e-7)
        E.observe("fos", got)
    else:
        E.check(any(close(E, got, w) for w in want), "load counted once, on a slice it borders", f"{got} vs {want}")


def close(E, a, b):
    d = a - b
    return bool(d < E.const(1e-6)) and bool(d > E.const(-1e-6))


def several(E, plane, it):
    """Loads add up: any magnitudes of three loads, two of them on one slice."""
    k = case(E, plane, 10, it)
    w = (border(k, 10) - border(k, 0)) / 10
    b = [k.ref.top[0] - border(k, 0) - w * E.const(f) for f in (0.3, 0.6, 1.4)]
    ps = [E.real(f"p{i}", 0, 300) if it == 0 or i == 1 else E.const(12 + i) for i in range(3)]
    for p, o in zip(ps, b):
        if not o >= 0:
            o = o * 0
        k.ll(p, o)
    k.compare()


def outside(E, plane):
    """Loads outside the plane have no effect, whatever their magnitude."""
    base = case(E, plane, 10, 6)
    got = base.reported()
    k = case(E, plane, 10, 6)
    k.ll(E.real("p", 0, 500), E.real("offset", k.back + 1e-6, 12))
    k.ll(E.real("p1", 0, 500), E.const(k.back) + E.const(1e-6))
    E.close(k.reported(), got, "load outside the plane has no effect")
    E.observe("fos", got)


def mixed(E, plane, order):
    """Loads inside and outside of the plane, assigned in any order."""
    k = case(E, plane, 10, 1)
    w = (k.out * max(k.dims[1], 0.001) + k.back) / 10
    i = int((k.back - 0.15 * k.back) / w)     # in the slice that has the middle of the range
    a, b = E.real("outside", k.back + 1e-6, 12), E.real("inside", max(0, k.back - w * (i + 1) + 1e-6), min(k.back * 0.3, k.back - w * i - 1e-6))
    for i in order:
        k.ll([E.const(31), E.const(83), E.const(45)][i], [a, b, E.const(0.7 * k.back + 0.01)][i])
    k.compare()


def together(E, plane, equal):
    """Loads at the same position add up."""
    k = case(E, plane, 10, 1)
    w = (k.out * max(k.dims[1], 0.001) + k.back) / 10
    i = int((k.back - 0.15 * k.back) / w)
    x = E.real("offset", max(0, k.back - w * (i + 1) + 1e-6), min(k.back * 0.3, k.back - w * i - 1e-6))
    for p in ([31, 31, 31] if equal else [31, 45, 12]):
        k.ll(E.const(p), x)
    k.compare()


def jobs(tier):
    out = []
    deep = tier != "quick"
    ns = [10, 13, 25] + ([11, 17, 37, 50, 73, 100] if deep else [])
    for p in PLANES:
        b = f"slope {PLANES[p][0]} m, one {p} plane, two strata, load from the crest to behind the entry point; "
        for n in ns:
            out.append(dict(name=f"once-float-{p}-{n}", harness=once, params=dict(plane=p, n=n, it=2, magnitude=False), opts=dict(exact_floats=True, witness=4), bounds=b + f"{n} slices at exactly the float borders of the code, any position, 2 Bishop iterations"))
        out.append(dict(name=f"once-{p}", harness=once, params=dict(plane=p, n=10, it=0, magnitude=True), opts=dict(dec=True, witness=4), bounds=b + "10 slices, any position and magnitude 1..400, ordinary method"))
        for it in (0, 1):
            out.append(dict(name=f"several-{p}-{it}", harness=several, params=dict(plane=p, it=it), opts=dict(dec=True, witness=4), bounds=b + f"three loads of any magnitude, {it} Bishop iterations"))
        for o in ("012", "201", "120"):
            out.append(dict(name=f"mixed-{p}-{o}", harness=mixed, params=dict(plane=p, order=[int(c) for c in o]), opts=dict(dec=True, witness=4), bounds=b + f"one load anywhere behind the entry point, one anywhere in the slice next to the crest, one fixed, assigned in the order {o}"))
        for e in (0, 1):
            out.append(dict(name=f"together-{p}-{e}", harness=together, params=dict(plane=p, equal=e), opts=dict(dec=True, witness=4), bounds=b + "three loads at the same position in the slice next to the crest, " + ("equal" if e else "different")))
        out.append(dict(name=f"outside-{p}", harness=outside, params=dict(plane=p), opts=dict(dec=True, witness=4), bounds=b + "any loads behind the entry point, 6 iterations"))
    return out
