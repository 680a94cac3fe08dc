"""B01 Reported factors of safety solve Bishop's equation."""
from .fos import Case, ALL

OUTSIDE = "more than 2 iterations with symbolic soils; rounding"


def soil(E, plane, sym, it, n):
    """Any value of one or more soil parameters or loads."""
    k = Case(E, plane, n, it)
    h = k.h
    c = E.real("c", 0.5, 60) if "c" in sym else E.const(4)
    w = E.real("w", 10, 30) if "w" in sym else E.const(18)
    phi = E.angle("phi", 0, 50) if "phi" in sym else E.const(27)
    k.material(h, w, phi, c)
    if "q" in sym:
        k.udl(E.real("q", 0.5, 80))
    k.compare()


def two(E, plane, it):
    """Two strata with any cohesion."""
    k = Case(E, plane, 10, it)
    h = k.h
    k.material(h * E.const(0.55), E.const(17), E.const(30), E.real("c1", 0.5, 60))
    k.material(h * E.const(2.5), E.const(20), E.const(20), E.real("c2", 0.5, 60) if it < 2 else E.const(7))
    k.udl(E.const(12), E.const(0.3), E.const(0.9))
    k.ll(E.const(5), E.const(0.77))
    k.water(E.const(0.5) * h)
    k.compare()


def stop(E, plane, n, itmax):
    """Any tolerance."""
    k = Case(E, plane, n, itmax, E.real("tolerance", 1e-6, 0.5))
    k.strata()
    k.udl(E.const(12), E.const(0.3), E.const(0.9))
    if E.bool("water"):
        k.water(E.const(1))
    # tolerances equal to a difference of two iterates are a matter of rounding
    k.place()
    eps, last = E.const(1e-9), None
    for i in range(itmax + 1):
        f = k.ref.fos(k.plane, n, i)
        if last is not None and not (k.tol > abs(f - last) + eps or k.tol < abs(f - last) - eps):
            E.assume(False)
        last = f
    k.compare("the first iterate within the tolerance, or the last one")


def count(E, plane):
    """Any maximum number of iterations."""
    it = E.int("max_iterations", 0, 6)
    k = Case(E, plane, 10, it)
    k.strata()
    got = k.reported()
    k.it = int(it)
    E.close(got, k.expected(), "the last iterate")
    E.observe("fos", got)


def slices(E, plane):
    """Slices in force are those set, equally wide."""
    n = E.choice("slices", [10, 11, 17, 25, 40])
    k = Case(E, plane, n, 3)
    k.strata()
    k.water(E.const(1.1))
    k.ll(E.const(9), E.const(0.45))
    k.compare()


def default(E):
    """Options of a new slope."""
    k = Case(E, "toe")
    k.strata()
    k.opts = {}
    k.n, k.it, k.tol = k.s._slices, k.s._max_iterations, E.const(k.s._tolerance)
    k.compare()


def jobs(tier):
    out = []
    dec = dict(dec=True, witness=4)
    deep = tier != "quick"
    for p in ALL:
        d = ALL[p][0]
        b = f"slope {d} m, one {p} plane, "
        for sym, it, n in [(["c", "w", "phi", "q"], 0, 10), (["c"], 1, 10), (["w"], 1, 10), (["phi"], 0, 30)] + ([(["c"], 2, 10), (["w"], 2, 10), (["q"], 1, 10), (["phi"], 1, 10), (["c"], 1, 16)] if deep else []):
            out.append(dict(name=f"soil-{p}-{'+'.join(sym)}-{it}-{n}", harness=soil, params=dict(plane=p, sym=sym, it=it, n=n), opts=dec, weight=1 + it,
                            bounds=b + f"any {', '.join(sym)}; {it} Bishop iterations, {n} slices"))
        for it in (0, 1) + ((2,) if deep else ()):
            out.append(dict(name=f"two-{p}-{it}", harness=two, params=dict(plane=p, it=it), opts=dec, bounds=b + f"two strata with any cohesion, loads, water, {it} Bishop iterations", weight=1 + it))
        out.append(dict(name=f"stop-{p}", harness=stop, params=dict(plane=p, n=10 if not deep else 40, itmax=8 if not deep else 15), opts=dec, bounds=b + "any tolerance 1e-6..0.5, 8 iterations at most"))
        out.append(dict(name=f"count-{p}", harness=count, params=dict(plane=p), opts=dec, bounds=b + "any maximum of 0..6 iterations"))
        out.append(dict(name=f"slices-{p}", harness=slices, params=dict(plane=p), opts=dec, bounds=b + "10, 11, 17, 25 and 40 slices"))
    out.append(dict(name="default", harness=default, bounds="options of a new slope", opts=dec))
    return out
