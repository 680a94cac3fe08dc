"""M03 Shear strength comes from the stratum at the slice base."""
from .fos import Case, ALL

OUTSIDE = "slice bases (and ground levels above their middles) within 1e-7 m of a stratum boundary; more than 3 strata"


def deepest(k):
    return k.s.get_top_coordinates()[1] * k.E.const(0.98)


def apart(E, k, x):
    """The boundary x is not at the level of the middle of a slice base, nor of the ground above it."""
    k.place()
    eps = E.const(1e-7)
    top = k.ref.top[1]
    for d in [top - y for y in bases(k) + tops(k)]:
        if not (x > d + eps or x < d - eps):
            E.assume(False)


def bases(k):
    x0, x1, cx, cy, r = k.plane
    b = (x1 - x0) / k.n
    out = []
    for i in range(k.n):
        xm = x0 + b * (2 * i + 1) / 2
        out.append(cy - k.E.sqrt(r * r - (xm - cx) * (xm - cx)))
    return out


def tops(k):
    x0, x1 = k.plane[:2]
    b = (x1 - x0) / k.n
    return [k.ref.ground(x0 + b * (2 * i + 1) / 2) for i in range(k.n)]


def cohesion(E, plane, it):
    """Any cohesion of three strata (ordinary method), any friction angle of one."""
    k = Case(E, plane, 10, it)
    c = [E.real(f"c{i}", 0.5, 60) if it == 0 else E.const(3 + 4 * i) for i in range(3)]
    if it == 1:
        c[1] = E.real("c1", 0.5, 60)
    d = [E.const(0.35) * k.h, E.const(0.8) * k.h, E.const(1.4) * k.h]
    for i in E.choice("order", [(0, 1, 2), (2, 0, 1)]):
        k.material(d[i], E.const(19), E.const([31, 18, 24][i]), c[i])
    k.compare()


def friction(E, plane):
    """Any friction angles of two strata."""
    k = Case(E, plane, 10, 0)
    k.material(E.const(0.6) * k.h, E.const(19), E.angle("phi1", 0, 50), E.const(3))
    k.material(E.const(1.3) * k.h, E.const(19), E.angle("phi2", 0, 50), E.const(5))
    k.compare()


def level(E, plane, count, it):
    """A stratum boundary at any depth."""
    k = Case(E, plane, 10, it)
    x = E.real("depth", 0.02, float(deepest(k)))
    fixed = {1: [], 2: [E.const(0.8) * k.h], 3: [E.const(0.3) * k.h, E.const(1.1) * k.h]}[count]
    for d in fixed:
        if not (x > d + E.const(1e-6) or x < d - E.const(1e-6)):
            E.assume(False)
    apart(E, k, x)
    for i, d in enumerate([x] + fixed):
        k.material(d, E.const(19), E.const([33, 18, 24][i]), E.const([2, 9, 5][i]))
    k.compare()


def untouched(E, plane):
    """Strength of a stratum that no slice base touches."""
    k = Case(E, plane, 10, 6, 0)
    k.place()
    bs = bases(k)
    top = k.ref.top[1]
    low = bs[0]
    for b in bs:
        if b < low:
            low = b
    first = bs[0]
    # a thin stratum above all bases, one at the bases, and one far below
    two = []
    for v in (0, 1):
        k = Case(E, plane, 10, 6, 0)
        hi = bs[0]
        for b in bs:
            if b > hi:
                hi = b
        a = (top - hi) * E.const(0.7)
        z = top - low + E.const(0.1)
        k.material(a, E.const(19), E.angle("phi_top", 0, 60) if v else E.const(20), E.real("c_top", 0, 90) if v else E.const(1))
        k.material(z, E.const(19), E.const(25), E.const(4))
        k.material(z + E.const(0.2), E.const(19), E.angle("phi_low", 0, 60) if v else E.const(20), E.real("c_low", 0, 90) if v else E.const(1))
        two.append(k.reported())
    E.close(two[0], two[1], "strength of strata away from the slip surface has no effect")
    E.observe("fos", two)


def jobs(tier):
    out = []
    dec = dict(dec=True, witness=6)
    deep = tier != "quick"
    for p in ALL:
        b = f"slope {ALL[p][0]} m, one {p} plane, 10 slices; "
        out.append(dict(name=f"cohesion-{p}-0", harness=cohesion, params=dict(plane=p, it=0), opts=dec, bounds=b + "any cohesion of three strata, ordinary method"))
        out.append(dict(name=f"cohesion-{p}-1", harness=cohesion, params=dict(plane=p, it=1), opts=dec, bounds=b + "any cohesion of the middle one of three strata, first Bishop iterate"))
        out.append(dict(name=f"friction-{p}", harness=friction, params=dict(plane=p), opts=dec, bounds=b + "any friction angles of two strata, ordinary method"))
        for count in (2, 3):
            out.append(dict(name=f"level-{p}-{count}", harness=level, params=dict(plane=p, count=count, it=4 if not deep else 15), opts=dec, bounds=b + f"{count} strata, one boundary at any depth, 4 Bishop iterations", weight=2))
        out.append(dict(name=f"untouched-{p}", harness=untouched, params=dict(plane=p), opts=dec, bounds=b + "any strength of strata away from the slip surface, 6 Bishop iterations"))
    return out
