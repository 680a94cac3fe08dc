"""W02 Pore pressure follows the water level above each slice base."""
from .fos import Case, ALL

OUTSIDE = ("Bishop iterates within 1e-9 of 0 (the plane is dropped below 0); "
           "slices whose centre is within 1e-7 m of the point where the water table meets the face (the head factor jumps there); "
           "pressures are seen through the reported factors of safety")


def centres(k):
    x0, x1 = k.plane[:2]
    b = (x1 - x0) / k.n
    return [x0 + b * (2 * i + 1) / 2 for i in range(k.n)]


def apart(E, k, depth):
    """The water table does not meet the face at the centre of a slice."""
    k.place()
    t, b = k.ref.top, k.ref.bot
    eps = E.const(1e-7)
    if depth > t[1] - b[1] + eps:
        return
    if not (depth < t[1] - b[1] - eps):
        E.assume(False)
    for x in centres(k):
        if x > t[0] and x < b[0]:
            y = (x - t[0]) * k.ref.grad
            if not (depth > y + eps or depth < y - eps):
                E.assume(False)


def level(E, plane, it, factor):
    """Any water depth."""
    k = Case(E, plane, 10, it)
    k.strata()
    d = E.real("depth", 0, 12)
    apart(E, k, d)
    k.water(d, factor)
    k.compare()


def factor(E, plane, it):
    """Any head factor."""
    k = Case(E, plane, 10, it)
    k.strata()
    d = E.choice("depth", [0, 0.15, 0.4, 0.9, 1.05])
    f = E.real("factor", 0, 1)
    k.water(E.const(d) * k.h, f)
    k.compare()


def both(E, plane):
    """Any water depth and any head factor, ordinary method."""
    k = Case(E, plane, 10, 0)
    k.strata()
    d = E.real("depth", 0, 12)
    apart(E, k, d)
    k.water(d, E.real("factor", 0, 1))
    k.compare()


def slopes(E, plane, it):
    """Automatic head factor for any slope steepness is covered by W01; here a cohesionless and a frictionless soil."""
    k = Case(E, plane, 10, it)
    phi, c = E.choice("soil", [(35, 0), (0, 20)])
    k.material(E.const(1.4) * k.h, E.const(19), E.const(phi), E.const(c))
    d = E.real("depth", 0, 12)
    apart(E, k, d)
    k.water(d)
    k.compare()


def loaded(E, plane, it):
    """Water and loads together."""
    k = Case(E, plane, 10, it)
    k.strata()
    k.udl(E.const(20), E.const(0.3), E.const(1))
    k.ll(E.const(12), E.const(0.55))
    d = E.real("depth", 0, 12)
    apart(E, k, d)
    k.water(d)
    k.compare()


def none(E, plane):
    """No water table: none set, set to None, removed."""
    d = E.real("depth", 0, 12)
    got = []
    for how in range(3):
        k = Case(E, plane, 10, 6)
        k.strata()
        if how:
            k.s.set_water_table(d)
        if how == 1:
            k.s.set_water_table(None)
        if how == 2:
            k.s.remove_water_table()
        got.append(k.reported())
    want = k.expected()
    for g in got:
        E.close(g, want, "no water table, no pore pressure")
    E.observe("fos", got)


def jobs(tier):
    out = []
    dec = dict(dec=True, witness=6)
    deep = tier != "quick"
    for p in ALL:
        b = f"slope {ALL[p][0]} m, one {p} plane, 10 slices, two strata; "
        for it in (0, 1) + ((2,) if deep else ()):
            out.append(dict(name=f"level-{p}-{it}", harness=level, params=dict(plane=p, it=it, factor=None), opts=dec, bounds=b + f"water depth 0..12, automatic factor, {it} Bishop iterations"))
            out.append(dict(name=f"factor-{p}-{it}", harness=factor, params=dict(plane=p, it=it), opts=dec, bounds=b + f"5 water depths, factor 0..1, {it} Bishop iterations"))
        out.append(dict(name=f"both-{p}", harness=both, params=dict(plane=p), opts=dec, bounds=b + "water depth 0..12, factor 0..1, ordinary method", weight=2))
        out.append(dict(name=f"soils-{p}", harness=slopes, params=dict(plane=p, it=1), opts=dec, bounds=b + "water depth 0..12, no cohesion or no friction, one Bishop iteration"))
        out.append(dict(name=f"loaded-{p}", harness=loaded, params=dict(plane=p, it=1), opts=dec, bounds=b + "water depth 0..12 with loads, one Bishop iteration"))
        out.append(dict(name=f"none-{p}", harness=none, params=dict(plane=p), opts=dec, bounds=b + "water removed again, 6 iterations"))
    return out
