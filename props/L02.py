"""L02 Uniform loads weigh on slices by their overlap."""
from .fos import Case, PLANES

OUTSIDE = "loads reaching beyond the section as it is (extending the section is L01); the overlap is seen through the reported factors of safety"


def case(E, plane, n, it):
    k = Case(E, plane, n, it)
    k.s.update_boundary_options(MIN_EXT_L=40)   # no load extends the section
    return k


def room(k):
    """Longest distance a load may reach behind the crest."""
    return min(float(k.s.get_top_coordinates()[0]), 12.0)


def pressure(E, plane, it):
    """Any pressures of two loads."""
    k = case(E, plane, 10, it)
    k.strata()
    q = E.real("q0", 0, 200)
    k.udl(q, E.const(0.25), E.const(0.9))
    k.udl(E.real("q1", 0, 200) if it == 0 else E.const(11), E.const(0.6), E.const(1.7))
    k.compare()


def offset(E, plane, it, continuous):
    """A load at any offset."""
    k = case(E, plane, 10, it)
    k.strata()
    R = min(room(k), 2 * k.back)
    n = E.const(0.7)
    x = E.real("offset", 0, R - 0.7)
    k.udl(E.const(25), x, E.choice("len", [None, 0]) if continuous else n)
    k.compare()


def length(E, plane, it):
    """A load of any length."""
    k = case(E, plane, 10, it)
    k.strata()
    R = min(room(k), 2 * k.back)
    k.udl(E.const(25), E.const(0.4), E.real("length", 1e-4, R - 0.4))
    k.compare()


def both(E, plane):
    """Any offset and length."""
    k = case(E, plane, 10, 0)
    k.strata()
    R = min(room(k), 2 * k.back)
    x = E.real("offset", 0, R / 2)
    k.udl(E.const(25), x, E.real("length", 1e-4, R / 2))
    k.compare()


def two(E, plane):
    """Two loads that may overlap each other."""
    k = case(E, plane, 10, 0)
    k.strata()
    R = min(room(k), 2 * k.back)
    k.udl(E.const(25), E.real("offset0", 0, R / 2), E.const(R / 2))
    k.udl(E.const(14), E.real("offset1", 0, R / 2), E.const(R / 3))
    k.compare()


def beyond(E, plane):
    """Load parts beyond the entry point have no effect: any load that starts there, and any extension of a load that gets there."""
    k0 = case(E, plane, 10, 6)
    k0.strata()
    k0.udl(E.const(25), E.const(0.4), E.const(k0.back) + E.const(0.1))
    base = k0.reported()
    k = case(E, plane, 10, 6)
    k.strata()
    R = room(k)
    k.udl(E.const(25), E.const(0.4), E.real("length", k.back, R - 0.4))
    k.udl(E.real("q", 0, 500), E.real("offset", k.back + 1e-6, R - 0.3), E.const(0.3))
    k.udl(E.real("q1", 0, 500), E.const(k.back) + E.const(1e-6), E.const(0.3))
    E.close(k.reported(), base, "load beyond the entry point has no effect")
    E.observe("fos", base)


def mixed(E, plane, order):
    """Loads inside, outside and over all of the plane, assigned in any order."""
    k = case(E, plane, 10, 0)
    k.strata()
    R = room(k)
    x, y = E.real("outside", k.back + 1e-6, R - 0.3), E.real("inside", 0, k.back * 0.5)
    loads = [(31, x, 0.3), (53, y, 0.45), (12, 0.2, None)]
    for i in order:
        q, o, n = loads[i]
        k.udl(E.const(q), o if i < 2 else E.const(o), n and E.const(n))
    k.compare()


def twins(E, plane, where):
    """Loads alike in something add up."""
    k = case(E, plane, 10, 1)
    k.strata()
    x = E.real("offset", 0, min(0.3, k.back * 0.5))
    for q, o, n in dict(all=[(31, x, 0.3)] * 3, place=[(31, x, 0.3), (53, x, 0.3)], left=[(31, x, 0.3), (31, x + E.const(0.1), 0.2)], right=[(31, x, 0.3), (31, x, 0.7)],
                        pressure=[(31, x, 0.3), (31, x + E.const(0.25), 0.3)])[where]:
        k.udl(E.const(q), o, E.const(n))
    k.compare()


def jobs(tier):
    out = []
    dec = dict(dec=True, witness=6)
    deep = tier != "quick"
    for p in PLANES:
        b = f"slope {PLANES[p][0]} m, one {p} plane, 10 slices, two strata; "
        for it in (0, 1) + ((2,) if deep else ()):
            out.append(dict(name=f"pressure-{p}-{it}", harness=pressure, params=dict(plane=p, it=it), opts=dec, bounds=b + f"pressures 0..200 of two loads, {it} Bishop iterations"))
            out.append(dict(name=f"offset-{p}-{it}", harness=offset, params=dict(plane=p, it=it, continuous=False), opts=dec, bounds=b + f"load 0.7 m long at any offset, {it} Bishop iterations"))
            out.append(dict(name=f"length-{p}-{it}", harness=length, params=dict(plane=p, it=it), opts=dec, bounds=b + f"load of any length, {it} Bishop iterations"))
        out.append(dict(name=f"continuous-{p}", harness=offset, params=dict(plane=p, it=1, continuous=True), opts=dec, bounds=b + "continuous load at any offset, one Bishop iteration"))
        out.append(dict(name=f"both-{p}", harness=both, params=dict(plane=p), opts=dec, bounds=b + "any offset and length, ordinary method", weight=2))
        out.append(dict(name=f"two-{p}", harness=two, params=dict(plane=p), opts=dec, bounds=b + "two loads at any offsets, ordinary method", weight=2))
        for o in ("012", "201", "120"):
            out.append(dict(name=f"mixed-{p}-{o}", harness=mixed, params=dict(plane=p, order=[int(c) for c in o]), opts=dec, bounds=b + f"one load anywhere behind the entry point, one anywhere in front of it, a continuous one, assigned in the order {o}"))
        for w in ("all", "place", "left", "right", "pressure"):
            out.append(dict(name=f"twins-{p}-{w}", harness=twins, params=dict(plane=p, where=w), opts=dec, bounds=b + f"two or three loads with the same {w}, near the crest, one Bishop iteration"))
        out.append(dict(name=f"beyond-{p}", harness=beyond, params=dict(plane=p), opts=dec, bounds=b + "any loads and load parts beyond the entry point, 6 iterations"))
    return out
