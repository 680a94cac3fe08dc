"""M02 Soil weight is the sum of the strata cut by each slice."""
from .fos import Case, ALL

OUTSIDE = "more than 4 strata; weights are seen through the reported factors of safety (ordinary method and first Bishop iterate)"


def deepest(k):
    """Depth of the section with a little room."""
    return (k.s.get_top_coordinates()[1]) * k.E.const(0.98)


def weights(E, plane, it, n):
    """Any unit weights of three strata."""
    k = Case(E, plane, n, it)
    phi, c = E.const(24), E.const(3.5)
    w = [E.real(f"w{i}", 1, 50) if it == 0 or i == 1 else E.const(15 + 3 * i) for i in range(3)]
    order = E.choice("order", [(0, 1, 2), (2, 0, 1)])
    d = [E.const(0.35) * k.h, E.const(0.9) * k.h, E.const(1.4) * k.h]
    for i in order:
        k.material(d[i], w[i], phi, c)
    k.compare()


def level(E, plane, count, which, it=0):
    """A stratum boundary at any depth."""
    k = Case(E, plane, 10, it)
    phi, c = E.const(24), E.const(3.5)
    D = deepest(k)
    x = E.real("depth", 0.02, float(D))
    fixed = {1: [], 2: [E.const(0.8) * k.h], 3: [E.const(0.3) * k.h, E.const(1.1) * k.h]}[count]
    ds = [x] + fixed
    for d in fixed:
        if not (x > d + E.const(1e-6) or x < d - E.const(1e-6)):
            E.assume(False)
    for i, d in enumerate(ds):
        k.material(d, E.const([19, 16, 22][i]), phi, c)
    k.compare()


def two_levels(E, plane):
    """Two strata boundaries at any depth."""
    k = Case(E, plane, 10, 0)
    D = float(deepest(k))
    x, y = E.real("d1", 0.02, D), E.real("d2", 0.02, D)
    if not (x > y + E.const(1e-6) or x < y - E.const(1e-6)):
        E.assume(False)
    for d, w in ((x, 14), (y, 21), (E.const(0.985) * k.s.get_top_coordinates()[1], 18)):
        k.material(d, E.const(w), E.const(24), E.const(3.5))
    k.compare()


def split(E, plane, it, base):
    """Splitting a stratum into two like it at any depth changes nothing."""
    two = []
    x = E.real("depth", 0.02, float(E.const(base) * E.const(ALL[plane][0][0]) - E.const(0.01)))
    for parts in (1, 2):
        k = Case(E, plane, 10, it)
        w, phi, c = E.const(18), E.const(26), E.const(4)
        k.material(E.const(base) * k.h, w, phi, c)
        k.material(E.const(1.45) * k.h, E.const(21), E.const(22), E.const(9))
        if parts == 2:
            k.material(x, w, phi, c)
        k.udl(E.const(10), E.const(0.2), E.const(1))
        two.append(k.reported())
    E.close(two[0], two[1], "split stratum")
    E.observe("fos", two)


def below(E, plane):
    """The deepest stratum continues downwards: its depth has no effect on the weight."""
    k = Case(E, plane, 10, 1)
    x = E.real("depth", 0.31 * ALL[plane][0][0], float(deepest(k)))
    k.material(E.const(0.3) * k.h, E.const(16), E.const(25), E.const(4))
    k.material(x, E.const(20), E.const(25), E.const(4))
    k.compare()


def jobs(tier):
    out = []
    dec = dict(dec=True, witness=6)
    deep = tier != "quick"
    for p in ALL:
        b = f"slope {ALL[p][0]} m, one {p} plane, 10 slices; "
        out.append(dict(name=f"weights-{p}-0", harness=weights, params=dict(plane=p, it=0, n=10 if not deep else 40), opts=dec, bounds=b + "any unit weights of three strata, ordinary method"))
        out.append(dict(name=f"weights-{p}-1", harness=weights, params=dict(plane=p, it=1, n=10), opts=dec, bounds=b + "any unit weight of one of three strata, first Bishop iterate"))
        for count in (2, 3) if not deep else (1, 2, 3):
            out.append(dict(name=f"level-{p}-{count}", harness=level, params=dict(plane=p, count=count, which=0), opts=dec, bounds=b + f"{count} strata, one boundary at any depth", weight=2))
        if deep:
            out.append(dict(name=f"level-{p}-2-1", harness=level, params=dict(plane=p, count=2, which=0, it=1), opts=dec, bounds=b + "2 strata, one boundary at any depth, first Bishop iterate", weight=2))
        out.append(dict(name=f"below-{p}", harness=below, params=dict(plane=p), opts=dec, bounds=b + "depth of the deepest stratum anywhere"))
        out.append(dict(name=f"split-{p}", harness=split, params=dict(plane=p, it=5, base=0.8), opts=dec, bounds=b + "a stratum split at any depth, 5 Bishop iterations", weight=3))
    for p in ALL if deep else ():
        out.append(dict(name=f"two-{p}", harness=two_levels, params=dict(plane=p), opts=dec, bounds=f"slope {ALL[p][0]} m, one {p} plane, 10 slices; three strata, two boundaries at any depth", weight=5))
    return out
