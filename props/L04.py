"""L04 Removing loads removes exactly the matching loads."""
from .common import same_fig, udls, lls

OUTSIDE = "more than three loads; the section keeps its length when a load that had extended it is removed"


def same(E, a, b):
    """Same offset, magnitude and length."""
    for x, y in zip(a, b):
        if x is None or y is None:
            if x is not y:
                return False
        elif not E.same(x, y):
            return False
    return True


def new(E, kind, tag, cont=None):
    q, off = E.real(tag + "q", 0.5, 100), E.real(tag + "off", 0, 20)
    if kind == "ll":
        return E.ps.LineLoad(magnitude=q, offset=off), (q, off)
    ln = None if (E.bool(tag + "cont") if cont is None else cont) else E.real(tag + "len", 0.5, 20)
    return E.ps.Udl(magnitude=q, offset=off, length=ln), (q, off, ln)


def sloped(E):
    s = E.ps.Slope(height=3, length=4)
    s.set_materials(E.ps.Material(depth_to_bottom=5))
    s.update_boundary_options(MIN_EXT_L=120)
    return s


def setter(s, kind):
    return (s.set_udls, s.remove_udls) if kind == "udl" else (s.set_lls, s.remove_lls)


def assigned(s, kind):
    return s._udls if kind == "udl" else s._lls


def data(E, s, kind):
    if kind == "udl":
        return [(u.magnitude, u.offset, u.length) for u in s._udls]
    return [(p.magnitude, p.offset) for p in s._lls]


def matching(E, kind, n, how):
    """n arbitrary loads; removal by the assigned object, an equal new object, or several at once."""
    s = sloped(E)
    put, take = setter(s, kind)
    objs, ds = [], []
    for i in range(n):
        o, d = new(E, kind, f"l{i}_", cont=None if kind == "udl" and i < 2 else False)
        objs.append(o)
        ds.append(d)
    put(*objs)
    if how == "object":
        gone = [ds[0]]
        take(objs[0])
    elif how == "other":
        o, d = new(E, kind, "r_")
        gone = [d]
        take(o)
    elif how == "two":
        gone = [ds[0], ds[1]]
        take(objs[1], objs[0])
    else:
        gone = ds
        take(remove_all=True)
    want = [d for d in ds if not any(same(E, d, g) for g in gone)]
    got = data(E, s, kind)
    E.check(len(got) == len(want), "exactly the matching loads removed", f"{len(got)} left, expected {len(want)}")
    if len(got) == len(want):
        for a, b in zip(got, want):
            E.close(list(a), list(b), "remaining loads unchanged")
    E.observe("left", [list(g) for g in got])


def behaves(E, kind):
    """After a removal the model is the one with only the remaining loads, also in plots."""
    s = sloped(E)
    put, take = setter(s, kind)
    o, d = new(E, kind, "a_", cont=False)
    p, e = new(E, kind, "b_", cont=False)
    E.assume(d[1] != e[1])
    put(o, p)
    other = E.ps.LineLoad(magnitude=7, offset=1.25) if kind == "udl" else E.ps.Udl(magnitude=7, offset=1.25, length=2)
    (s.set_lls if kind == "udl" else s.set_udls)(other)
    how = E.choice("how", ["first", "second", "all", "stranger"])
    if how == "first":
        take(o)
    elif how == "second":
        take(p)
    elif how == "all":
        take(remove_all=True)
    else:
        take(new(E, kind, "c_", cont=True)[0] if kind == "udl" else E.ps.LineLoad(magnitude=300, offset=1))
    t = sloped(E)
    left = {"first": [e], "second": [d], "all": [], "stranger": [d, e]}[how]
    tput = setter(t, kind)[0]
    for x in left:
        tput(E.ps.LineLoad(magnitude=x[0], offset=x[1]) if kind == "ll" else
             E.ps.Udl(magnitude=x[0], offset=x[1], length=x[2]))
    (t.set_lls if kind == "udl" else t.set_udls)(
        E.ps.LineLoad(magnitude=7, offset=1.25) if kind == "udl" else E.ps.Udl(magnitude=7, offset=1.25, length=2))
    E.close(udls(s), udls(t), "uniform loads")
    E.close(lls(s), lls(t), "line loads")
    same_fig(E, s.plot_boundary(material_table=False), t.plot_boundary(material_table=False), "plot")
    s.set_udls(E.ps.Udl(magnitude=3, offset=2, length=1))
    t.set_udls(E.ps.Udl(magnitude=3, offset=2, length=1))
    same_fig(E, s.plot_boundary(material_table=False), t.plot_boundary(material_table=False), "plot after another load")


def jobs(tier):
    b = "magnitudes 0.5..100, offsets 0..20, lengths 0.5..20 or continuous"
    out = []
    for kind in ("udl", "ll"):
        for how in ("object", "other", "two", "all"):
            for n in ((2, 3) if tier == "thorough" else (3,) if kind == "ll" or how == "all" else (2,)):
                out.append(dict(name=f"{kind}-{how}-{n}", harness=matching, params=dict(kind=kind, n=n, how=how), bounds=b + f"; {n} loads",
                                opts=dict(witness=3), weight=n))
        out.append(dict(name=f"{kind}-behaves", harness=behaves, params=dict(kind=kind), bounds=b + "; two loads and one of the other kind", weight=5, opts=dict(witness=8)))
    return out
