"""M04 Removing a material removes exactly that stratum."""
from .common import materials, rejects, top
from .refmodel import setup_plane
from .M01 import order, equal_depths

OUTSIDE = "more than three strata; depths above 40 m"


def build(E, n, zero):
    s = E.ps.Slope(height=3, length=4)
    ds = [E.real(f"d{i}", 0, 40) for i in range(n)]
    if zero:
        ds[0] = E.choice("zero", [0, 0.0])
    l = [(d, 10 + i) for i, d in enumerate(ds)]
    E.assume(not equal_depths(l))
    objs = [E.ps.Material(unit_weight=uw, friction_angle=20 + i, cohesion=i + 1, depth_to_bottom=d) for i, (d, uw) in enumerate(l)]
    s.set_materials(*objs)
    return s, l, objs


def run(E, n, how, zero=False):
    s, l, objs = build(E, n, zero)
    before = materials(s)
    E.check(len(before) == n, "strata assigned")
    if how == "object":
        s.remove_material(objs[0])
        gone = l[0][0]
    elif how == "equal object":
        gone = E.real("r", 0, 40)
        s.remove_material(E.ps.Material(unit_weight=33, depth_to_bottom=gone))
    elif how == "depth":
        gone = l[0][0]
        s.remove_material(depth=gone)
    elif how == "any depth":
        gone = E.real("r", 0, 40)
        s.remove_material(depth=gone)
    elif how == "nothing":
        gone = None
        s.remove_material()
    else:
        s.remove_material(remove_all=True)
        E.check(len(s._materials) == 0, "remove_all empties the model")
        return
    want = [b for b in before if gone is None or not E.same(b[0], gone)]
    got = materials(s)
    E.check(len(got) == len(want), "exactly the stratum of that depth removed", f"{len(got)} left, expected {len(want)}")
    if len(got) == len(want):
        E.close(got, want, "other strata unchanged in order, level and properties")
    E.observe("left", [g[0] for g in got])


def again(E, zero):
    """A removed stratum can be added again, with the same result."""
    s, l, objs = build(E, 2, zero)
    before = materials(s)
    k = E.choice("which", [0, 1])
    s.remove_material(depth=l[k][0])
    if rejects(E, s.set_materials, E.ps.Material(unit_weight=10 + k, friction_angle=20 + k, cohesion=k + 1, depth_to_bottom=l[k][0])):
        E.fail("removed stratum can be added again")
        return
    E.close(materials(s), before, "strata as before")


def same_fos(E, plane, it):
    """Adding a stratum and removing it again leaves the factor of safety as it was."""
    s, ref, pl = setup_plane(E, plane)
    s.update_analysis_options(slices=10, max_iterations=it, tolerance=0)
    c = E.real("c", 1, 50)
    s.set_materials(E.ps.Material(unit_weight=19, friction_angle=30, cohesion=c, depth_to_bottom=2),
                    E.ps.Material(unit_weight=17, friction_angle=25, cohesion=4, depth_to_bottom=9))
    s.analyse_slope()
    a = s.get_min_FOS()
    d = E.choice("d", [0, 1, 3.5, 5, 9.5, 10.0])
    m = E.ps.Material(unit_weight=25, friction_angle=40, cohesion=E.real("c2", 0, 90), depth_to_bottom=d)
    s.set_materials(m)
    if E.bool("by object"):
        s.remove_material(m)
    else:
        s.remove_material(depth=d)
    s.analyse_slope()
    E.close(s.get_min_FOS(), a, "factor of safety as before")
    E.observe("fos", s.get_min_FOS())


def empty(E):
    """Adding nothing and removing from an empty model change nothing."""
    s = E.ps.Slope(height=3, length=4)
    if E.bool("filled before"):
        s.set_materials(E.ps.Material(depth_to_bottom=E.real("before", 0, 40)))
        s.remove_material(remove_all=True)
    d = E.real("depth", 0, 40)
    op = E.choice("op", ["add nothing", "by depth", "by object", "all", "nothing"])
    size = s._external_height
    if op == "add nothing":
        s.set_materials()
    elif op == "by depth":
        s.remove_material(depth=d)
    elif op == "by object":
        s.remove_material(E.ps.Material(depth_to_bottom=d))
    elif op == "all":
        s.remove_material(remove_all=True)
    else:
        s.remove_material()
    E.check(len(s._materials) == 0, "no strata", f"{len(s._materials)}")
    E.close(s._external_height, size, "depth of the section as before")
    s.set_materials(E.ps.Material(depth_to_bottom=d))
    got = materials(s)
    E.check(len(got) == 1, "a stratum can be added", f"{len(got)}")
    if got:
        E.close(got[0][0], d, "depth of the stratum")
    s.set_materials()
    E.close(materials(s), got, "adding nothing changes nothing")
    E.observe("left", [g[0] for g in materials(s)])


def jobs(tier):
    b = "depths 0..40 m, all different"
    out = []
    for how in ("object", "equal object", "depth", "any depth", "nothing", "all"):
        for n in ((1, 2, 3) if tier == "thorough" else (2, 3) if how in ("depth", "any depth") else (2,)):
            out.append(dict(name=f"{how}-{n}", harness=run, params=dict(n=n, how=how), bounds=b + f"; {n} strata", opts=dict(witness=3)))
    for how in ("object", "equal object", "depth"):
        out.append(dict(name=f"zero-{how}", harness=run, params=dict(n=2, how=how, zero=True), bounds="one of the depths 0; other 0..40"))
    out += [dict(name="again", harness=again, params=dict(zero=False), bounds=b), dict(name="again-zero", harness=again, params=dict(zero=True), bounds=b)]
    out.append(dict(name="empty", harness=empty, bounds="empty models, depths 0..40 m"))
    for p in ("toe", "face"):
        for it in ((0, 1) if tier == "quick" else (0, 1, 2)):
            out.append(dict(name=f"fos-{p}-{it}", harness=same_fos, params=dict(plane=p, it=it), opts=dict(dec=True),
                            bounds="one plane, 10 slices, cohesions symbolic, extra stratum at depth 0, 1, 3.5, 5, 9.5 or 10"))
    return out
