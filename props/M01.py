"""M01 Strata are kept in depth order at the right level."""
from .common import rejects, slope, top

OUTSIDE = "more than three strata; depths above 80 m"


def check_strata(E, s, want):
    """want: [(depth, unit weight)] in any order."""
    crest = top(s)[1]
    E.check(len(s._materials) == len(want), "number of strata", f"{len(s._materials)} for {len(want)}")
    if len(s._materials) != len(want):
        return
    want = order(want)
    for m, (d, uw) in zip(s._materials, want):
        E.close(m.depth_to_bottom, d, "strata ordered by depth")
        E.close(m.unit_weight, uw, "stratum keeps its properties")
        E.close(m.RL, crest - d, "bottom of stratum at its depth below the crest")
    if want:
        E.le(want[-1][0], crest, "section reaches to the deepest stratum")
    E.observe("levels", [m.RL for m in s._materials])


def order(l):
    l = list(l)
    for i in range(len(l)):
        for j in range(i, 0, -1):
            if l[j][0] < l[j - 1][0]:
                l[j], l[j - 1] = l[j - 1], l[j]
    return l


def mats(E, n, tag, dmax=80):
    out, objs = [], []
    for i in range(n):
        d = E.real(f"{tag}d{i}", 0, dmax)
        out.append((d, 10 + i))
        objs.append(E.ps.Material(unit_weight=10 + i, friction_angle=30, cohesion=i, depth_to_bottom=d))
    return out, objs


def equal_depths(l):
    return any(bool(a[0] == b[0]) for i, a in enumerate(l) for b in l[:i])


def build(E, n, calls):
    """n strata in the given grouping of calls on an arbitrary section."""
    s = E.ps.Slope(height=3, length=4)
    d, o = mats(E, n, "m", 40)
    have = []
    k = 0
    for c in calls:
        new, objs = d[k:k + c], o[k:k + c]
        k += c
        bad = equal_depths(have + new)
        r = rejects(E, s.set_materials, *objs)
        E.check(r == bad, "rejected exactly when two depths are equal", f"rejected={r}")
        if not bad and not r:
            have = have + new
        check_strata(E, s, have)
        if bad:
            return


def history(E, ops, free=False):
    """One or two strata, then changes of the section or loads."""
    if free:
        s, H, L = slope(E)
    else:
        s = E.ps.Slope(height=3, length=4)
    have = []
    for i, op in enumerate(ops):
        t = f"s{i}_"
        if op == "m":
            d, o = mats(E, 1, t)
            d = [(d[0][0], 10 + i)]
            o[0].unit_weight = 10 + i
            if have and equal_depths(have + d):
                return
            s.set_materials(*o)
            have = have + d
        elif op == "M":
            d, o = mats(E, 2, t)
            if equal_depths(d):
                return
            s.set_materials(*o)
            have = have + d
        elif op == "g":
            s.set_external_boundary(height=E.real(t + "h", 0.5, 30), length=E.real(t + "l", 0, 60))
        elif op == "a":
            s.set_external_boundary(height=E.real(t + "h", 0.5, 30), angle=E.angle(t + "a", 5, 89))
        elif op == "u":
            s.set_udls(E.ps.Udl(magnitude=5, offset=E.real(t + "off", 0, 50), length=3))
        elif op == "p":
            s.set_lls(E.ps.LineLoad(magnitude=5, offset=E.real(t + "off", 0, 50)))
        elif op == "w":
            s.set_water_table(E.real(t + "w", 0, 30))
        elif op == "b":
            s.update_boundary_options(MIN_EXT_H=E.real(t + "mh", 1, 200), MIN_EXT_L=E.real(t + "ml", 1, 300))
        elif op == "r":
            s.remove_material(depth=have[0][0])
            have = have[1:]
        check_strata(E, s, have)


def jobs(tier):
    b = "depths 0..40 m"
    out = [dict(name="build-2", harness=build, params=dict(n=2, calls=(2,)), bounds=b),
           dict(name="build-1-1", harness=build, params=dict(n=2, calls=(1, 1)), bounds=b),
           dict(name="build-3", harness=build, params=dict(n=3, calls=(3,)), bounds=b, weight=3),
           dict(name="build-2-1", harness=build, params=dict(n=3, calls=(2, 1)), bounds=b, weight=3),
           dict(name="build-1-2", harness=build, params=dict(n=3, calls=(1, 2)), bounds=b, weight=3)]
    b = "depths 0..80 m; slope 3 m high, 4 m long, later 0.5..30 / 0..60 (or 5..89 degrees); load offsets 0..50; minimum extents changed"
    seqs = ["mg", "ma", "mu", "mp", "mb", "mgm", "umr", "Mg", "Mrg"]
    if tier == "thorough":
        seqs += ["mgu", "mug", "Mgb", "mgmr", "Mga", "mmg", "Mup", "mgg", "wmg", "mbm", "mgb"]
    for q in seqs:
        out.append(dict(name="history-" + q, harness=history, params=dict(ops=q), bounds=b, opts=dict(witness=6)))
    out.append(dict(name="free-m", harness=history, params=dict(ops="m", free=True), bounds="slope 0.1..30 / 0..60; depth 0..80"))
    if tier == "thorough":
        out.append(dict(name="free-M", harness=history, params=dict(ops="M", free=True), bounds="slope 0.1..30 / 0..60; depths 0..80", opts=dict(witness=6)))
        out.append(dict(name="build-1-1-1", harness=build, params=dict(n=3, calls=(1, 1, 1)), bounds=b, weight=3))
    return out
