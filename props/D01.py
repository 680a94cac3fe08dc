"""D01 Dynamic analysis brackets the critical offset."""

OUTSIDE = "dependences of the factor of safety on the offset with more than the stated number of arbitrary values (the trials after those are 0.005 above the critical factor); factors of safety outside 0.05..20, or closer than 1e-5 to the critical one without being equal; models without any failure plane"


class Stop(Exception):
    pass


class Trials:
    """Stands in for the analysis: any factor of safety at every trial, one per offset."""

    def __init__(self, E, s, n, crit, pattern):
        self.E, self.s, self.n, self.crit, self.pattern = E, s, n, crit, pattern
        self.offsets, self.fos, self.loads = [], [], []
        s.analyse_slope = self.analyse

    def analyse(self, *a, **k):
        E, s = self.E, self.s
        self.loads.append(([(u.magnitude, u.offset, u.length, u.dynamic_offset, u.left, u.right) for u in s._udls],
                           [(p.magnitude, p.offset, p.dynamic_offset, p.coord) for p in s._lls], s.get_top_coordinates()[0]))
        now = [x[1] for x in self.loads[-1][0] if x[3]] + [x[1] for x in self.loads[-1][1] if x[2]]
        if not now:
            now = [E.const(0)]
        for o in now[1:]:
            E.check(o == now[0], "dynamic loads are moved together")
        k = len(self.offsets)
        if k > 20:
            E.fail("the analysis ends")
            raise Stop
        f = next((g for o, g in zip(self.offsets, self.fos) if o == now[0]), None)
        if f is None and self.pattern and k < len(self.pattern) and self.pattern[k] != "any":
            f = E.const(E.choice(f"kind{k}", self.pattern[k]))
        elif f is None and k >= (len(self.pattern) if self.pattern else self.n):
            f = E.const(self.crit) + E.const(0.005)
        if f is None:
            c = E.const(self.crit)
            f = c if E.choice(f"kind{k}", ["any", "critical"]) == "critical" else E.real(f"f{k}", 0.05, 20)
            if f is not c and not (f < c - E.const(1e-5) or f > c + E.const(1e-5)):
                E.assume(False)
        self.offsets.append(now[0])
        self.fos.append(f)
        s._search = [dict(FOS=f, c_x=E.const(1), c_y=E.const(2), radius=E.const(3), l_c=(E.const(0), E.const(0)), r_c=(E.const(1), E.const(0)))]


LOADS = {
    # (uniform loads (pressure, offset, length, dynamic), line loads (force, offset, dynamic))
    "one": ([(20, 1, 2, True)], []),
    "continuous": ([(20, 1, None, True)], []),
    "static": ([(20, 1, 2, True), (9, 0.5, 1.5, False)], [(7, 1.2, False)]),
    "twins": ([(20, 1, 2, True), (20, 0, 2, False), (20, 1, 2, False), (20, 1, 2, True)], []),
    "line": ([(9, 0.5, 1.5, False)], [(7, 1.2, True), (7, 1.2, False)]),
    "lines": ([], [(7, 1.2, True), (5, 0.2, True)]),
    "twin lines": ([], [(7, 1.2, True), (7, 0, False), (7, 0.4, True), (7, 1.2, True)]),
    "mixed": ([(20, 0, 3, True), (11, 2, None, False)], [(7, 1.2, True)]),
    "long": ([(20, 1, 9.5, True), (4, 3, 1, True)], []),
}


def dynamic(E, loads, crit, n, dims=(3, 4), pressures=False, pattern=None):
    s = E.ps.Slope(height=dims[0], length=dims[1])
    s.set_materials(E.ps.Material(depth_to_bottom=5))
    us, ls = LOADS[loads]
    us = [(E.const(q), E.const(o), None if l is None else E.const(l), d) for q, o, l, d in us]
    ls = [(E.const(p), E.const(o), d) for p, o, d in ls]
    if pressures:
        us = [(E.real(f"q{i}", 0.1, 100), o, l, d) for i, (q, o, l, d) in enumerate(us)]
    s.set_udls(*[E.ps.Udl(magnitude=q, offset=o, length=l, dynamic_offset=d) for q, o, l, d in us])
    s.set_lls(*[E.ps.LineLoad(magnitude=p, offset=o, dynamic_offset=d) for p, o, d in ls])
    t = Trials(E, s, n, crit, pattern)
    c = E.const(crit)
    try:
        s.analyse_dynamic(critical_fos=c)
    except Stop:
        return
    examine(E, s, t, us, ls, c)


def examine(E, s, t, us, ls, c):
    xs, fs = t.offsets, t.fos
    moved = any(u[3] for u in us) or any(p[2] for p in ls)
    E.check(len(xs) >= 1, "the loads are tried at the crest")
    if not xs:
        return
    E.close(xs[0], 0, "the loads are tried at the crest first")
    for k, (a, b, top) in enumerate(t.loads):
        E.check(len(a) == len(us) and len(b) == len(ls), "number of loads stays")
        if len(a) != len(us) or len(b) != len(ls):
            return
        for was, now in zip(us, a):
            E.check(was[3] == now[3], "load keeps its kind")
            E.close(now[0], was[0], "pressure stays")
            E.close(now[2], was[2], "length stays")
            if not was[3]:
                E.close(now[1], was[1], "static load stays")
            E.close(now[5], top - now[1], "uniform load is where it is tried")
            E.close(now[4], top - now[1] - now[2] if was[2] is not None else 0, "uniform load is where it is tried")
        for was, now in zip(ls, b):
            E.check(was[2] == now[2], "load keeps its kind")
            E.close(now[0], was[0], "force stays")
            if not was[2]:
                E.close(now[1], was[1], "static load stays")
            E.close(now[3], top - now[1], "line load is where it is tried")
    # bracket
    n = len(xs)
    if fs[0] > c:
        E.check(n == 1, "safe at the crest: nothing else is tried")
    elif n > 1:
        far = xs[1]
        E.check(far >= 0, "far position behind the crest")
        if fs[1] < c:
            E.check(n == 2, "unsafe at the far position: nothing else is tried")
        else:
            lo, hi = xs[0], far
            for x, f in zip(xs[2:], fs[2:]):
                E.check(x >= lo - E.const(1e-9), "not closer to the crest than the last unsafe offset")
                E.check(x <= hi + E.const(1e-9), "not further than the last safe offset")
                if f < c:
                    lo = x
                else:
                    hi = x
    else:
        E.check(False, "the far position is tried")
    # report
    got = list(s.get_dynamic_results().items())
    distinct = []
    for x, f in zip(xs, fs):
        if not any(x == y for y, g in distinct):
            distinct.append((x, f))
    for x, f in distinct:
        E.check(any(x == y for y, g in got), "every tried offset is reported")
    for y, g in got:
        m = [f for x, f in distinct if x == y]
        E.check(bool(m), "only tried offsets are reported")
        if m:
            E.close(g, m[0], "factor of safety found for the offset")
    E.observe("n", n)


def jobs(tier):
    out = []
    deep = tier != "quick"
    for l in LOADS:
        for crit in (1.3,) + ((1.0, 2.5) if deep else ()):
            n = 4 if deep and l in ("one", "static", "continuous") else 3
            out.append(dict(name=f"dynamic-{l}-{crit}", harness=dynamic, params=dict(loads=l, crit=crit, n=n), opts=dict(witness=4),
                            bounds=f"slope 3 m by 4 m, loads '{l}', critical factor {crit}, {n} trials of any factor of safety 0.05..20", weight=n))
    for l in ("static", "twins"):
        out.append(dict(name=f"pressures-{l}", harness=dynamic, params=dict(loads=l, crit=1.3, n=2, pressures=True), opts=dict(witness=4),
                        bounds=f"slope 3 m by 4 m, loads '{l}' of any pressures 0.1..100, critical factor 1.3, 2 trials of any factor of safety 0.05..20"))
    any_ = "any"
    steps = [[1.1, 1.7], [1.28, 1.6]]
    for i, pat in enumerate([
            [[0.7], any_, *steps] + [any_] * deep,
            [any_, [2.2], *steps] + [any_] * deep,
            [[0.7], [2.2], [1.1, 1.7], any_, any_],
            [[0.7], [2.2], *steps, [1.25, 1.5], any_] + [[1.2, 1.4], any_] * deep,
            [[0.7], [2.2], [1.6, 2.0, 2.195], [1.5, 1.6, 1.595], [1.1, 1.45], [1.2, 1.4], any_]]):
        out.append(dict(name=f"later-{i}", harness=dynamic, params=dict(loads="static", crit=1.3, n=0, pattern=pat), opts=dict(witness=8),
                        bounds=f"loads 'static', critical factor 1.3, factors of safety of the trials {pat}, any being 0.05..20, 0.005 above critical afterwards"))
    for dims in ((2, 9), (6, 0.5)):
        out.append(dict(name=f"dynamic-{dims[0]}x{dims[1]}", harness=dynamic, params=dict(loads="mixed", crit=1.5, n=3, dims=dims), opts=dict(witness=4),
                        bounds=f"slope {dims[0]} m by {dims[1]} m, loads 'mixed', critical factor 1.5, 3 trials of any factor of safety 0.05..20"))
    return out
