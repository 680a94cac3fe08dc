"""W01 The water table stays at its depth below the crest."""
from .common import rejects, slope, top

OUTSIDE = "slopes above 30 m height and 60 m length; histories longer than the listed ones"


def pos(v):
    return v if v > 0 else v * 0


def factor(H, L):
    """Squared cosine of the slope angle."""
    return L * L / (L * L + H * H)


class Track:
    """What should be in force."""

    def __init__(self, H, L):
        self.H, self.L, self.depth, self.manual = H, L, None, None

    def check(self, E, s):
        if self.depth is None:
            E.check(s._water_RL is None, "no water table")
        else:
            E.check(s._water_RL is not None, "water table kept")
            if s._water_RL is not None:
                E.close(s._water_RL, pos(top(s)[1] - self.depth), "water table at its depth below the crest")
        E.close(s._water_analysis_H, factor(self.H, self.L) if self.manual is None else self.manual, "head factor")
        E.observe("water", [s._water_RL, s._water_analysis_H])


def clamp01(v):
    if v > 1:
        return v * 0 + 1
    return v if v > 0 else v * 0


def step(E, s, t, op, i):
    k = f"s{i}_"
    if op == "W":
        t.depth = E.real(k + "w", 0, 100)
        s.set_water_table(t.depth)
    elif op == "n":
        d = E.real(k + "neg", -100, -1e-6)
        E.check(rejects(E, s.set_water_table, d), "negative depth rejected")
    elif op == "N":
        s.set_water_table(None)
        t.depth = None
    elif op == "R":
        s.remove_water_table()
        t.depth = None
    elif op == "A":
        s.update_water_analysis_options(auto=True)
        t.manual = None
    elif op == "H":
        f = E.real(k + "f", -3, 3)
        s.update_water_analysis_options(auto=False, H=f)
        t.manual = clamp01(f)
    elif op == "g":
        h, l = E.real(k + "h", 0.5, 30), E.real(k + "l", 0, 60)
        s.set_external_boundary(height=h, length=l)
        t.H, t.L = h, l if l > 0.001 else l * 0 + E.const(0.001)
    elif op == "a":
        h, a = E.real(k + "h", 0.5, 30), E.angle(k + "a", 5, 89)
        s.set_external_boundary(height=h, angle=a)
        t.H, t.L = h, h / E.tan(a)
    elif op == "m":
        s.set_materials(E.ps.Material(depth_to_bottom=E.real(k + "d", 0.1, 100)))
    elif op == "u":
        s.set_udls(E.ps.Udl(magnitude=5, offset=E.real(k + "off", 0, 50), length=3))
    elif op == "p":
        s.set_lls(E.ps.LineLoad(magnitude=5, offset=E.real(k + "off", 0, 50)))
    elif op == "b":
        s.update_boundary_options(MIN_EXT_H=E.real(k + "mh", 1, 200), MIN_EXT_L=E.real(k + "ml", 1, 300))
    t.check(E, s)


def history(E, ops, free=False):
    if free:
        s, H, L = slope(E, hmin=0.5)
    else:
        s, H, L = E.ps.Slope(height=3, length=4), 3, E.const(4)
    t = Track(H, L)
    t.check(E, s)
    for i, op in enumerate(ops):
        step(E, s, t, op, i)


def jobs(tier):
    b = ("W water table set 0..100, n negative, N/R removed, A/H automatic or manual factor -3..3, g/a section changed to 0.5..30 m "
         "high, 0..60 m long or 5..89 degrees, m material 0.1..100 deep, u/p load with offset 0..50, b minimum extents")
    seqs = ["WR", "WN", "Wn", "WW", "Wg", "Wa", "Wm", "Wu", "Wp", "Wb", "RWg", "WRg", "NgW", "HWg", "HAg", "gH", "aA", "HnR", "WgR"]
    if tier == "thorough":
        seqs += ["Wgm", "Wmg", "WHg", "Wgg", "HgAW", "Wmu", "Wbg", "WgW", "WNgW", "uWg", "mWb", "Wgb", "bWg"]
    out = [dict(name="history-" + q, harness=history, params=dict(ops=q), bounds=b + "; initial slope 3 m by 4 m", opts=dict(witness=5)) for q in seqs]
    for q in ["W", "WH", "WA"] + (["Wm", "Wu", "Wb"] if tier == "thorough" else []):
        out.append(dict(name="free-" + q, harness=history, params=dict(ops=q, free=True), bounds=b + "; initial slope 0.5..30 by 0..60", opts=dict(witness=5)))
    return out
