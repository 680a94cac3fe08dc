"""L01 Loads sit at their offset behind the crest."""
from .common import slope, top, udls, lls

OUTSIDE = "more than three loads; offsets and lengths above 50 m; minimum extents lowered by the user while loads are assigned"


def clip0(v):
    return v if v > 0 else v * 0


def placed(E, s, us, ps, fits=True):
    """Assigned loads are exactly these and sit where they should. fits: the load lies on the platform as a whole."""
    c = top(s)[0]
    E.check(len(s._udls) == len(us), "non-zero uniform loads kept", f"{len(s._udls)} for {len(us)}")
    E.check(len(s._lls) == len(ps), "non-zero line loads kept", f"{len(s._lls)} for {len(ps)}")
    if len(s._udls) != len(us) or len(s._lls) != len(ps):
        return
    for got, (q, off, ln) in zip(s._udls, us):
        E.close(got.magnitude, q, "uniform load magnitude")
        E.close(got.right, c - off, "right end of uniform load at its offset")
        if ln is None:
            E.close(got.left, 0, "continuous load from the left end of the section")
        else:
            E.close(got.left, clip0(c - off - ln), "left end of uniform load")
        if fits:
            E.le(0, got.right, "uniform load on the crest platform")
            if ln is not None:
                E.close(got.right - got.left, ln, "uniform load has its full length")
    for got, (q, off) in zip(s._lls, ps):
        E.close(got.magnitude, q, "line load magnitude")
        E.close(got.coord, (c - off) if fits else clip0(c - off), "line load at its offset")
        if fits:
            E.le(0, got.coord, "line load on the crest platform")
    E.observe("udls", [[u.left, u.right] for u in s._udls])
    E.observe("lls", [p.coord for p in s._lls])


def new_udl(E, tag, omax=50, continuous=None):
    q = E.choice(tag + "zero", [E.real(tag + "q", 0.1, 200), 0])
    off = E.real(tag + "off", 0, omax)
    ln = None if (E.bool(tag + "cont") if continuous is None else continuous) else E.real(tag + "len", 0.1, omax)
    return E.ps.Udl(magnitude=q, offset=off, length=ln), (q, off, ln)


def new_ll(E, tag, omax=50):
    q = E.choice(tag + "zero", [E.real(tag + "q", 0.1, 200), 0])
    off = E.real(tag + "off", 0, omax)
    return E.ps.LineLoad(magnitude=q, offset=off), (q, off)


def one(E, kind):
    s, H, L = slope(E)
    us, ps = [], []
    if kind == "udl":
        u, d = new_udl(E, "u")
        s.set_udls(u)
        us = [d] if d[0] != 0 else []
    else:
        p, d = new_ll(E, "p")
        s.set_lls(p)
        ps = [d] if d[0] != 0 else []
    placed(E, s, us, ps)


def several(E, order, together):
    """Several loads, in one call or one after another; geometry changes in between."""
    s = E.ps.Slope(height=3, length=4)
    us, ps, objs = [], [], []
    for i, k in enumerate(order):
        t = f"l{i}_"
        if k == "u":
            o, d = new_udl(E, t, continuous=(i == 1))
            if d[0] != 0:
                us.append(d)
            if together:
                objs.append(o)
                continue
            s.set_udls(o)
        elif k == "p":
            o, d = new_ll(E, t)
            if d[0] != 0:
                ps.append(d)
            if together:
                objs.append(o)
                continue
            s.set_lls(o)
        elif k == "g":
            s.set_external_boundary(height=E.real(t + "h", 0.5, 30), length=E.real(t + "l", 0, 60))
        elif k == "m":
            s.set_materials(E.ps.Material(depth_to_bottom=E.real(t + "d", 0.1, 60)))
        placed(E, s, us, ps)
    if together:
        (s.set_udls if order[0] == "u" else s.set_lls)(*objs)
        placed(E, s, us, ps)


def shrunk(E):
    """Minimum length lowered afterwards: loads keep their offset and are cut off at the left end."""
    s = E.ps.Slope(height=3, length=4)
    u, d = new_udl(E, "u")
    p, e = new_ll(E, "p")
    s.set_udls(u)
    s.set_lls(p)
    s.update_boundary_options(MIN_EXT_L=E.real("ml", 260, 400))
    placed(E, s, [d] if d[0] != 0 else [], [e] if e[0] != 0 else [])


def removed_others(E):
    """Removing other loads leaves the rest in place."""
    s = E.ps.Slope(height=3, length=4)
    u, d = new_udl(E, "u")
    v, e = new_udl(E, "v", continuous=False)
    E.assume(d[1] < e[1])
    s.set_udls(u, v)
    s.remove_udls(u)
    placed(E, s, [e] if e[0] != 0 else [], [])


def jobs(tier):
    b = "load magnitude 0 or 0.1..200, offset 0..50, length continuous or 0.1..50"
    out = [dict(name="one-" + k, harness=one, params=dict(kind=k), bounds=b + "; slope height 0.1..30, length 0..60") for k in ("udl", "ll")]
    seqs = ["uu", "pp", "ug", "pg", "up", "um", "pm"]
    if tier == "thorough":
        seqs += ["ugu", "pgp", "upg", "uug", "ppg", "gup", "ump"]
    for q in seqs:
        out.append(dict(name="seq-" + q, harness=several, params=dict(order=q, together=False), bounds=b + "; slope 3 m high, 4 m long (or changed to 0.5..30, 0..60)",
                        opts=dict(witness=5)))
    for q in ["uu", "pp"] + (["uuu", "ppp"] if tier == "thorough" else []):
        out.append(dict(name="together-" + q, harness=several, params=dict(order=q, together=True), bounds=b + "; slope 3 m high, 4 m long"))
    out.append(dict(name="extended", harness=shrunk, bounds=b + "; minimum length then set to 260..400"))
    out.append(dict(name="removed-others", harness=removed_others, bounds=b))
    return out
