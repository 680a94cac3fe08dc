"""V01 Inputs are accepted exactly when documented as valid."""
from .common import kth, rejects

OUTSIDE = ("infinities, NaN and booleans as input; friction angles of 90 degrees and more; numpy number types; "
           "numbers beyond +-1e6; empty strings and other false values as length of a uniform load")

BAD = [None, "5", "abc", [5], (5,), {"a": 1}, 3 + 4j, object()]


def num(E, name, lo=-1e6, hi=1e6):
    return kth(E, E.choice(name + " kind", ["float", "int"]), name, lo, hi)


def absv(v):
    return -v if v < 0 else v


def made(E, f, ok, what):
    """Calls f; the object, or None when rejected. ok: what should happen."""
    try:
        r = f()
    except ValueError:
        E.check(not ok, f"{what}: valid input accepted")
        return None
    E.check(ok, f"{what}: invalid input rejected with ValueError")
    return r if ok else None


def material(E, vary):
    kw = dict(unit_weight=18, friction_angle=30, cohesion=5, depth_to_bottom=4)
    ok = True
    if "unit_weight" in vary:
        kw["unit_weight"] = u = num(E, "unit_weight")
        if u < 1 or u > 50:
            ok = False
    if "friction_angle" in vary:
        k = E.choice("friction_angle kind", ["angle", "negative", "zero", "int"])
        kw["friction_angle"] = {"angle": lambda: E.angle("friction_angle", 0, 89), "zero": lambda: 0, "int": lambda: 35,
                                "negative": lambda: -E.real("neg_friction", 1e-6, 100)}[k]()
        if k == "negative":
            ok = False
    for n in ("cohesion", "depth_to_bottom"):
        if n in vary:
            kw[n] = num(E, n)
    m = made(E, lambda: E.ps.Material(**kw), ok, "material")
    if m is None:
        return
    E.close([m.unit_weight, m.friction_angle], [kw["unit_weight"], kw["friction_angle"]], "material values as given")
    E.close([m.cohesion, m.depth_to_bottom], [absv(kw["cohesion"]), absv(kw["depth_to_bottom"])],
            "negative cohesion and depth become positive")
    E.close(m.tan_friction_angle, E.tan(kw["friction_angle"]), "tangent of the friction angle")
    E.observe("material", [m.unit_weight, m.cohesion, m.depth_to_bottom])


def load(E, cls):
    kw = dict(magnitude=num(E, "magnitude"), offset=num(E, "offset"))
    if cls == "Udl":
        k = E.choice("length given", ["none", "zero", "zero float", "number", "missing"])
        if k != "missing":
            kw["length"] = {"none": lambda: None, "zero": lambda: 0, "zero float": lambda: 0.0,
                            "number": lambda: num(E, "length")}[k]()
    u = made(E, lambda: getattr(E.ps, cls)(**kw), True, cls)
    if u is None:
        return
    E.close([u.magnitude, u.offset], [absv(kw["magnitude"]), absv(kw["offset"])],
            "negative magnitude and offset become positive")
    if cls == "Udl":
        n = kw.get("length")
        if n is None or n == 0:
            E.check(u.length is None, "length 0 or None is continuous")
        else:
            E.close(u.length, absv(n), "negative length becomes positive")
    E.observe("load", [u.magnitude, u.offset])


def wrong_type(E):
    """Non-numbers in any numeric place."""
    k = E.choice("where", ["unit_weight", "friction_angle", "cohesion", "depth_to_bottom", "Udl magnitude", "Udl offset",
                           "Udl length", "LineLoad magnitude", "LineLoad offset", "height", "angle", "length",
                           "water", "material object"])
    bad = E.choice("bad", BAD)
    ps = E.ps
    v = E.real("v", 1, 40)
    if k in ("unit_weight", "friction_angle", "cohesion", "depth_to_bottom"):
        kw = dict(unit_weight=v, friction_angle=30, cohesion=v, depth_to_bottom=v)
        kw[k] = bad
        made(E, lambda: ps.Material(**kw), False, k)
    elif k.startswith(("Udl", "Line")):
        cls, n = k.split()
        if n == "length" and bad is None:
            return
        kw = dict(magnitude=v, offset=v)
        kw[n] = bad
        made(E, lambda: getattr(ps, cls)(**kw), False, k)
    elif k == "height":
        made(E, lambda: ps.Slope(height=bad, length=v), False, k)
        s = ps.Slope()
        made(E, lambda: s.set_external_boundary(height=bad, length=v), False, k)
    elif k == "angle":
        made(E, lambda: ps.Slope(height=v, angle=bad), False, k)
    elif k == "length":
        if bad is not None:
            made(E, lambda: ps.Slope(height=v, length=bad), False, k)
    elif k == "water":
        if bad is not None:
            s = ps.Slope()
            made(E, lambda: s.set_water_table(bad), False, k)
    else:
        s = ps.Slope()
        made(E, lambda: s.set_materials(bad), False, k)


def slope(E, mode):
    H = num(E, "height", -100, 100)
    kw = dict(height=H)
    ok = not H <= 0
    if mode in ("length", "both"):
        L = kw["length"] = num(E, "length", -100, 100)
        if mode == "both":
            A = kw["angle"] = num(E, "angle", -200, 200)
            ok = ok and not (A <= 0 or A > 90)
        else:
            kw["angle"] = E.choice("noangle", [None, 30])
        ok = ok and not L < 0
    elif mode == "none":
        kw["angle"] = None
        ok = False
    else:
        k = E.choice("angle kind", ["angle", "ninety", "zero", "big", "negative", "int"])
        kw["angle"] = {"angle": lambda: E.angle("angle", 0.5, 89.5), "ninety": lambda: 90, "zero": lambda: 0,
                       "int": lambda: 45, "big": lambda: E.real("big", 90.0001, 400),
                       "negative": lambda: -E.real("neg", 1e-6, 400)}[k]()
        ok = ok and k in ("angle", "ninety", "int")
    how = E.choice("how", ["constructor", "set_external_boundary"])
    if how == "constructor":
        s = made(E, lambda: E.ps.Slope(**kw), ok, "slope")
    else:
        s = E.ps.Slope(height=2, length=3)
        if made(E, lambda: [s.set_external_boundary(**kw)], ok, "section") is None:
            s = None
    if s is not None:
        t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
        E.close(t[1] - b[1], H, "height in force")
        E.observe("slope", list(t) + list(b))


def water(E):
    s = E.ps.Slope(height=2, length=3)
    d = num(E, "depth", -100, 100)
    r = rejects(E, s.set_water_table, d)
    E.check(r == bool(d < 0), "water depth rejected exactly when negative")


def jobs(tier):
    b = "all numbers (int and float) -1e6..1e6, friction angle 0..89 degrees or negative"
    out = [dict(name="material-" + "-".join(v), harness=material, params=dict(vary=v), bounds=b)
           for v in (["unit_weight", "cohesion"], ["friction_angle", "depth_to_bottom"])]
    if tier == "thorough":
        out.append(dict(name="material-all", harness=material, bounds=b,
                        params=dict(vary=["unit_weight", "friction_angle", "cohesion", "depth_to_bottom"])))
    out += [dict(name="load-" + c, harness=load, params=dict(cls=c), bounds=b) for c in ("Udl", "LineLoad")]
    out.append(dict(name="wrong-type", harness=wrong_type, bounds=f"each numeric input replaced by each of {BAD[:-1]} and a plain object"))
    out += [dict(name="slope-" + m, harness=slope, params=dict(mode=m), bounds="height and length -100..100, angle -400..400 (0.5..89.5 where it decides the length)")
            for m in ("length", "both", "none", "angle")]
    out.append(dict(name="water", harness=water, bounds="depth -100..100"))
    return out
