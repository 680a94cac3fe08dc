"""H04 Slope models do not influence each other."""
from .common import rejects, state, same_state, STATE_NAMES
from .refmodel import CIRCLES, Ref

OUTSIDE = "more than two models at a time"


def model(E, k, h=3, l=4):
    s = E.ps.Slope(height=h, length=l)
    s.set_materials(E.ps.Material(unit_weight=18, friction_angle=30, cohesion=E.real(k + "c", 0, 50), depth_to_bottom=2),
                    E.ps.Material(unit_weight=20, friction_angle=20, cohesion=8, depth_to_bottom=6.5))
    s.set_udls(E.ps.Udl(magnitude=E.real(k + "q", 1, 50), offset=1, length=2))
    s.set_lls(E.ps.LineLoad(magnitude=E.real(k + "p", 1, 50), offset=1.5))
    s.set_water_table(2)
    s.update_analysis_options(slices=10, max_iterations=0, tolerance=0)
    s.add_single_circular_plane(*[E.const(v) for v in CIRCLES["toe"]])
    s.analyse_slope()
    return s


OPS = {
    "section": lambda E, s: s.set_external_boundary(height=E.real("h", 0.5, 20), length=E.real("l", 0.1, 40)),
    "extents": lambda E, s: s.update_boundary_options(MIN_EXT_H=E.real("mh", 1, 50), MIN_EXT_L=E.real("ml", 1, 90)),
    "material": lambda E, s: s.set_materials(E.ps.Material(depth_to_bottom=E.real("d", 7, 60))),
    "remove material": lambda E, s: s.remove_material(depth=2),
    "remove materials": lambda E, s: s.remove_material(remove_all=True),
    "udl": lambda E, s: s.set_udls(E.ps.Udl(magnitude=E.real("q", 1, 500), offset=E.real("o", 0, 30), length=4)),
    "remove udls": lambda E, s: s.remove_udls(remove_all=True),
    "ll": lambda E, s: s.set_lls(E.ps.LineLoad(magnitude=5, offset=E.real("o", 0, 30))),
    "remove lls": lambda E, s: s.remove_lls(remove_all=True),
    "water": lambda E, s: s.set_water_table(E.real("w", 0, 20)),
    "no water": lambda E, s: s.remove_water_table(),
    "head": lambda E, s: s.update_water_analysis_options(auto=False, H=E.real("f", -1, 2)),
    "options": lambda E, s: s.update_analysis_options(slices=E.int("n", 5, 50), iterations=E.int("it", 400, 900), tolerance=0.1, max_iterations=3, min_failure_dist=1),
    "limits": lambda E, s: rejects(E, s.set_analysis_limits, left_x=E.real("l1", 0, 9), right_x=E.real("l4", 9, 25)),
    "no limits": lambda E, s: s.remove_analysis_limits(),
    "plane": lambda E, s: s.add_single_circular_plane(*[E.const(v) for v in CIRCLES["face"]]),
    "no planes": lambda E, s: s.remove_individual_planes(),
    "analyse": lambda E, s: s.analyse_slope(),
    "plot": lambda E, s: s.plot_critical(material_table=False),
}


def results(s):
    return [[p["FOS"], p["c_x"], p["c_y"], p["radius"], list(p["l_c"]), list(p["r_c"])] for p in s._search]


def separate(E, op):
    """Own objects: nothing done to one model shows in the other."""
    a, b = model(E, "a"), model(E, "b", 3, 4.5)
    before, res = state(b), results(b)
    OPS[op](E, a)
    same_state(E, state(b), before, "other model")
    E.close(results(b), res, "results of the other model")
    E.close(len(b._individual_planes), 1, "planes of the other model")
    c = E.ps.Slope(height=2, length=3)
    E.check(len(c._materials) + len(c._udls) + len(c._lls) + len(c._search) + len(c._individual_planes) == 0 and c._water_RL is None,
            "a new model is empty")
    d = E.ps.Slope(height=3, length=4)
    E.close(state(d)[0], [8, 10, 12, 7, 20, 10], "a new model has the default section")
    E.close(state(d)[5], [25, 1000, 0, 0.005, 15], "a new model has the default options")
    now = state(b)
    same_state(E, now, before, "other model after new ones")
    E.close([m._slices for m in (c, d)], [25, 25], "a new model has the default options")
    if any(x != y for x, y in zip(now[5], before[5])):
        return
    b.analyse_slope()
    E.close(results(b), res, "new analysis of the other model")
    E.observe("fos", b.get_min_FOS())


def alike(E, what):
    """Two models that agree in everything but one thing, with the same circle: each gets its own factor of safety."""
    one = dict(h=2, l=4, ext=20, water=1, load=10, offset=0.5, c=6, uw=18, f=1)
    two = dict(one, **{
        "height": lambda: dict(h=1.5), "length": lambda: dict(l=3.5), "extent": lambda: dict(ext=24), "none": lambda: {},
        "water": lambda: dict(water=E.real("w", 0, 3)), "load": lambda: dict(load=E.real("q", 1, 60)),
        "offset": lambda: dict(offset=E.real("o", 0, 4)), "soil": lambda: dict(c=E.real("c", 1, 60)),
        "weight": lambda: dict(uw=E.real("u", 10, 25)), "head": lambda: dict(f=E.real("f", 0, 1))}[what]())
    order = [one, two, one] if E.choice("order", [0, 1]) == 0 else [two, one, two]
    models = []
    for k, a in enumerate(order):
        s = E.ps.Slope(height=a["h"], length=a["l"])
        if a["ext"] != 20:
            s.update_boundary_options(MIN_EXT_L=a["ext"])
        s.set_materials(E.ps.Material(unit_weight=a["uw"], friction_angle=30, cohesion=a["c"], depth_to_bottom=1.5),
                        E.ps.Material(unit_weight=20, friction_angle=20, cohesion=8, depth_to_bottom=8))
        s.set_udls(E.ps.Udl(magnitude=a["load"], offset=a["offset"], length=1.5))
        s.set_water_table(a["water"])
        s.update_water_analysis_options(auto=False, H=a["f"])
        s.update_analysis_options(slices=10, max_iterations=1, tolerance=0)
        t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
        ref = Ref(E, t, b, s._external_length, s._external_height)
        ref.materials = [(1.5, a["uw"], a["c"], E.tan(30)), (8, 20, 8, E.tan(20))]
        ref.udls = [(a["load"], t[0] - a["offset"] - E.const(1.5), t[0] - a["offset"])]
        ref.water, ref.factor = t[1] - a["water"], a["f"]
        circle = [E.const(v) for v in (11, 13, 6)]
        s.add_single_circular_plane(*circle)
        models.append((s, ref, circle))
    for s, ref, circle in models:
        s.analyse_slope()
    for s, ref, circle in models:
        E.check(len(s._search) == 1, "the plane is analysed")
        x0, x1 = ref.crossings(*circle)
        p = s._search[0]
        E.close([p["l_c"][0], p["r_c"][0]], [x0, x1], "ends of the plane of one of several models", 1e-5)
        E.close(p["FOS"], ref.fos((x0, x1, *circle), 10, 1), "factor of safety of one of several models", 1e-5)
        E.observe("fos", p["FOS"])


def shared(E, kind):
    """The same load or material object assigned to two models."""
    a, b = E.ps.Slope(height=3, length=4), E.ps.Slope(height=3, length=4)
    o = E.real("o", 0, 3)
    obj = {"udl": lambda: E.ps.Udl(magnitude=5, offset=o, length=2), "ll": lambda: E.ps.LineLoad(magnitude=5, offset=o),
           "material": lambda: E.ps.Material(depth_to_bottom=o)}[kind]()
    for s in (a, b):
        {"udl": s.set_udls, "ll": s.set_lls, "material": s.set_materials}[kind](obj)
    before = state(b)
    op = E.choice("op", ["section", "extents", "remove", "load", "material"])
    if op in ("section", "extents"):
        OPS[op](E, a)
    elif op == "remove":
        a.remove_udls(remove_all=True)
        a.remove_lls(remove_all=True)
        a.remove_material(remove_all=True)
    elif op == "load":
        a.set_udls(E.ps.Udl(magnitude=5, offset=E.real("oo", 0, 30), length=2))
    else:
        a.set_materials(E.ps.Material(depth_to_bottom=E.real("dd", 4, 60)))
    same_state(E, state(b), before, "shared object")


def jobs(tier):
    b = "two models with strata, both loads, water and one analysed plane (10 slices, ordinary method); symbolic cohesions, loads and arguments"
    out = [dict(name="separate-" + op, harness=separate, params=dict(op=op), bounds=b, opts=dict(dec=True, witness=4)) for op in OPS]
    for w in ("none", "height", "length", "extent", "water", "load", "offset", "soil", "weight", "head"):
        out.append(dict(name="alike-" + w, harness=alike, params=dict(what=w), opts=dict(dec=True, witness=4),
                        bounds=f"three models with the same circle (10 slices, one Bishop iteration), alike but for: {w}; both orders"))
    for k in ("udl", "ll", "material"):
        out.append(dict(name="shared-" + k, harness=shared, params=dict(kind=k), bounds="two slopes 3 m by 4 m with one and the same object"))
    return out
