"""B02 Every reported factor of safety is a finite number, never negative."""
from .fos import Case, PLANES

OUTSIDE = "negative values above -1e-9 (arithmetic of the encoding is rounded at 50 digits); factors of safety above the range of floats; driving moments within 1e-9 of zero; options with more than the stated iterations"


def verdict(E, k, got):
    """Dropped, or finite and not negative."""
    if got is None:
        E.check(True, "plane dropped")
    else:
        E.check(E.isfinite(got), "finite factor of safety")
        if E.isfinite(got):
            E.check(got >= E.const(-1e-9), "factor of safety not negative", f"{got}")
    d = k.ref.driving(k.ref.slices(k.plane, k.n))
    if d < E.const(-1e-9):
        E.check(got is None, "no result without a driving moment")
    elif not (d > E.const(1e-9)):
        E.assume(False)
    E.observe("dropped", got is None)


def soil(E, plane, it, factor):
    """One soil of any kind, with or without water."""
    k = Case(E, plane, 10, it)
    ck, pk = E.choice("soil", [("zero", "any"), ("any", "zero"), ("zero", "zero")] + ([("any", "any")] if it == 0 else [("any", "some"), ("some", "any")]))
    c = {"zero": E.const(0), "some": E.const(3)}[ck] if ck != "any" else E.real("cohesion", 0, 60)
    phi = {"zero": E.const(0), "some": E.const(29)}[pk] if pk != "any" else E.angle("friction", 0, 70)
    w = E.real("weight", 1, 50) if it == 0 else E.const(E.choice("w", [2, 18]))
    k.material(E.const(1.4) * k.h, w, phi, c)
    d = E.choice("water", [None, 0, 0.4, 0.9])
    if d is not None:
        k.water(E.const(d) * k.h, factor)
    verdict(E, k, k.reported())


def water(E, plane, it, factor, deep):
    """Any water level and light soils without cohesion or friction."""
    k = Case(E, plane, 10, it)
    phi, c, w = E.choice("soil", [(0, 0, 9), (33, 0, 2), (15, 1, 17)] + ([(33, 0, 20), (0, 4, 9), (15, 1, 1), (60, 0, 9)] if deep else []))
    k.material(E.const(1.4) * k.h, E.const(w), E.const(phi), E.const(c))
    k.water(E.real("depth", 0, 12), factor)
    verdict(E, k, k.reported())


def layers(E, plane, it):
    """A weak layer without any strength between strong ones."""
    k = Case(E, plane, 10, it)
    k.material(E.const(0.3) * k.h, E.const(19), E.angle("friction", 0, 70) if it < 2 else E.const(30), E.const(0))
    k.material(E.const(1.1) * k.h, E.const(18), E.const(0), E.const(0))
    k.material(E.const(1.4) * k.h, E.const(21), E.const(28), E.const(0) if it else E.real("cohesion", 0, 50))
    k.water(E.const(E.choice("depth", [0, 0.5])) * k.h, E.const(1))
    verdict(E, k, k.reported())


def loads(E, plane, it):
    """Loads of any size."""
    k = Case(E, plane, 10, it)
    k.s.update_boundary_options(MIN_EXT_L=40)
    phi, c = E.choice("soil", [(0, 0), (33, 0), (0, 4)])
    k.material(E.const(1.4) * k.h, E.const(18), E.const(phi), E.const(c))
    k.udl(E.real("q", 0, 1000), E.const(0), E.const(k.back) * E.const(0.5))
    k.ll(E.real("p", 0, 1000) if it == 0 else E.const(70), E.const(k.back) * E.const(0.2))
    verdict(E, k, k.reported())


def nodrive(E, circle, it):
    """A load on the right of the centre works against the movement: the plane gives no result once it outweighs the soil."""
    s = E.ps.Slope(height=3, length=4)
    s.set_materials(E.ps.Material(unit_weight=18, friction_angle=25, cohesion=2, depth_to_bottom=5))
    t = s.get_top_coordinates()
    off, length = circle[3:]
    q = E.real("q", 0, 500)
    s.set_udls(E.ps.Udl(magnitude=q, offset=off, length=length))
    s.add_single_circular_plane(E.const(circle[0]), E.const(circle[1]), E.const(circle[2]))
    E.check(len(s._individual_planes) == 1, "the plane is accepted")
    s.update_analysis_options(slices=10, max_iterations=it, tolerance=0)
    s.analyse_slope()
    got = s.get_min_FOS() if s._search else None
    k = Case(E, "face", 10, it)
    k.s.set_materials(E.ps.Material(depth_to_bottom=5))
    k.mats = [(E.const(5), E.const(18), E.const(2), E.tan(E.const(25)))]
    k.us = [(q, E.const(off), E.const(length))]
    k.place()
    cx, cy, r = [E.const(v) for v in circle[:3]]
    x0, x1 = k.ref.crossings(cx, cy, r)
    k.plane = (x0, x1, cx, cy, r)
    verdict(E, k, got)


def empty(E, plane):
    """No strata, no result; results come and go with the strata."""
    k = Case(E, plane, 10, 1)
    q = E.real("q", 0, 100)
    k.udl(q, 0, E.const(1))
    E.check(k.reported() is None, "no result without materials")
    m = k.material(E.const(1.4) * k.h, E.const(18), E.const(25), E.const(2))
    E.check(k.reported() is not None, "result with a material")
    k.s.remove_material(material=m)
    E.check(k.reported() is None, "no result after removing the material")


def jobs(tier):
    out = []
    dec = dict(dec=True, witness=5)
    deep = tier != "quick"
    its = (0, 1) + ((2,) if deep else ())
    for p in PLANES:
        b = f"slope {PLANES[p][0]} m, one {p} plane, 10 slices; "
        for it in its:
            out.append(dict(name=f"soil-{p}-{it}", harness=soil, params=dict(plane=p, it=it, factor=1), opts=dec, bounds=b + f"cohesion 0..60, friction angle 0..70, weight 1..50 (or 2, 18), water at three levels or none, factor 1, {it} Bishop iterations"))
            out.append(dict(name=f"water-{p}-{it}", harness=water, params=dict(plane=p, it=it, factor=1, deep=deep), opts=dec, bounds=b + f"water depth 0..12, factor 1, 3 soils, {it} Bishop iterations"))
            out.append(dict(name=f"loads-{p}-{it}", harness=loads, params=dict(plane=p, it=it), opts=dec, bounds=b + f"loads 0..1000, 3 soils, {it} Bishop iterations"))
            out.append(dict(name=f"layers-{p}-{it}", harness=layers, params=dict(plane=p, it=it), opts=dec, bounds=b + f"three strata, one without strength, {it} Bishop iterations"))
        if deep:
            out.append(dict(name=f"water-auto-{p}", harness=water, params=dict(plane=p, it=1, factor=None, deep=deep), opts=dec, bounds=b + "water depth 0..12, automatic factor, 3 soils, one Bishop iteration"))
        out.append(dict(name=f"empty-{p}", harness=empty, params=dict(plane=p), opts=dec, bounds=b + "any load, no strata"))
    for i, c in enumerate([(7, 12, 2.6, 0, 0.9), (7.2, 11.5, 2.0, 0.1, 0.6), (7, 12, 2.6, 0, 3)]):
        for it in its:
            out.append(dict(name=f"nodrive-{i}-{it}", harness=nodrive, params=dict(circle=c, it=it), opts=dec, bounds=f"slope 3 m by 4 m, circle {c[:3]}, load 0..500 at {c[3]}, {c[4]} m long, {it} Bishop iterations"))
    return out
