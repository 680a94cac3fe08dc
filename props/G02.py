"""G02 Ground surface lookups agree with the section."""
from .common import slope, top, bot

OUTSIDE = "heights above 30 m, lengths above 60 m, |x| or |y| above 400"


def setup(E, how):
    if how == "length":
        s, H, L = slope(E)
    else:
        H = E.real("height", 0.1, 30)
        A = E.angle("angle", 10, 89)
        s = E.ps.Slope(height=H, angle=A)
        L = max(H / E.tan(A), 0.001)
    if how == "ext":
        s.update_boundary_options(MIN_EXT_L=E.real("ml", 1, 300), MIN_EXT_H=E.real("mh", 1, 300))
    return s, H, L


def yint(E, how):
    s, H, L = setup(E, how)
    t, b, xl = top(s), bot(s), s._external_length
    x = E.real("x", -400, 400)
    y = s.get_external_y_intersection(x)
    E.observe("y", y)
    if x < 0 or x > xl:
        E.check(y is None, "no level outside the section", y)
    elif y is None:
        E.fail("level inside the section")
    elif x <= t[0]:
        E.close(y, t[1], "crest platform level")
    elif x >= b[0]:
        E.close(y, b[1], "toe platform level")
    else:
        E.close(y, t[1] - (x - t[0]) * (t[1] - b[1]) / (b[0] - t[0]), "level on the face")


def xint(E, how):
    s, H, L = setup(E, how)
    t, b, xl = top(s), bot(s), s._external_length
    y = E.real("y", -400, 400)
    x = s.get_external_x_intersection(y)
    E.observe("x", x)
    if y > t[1]:
        E.check(x is None, "nothing above the crest", x)
    elif x is None:
        E.fail("a position at or below the crest level")
    elif y < b[1]:
        E.close(x, xl, "far end below the toe")
    else:
        E.close((x - t[0]) * (t[1] - b[1]), (t[1] - y) * (b[0] - t[0]), "point of the face at that level", tol=1e-5)
        E.le(t[0], x, "not left of the crest")
        E.le(x, b[0], "not right of the toe")


def jobs(tier):
    b = "height 0.1..30, length 0..60 (or angle 10..89 deg), x, y in -400..400: all values"
    out = []
    for how in ("length", "angle") + (("ext",) if tier == "thorough" else ()):
        out.append(dict(name="y-of-x-" + how, harness=yint, params=dict(how=how), bounds=b))
        out.append(dict(name="x-of-y-" + how, harness=xint, params=dict(how=how), bounds=b))
    return out
