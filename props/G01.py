"""G01 Section geometry matches the requested slope."""
OUTSIDE = "heights above 60 m, lengths above 120 m, angles below 5 degrees"


def spec(E, s, H, L, mh, ml):
    top, bot = s.get_top_coordinates(), s.get_bottom_coordinates()
    xl, xh = s._external_length, s._external_height
    E.close(top[1] - bot[1], H, "crest is the height above the toe")
    E.close(bot[0] - top[0], L, "crest is the length left of the toe")
    E.close(top[0], xl - bot[0], "platforms equally long")
    E.close(top[1], xh, "crest at the top of the section")
    E.close(xl, max(max(5 * L, 4 * H), ml), "section length")
    E.close(xh, max(max(3 * H, 2.5 * L), mh), "section height")
    E.observe("top", list(top))
    E.observe("bot", list(bot))
    E.observe("ext", [xl, xh])


def outline(E, s, top, bot):
    x = E.fig(s.plot_boundary())["traces"][0]
    want = [(0, 0), (0, top[1]), top, bot, (s._external_length, bot[1]), (s._external_length, 0), (0, 0)]
    E.close(list(x["x"]), [p[0] for p in want], "plotted outline x")
    E.close(list(x["y"]), [p[1] for p in want], "plotted outline y")


def geom(E, mode, prefix="", how="ctor"):
    """-> height, length, arguments"""
    H = E.real(prefix + "height", 0.05, 60)
    if mode == "length":
        L = E.real(prefix + "length", 0, 120)
        return H, max(L, 0.001), dict(height=H, length=L)
    if mode == "both":
        L = E.real(prefix + "length", 0, 120)
        return H, max(L, 0.001), dict(height=H, length=L, angle=E.real(prefix + "angle", 0.01, 90))
    if mode == "vertical":
        return H, max(H / E.tan(90) if not E.symbolic else H / E.const(1.633123935319537e16), 0.001), dict(height=H, angle=90)
    A = E.angle(prefix + "angle", 5, 89.5)
    return H, max(H / E.tan(A), 0.001), dict(height=H, angle=A)


def construct(E, mode):
    H, L, kw = geom(E, mode)
    s = E.ps.Slope(**kw)
    spec(E, s, H, L, 6, 10)
    outline(E, s, s.get_top_coordinates(), s.get_bottom_coordinates())


def history(E, mode, steps):
    """Construction followed by boundary option and geometry changes."""
    H, L, kw = geom(E, "length")
    s = E.ps.Slope(**kw)
    mh, ml = 6, 10
    for i in range(steps):
        op = E.choice(f"op{i}", ["L", "H", "LH", "geom"])
        if op == "geom":
            H, L, kw = geom(E, mode, f"n{i}_")
            s.set_external_boundary(**kw)
        else:
            kw = {}
            if "L" in op:
                kw["MIN_EXT_L"] = ml = E.real(f"ml{i}", 0.01, 400)
            if "H" in op:
                kw["MIN_EXT_H"] = mh = E.real(f"mh{i}", 0.01, 400)
            s.update_boundary_options(**kw)
        spec(E, s, H, L, mh, ml)
    outline(E, s, s.get_top_coordinates(), s.get_bottom_coordinates())


def rejected(E):
    """A geometry is required."""
    try:
        E.ps.Slope(height=E.real("height", 0.05, 60), angle=None, length=None)
    except ValueError:
        E.check(True, "missing angle and length rejected")
        return
    E.fail("missing angle and length rejected")


def jobs(tier):
    b = "height 0.05..60 m, length 0..120 m, angle 5..89.5 (and 90) degrees; all values, all branches"
    out = [dict(name=f"construct-{m}", harness=construct, params=dict(mode=m), bounds=b)
           for m in ("length", "both", "angle", "vertical")]
    out.append(dict(name="rejected", harness=rejected, bounds=b))
    out.append(dict(name="history-1", harness=history, params=dict(mode="length", steps=1), bounds=b + "; one later change"))
    out.append(dict(name="history-1a", harness=history, params=dict(mode="angle", steps=1), bounds=b + "; one later change"))
    if tier == "thorough":
        out.append(dict(name="history-2", harness=history, params=dict(mode="length", steps=2), weight=5,
                        bounds=b + "; two later changes", opts=dict(witness=10)))
        out.append(dict(name="history-2a", harness=history, params=dict(mode="angle", steps=2), weight=5,
                        bounds=b + "; two later changes", opts=dict(witness=10)))
    return out
