"""S01 Analysis limits stay ordered and inside the section."""
import itertools

from .common import slope, top, limits, rejects

OUTSIDE = "a right inner limit of exactly 0; section beyond 30 m height / 60 m length; more than one earlier change of the limits"
NAMES = ["left_x", "left_x_right", "right_x_left", "right_x"]


def invariant(E, s):
    l = limits(s)
    c, xl = top(s)[0], s._external_length
    E.check([l[0] >= 0, l[0] < l[1], l[1] <= c, c <= l[2], l[2] < l[3], l[3] <= xl], "limits ordered and inside the section")


def step(E, s, mask, tag, must=False):
    """One call with the given subset of limits; checks acceptance and the result."""
    old = limits(s)
    c, xl = top(s)[0], s._external_length
    kw = {n: E.real(tag + n, -20, 400) for n, on in zip(NAMES, mask) if on}
    if "right_x_left" in kw:
        E.assume(kw["right_x_left"] != 0)
    want = list(old)
    if "left_x" in kw:
        want[0] = kw["left_x"]
    if "left_x_right" in kw:
        want[1] = min(kw["left_x_right"], c)
    if "right_x_left" in kw:
        want[2] = max(kw["right_x_left"], c)
    if "right_x" in kw:
        want[3] = min(kw["right_x"], xl)
    bad = any(bool(v < 0) for v in kw.values()) or not (bool(want[0] < want[1]) and bool(want[2] < want[3]))
    if must:
        E.assume(not bad)
    rej = rejects(E, s.set_analysis_limits, **kw)
    E.check(rej == bad, "rejected exactly when out of order or negative", f"rejected={rej}")
    if not rej and not bad:
        E.close(limits(s), want, "limits in force", tol=1e-6)
        invariant(E, s)
    elif rej:
        E.close(limits(s), old, "rejected limits change nothing")
    E.observe("limits", limits(s))


def fresh(E, mask, how):
    s, H, L = slope(E, hmin=0.5, lmin=0.1) if how == "slope" else (E.ps.Slope(height=3, angle=35), 0, 0)
    invariant(E, s)
    step(E, s, mask, "a_")


def second(E, mask):
    """From an arbitrary valid previous state."""
    s = E.ps.Slope(height=3, length=4)
    step(E, s, (1, 1, 1, 1), "p_", must=True)
    step(E, s, mask, "a_")


def reset(E, op, free):
    s = slope(E, hmin=0.5, lmin=0.1)[0] if free else E.ps.Slope(height=3, length=4)
    kw = {n: E.real(n, 0, 400) for n in NAMES}
    if rejects(E, s.set_analysis_limits, **kw):
        return
    if op == "remove":
        s.remove_analysis_limits()
    elif op == "boundary":
        s.update_boundary_options(MIN_EXT_L=E.real("ml", 0.1, 300))
    else:
        s.set_external_boundary(height=E.real("h2", 0.5, 30), length=E.real("l2", 0, 60))
    c = top(s)[0]
    if op == "remove":
        E.close(limits(s), [0, c, c, s._external_length], "default limits")
    invariant(E, s)


def jobs(tier):
    b = "slope height 0.5..30, length 0.1..60, limit values -20..400 (all reals); every subset of the four limits"
    out = []
    for mask in itertools.product((0, 1), repeat=4):
        n = "".join(map(str, mask))
        out.append(dict(name="after-any-" + n, harness=second, params=dict(mask=mask), bounds=b + "; slope 3 m high, 4 m long, arbitrary earlier limits", opts=dict(witness=8)))
        if tier == "thorough" or sum(mask) in (1, 4):
            out.append(dict(name="fresh-" + n, harness=fresh, params=dict(mask=mask, how="slope"), bounds=b, opts=dict(witness=8), weight=3))
    for op in ("remove", "boundary", "geometry"):
        out.append(dict(name="reset-" + op, harness=reset, params=dict(op=op, free=False), opts=dict(witness=8),
                        bounds=b + "; slope 3 m by 4 m, limits set, then removed / section changed"))
        if tier == "thorough":
            out.append(dict(name="reset-free-" + op, harness=reset, params=dict(op=op, free=True), opts=dict(witness=8), weight=9,
                            bounds=b + "; limits set, then removed / section changed"))
    return out
