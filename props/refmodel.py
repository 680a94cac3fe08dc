"""Independent reference for the analysis of one slip circle: plain lists, one slice at a time.

Written from the description of the methods (ordinary method of slices for the first value, Bishop's simplified
equation iterated from it), not from the code. Works on numbers of either environment (symbolic or concrete)."""


class Ref:
    def __init__(self, E, top, bot, xl, xh):
        self.E, self.top, self.bot, self.xl, self.xh = E, top, bot, xl, xh
        self.materials = []      # (depth, unit weight, cohesion, tan(phi)), by depth
        self.udls = []           # (pressure, left, right)
        self.lls = []            # (force, x)
        self.water = None        # level
        self.factor = None       # head factor

    @property
    def grad(self):
        return (self.top[1] - self.bot[1]) / (self.bot[0] - self.top[0])

    def ground(self, x):
        if x <= self.top[0]:
            return self.top[1]
        if x >= self.bot[0]:
            return self.bot[1]
        return self.top[1] - (x - self.top[0]) * self.grad

    def surface_at(self, y):
        """x where the level y meets the ground surface."""
        if y < self.bot[1]:
            return self.xl
        return self.top[0] + (self.top[1] - y) / self.grad

    def crossings(self, cx, cy, r):
        """Entry on the crest platform and exit on face or toe platform of a circle known to have them."""
        E = self.E
        dy = self.top[1] - cy
        x0 = cx - E.sqrt(r * r - dy * dy)
        dy = cy - self.bot[1]
        if dy < r:
            x1 = cx + E.sqrt(r * r - dy * dy)
            if x1 >= self.bot[0]:
                return x0, x1
        g = self.grad
        # (x-cx)^2 + (top_y - (x-top_x) g - cy)^2 = r^2
        k = self.top[1] + self.top[0] * g - cy
        a, b, c = 1 + g * g, -2 * cx - 2 * k * g, cx * cx + k * k - r * r
        return x0, (-b + E.sqrt(b * b - 4 * a * c)) / (2 * a)

    def slices(self, plane, n):
        E = self.E
        x0, x1, cx, cy, r = plane
        b = (x1 - x0) / n
        out = []
        for i in range(n):
            xm = x0 + b * (2 * i + 1) / 2
            h = E.sqrt(r * r - (xm - cx) * (xm - cx))
            yb = cy - h
            yt = self.ground(xm)
            if yt < yb:
                yt = yb
            out.append(self.slice(xm, x0 + b * i, x0 + b * (i + 1), b, yt, yb, (cx - xm) / r, h / r, i == n - 1))
        return out

    def slice(self, xm, xl, xr, b, yt, yb, sin, cos, last):
        # weight of the strata cut by the slice
        w, upper = 0, self.xh
        mats = self.materials
        strength = mats[-1]
        found = False
        for k, m in enumerate(mats):
            lower = self.xh - m[0]
            hi = yt if yt < upper else upper
            if k == len(mats) - 1:
                lo = yb
            else:
                lo = yb if yb > lower else lower
            if hi > lo:
                w = w + m[1] * (hi - lo)
            if not found and yb > lower:
                strength, found = m, True
            upper = lower
        w = w * b
        for q, l, r in self.udls:
            hi = r if r < xr else xr
            lo = l if l > xl else xl
            if hi > lo:
                w = w + q * (hi - lo)
        for p, x in self.lls:
            if x >= xl and x < xr:
                w = w + p
        u = 0
        if self.water is not None:
            lev = self.water if self.water < yt else yt
            if lev > yb:
                u = (lev - yb) * 981 / 100
                xw = self.surface_at(self.water)
                if xw < xm and xm < self.bot[0]:
                    u = u * self.factor
        return dict(w=w, u=u, b=b, sin=sin, cos=cos, c=strength[2], t=strength[3])

    def driving(self, sl):
        d = 0
        for s in sl:
            d = d + s["w"] * s["sin"]
        return d

    def ordinary(self, sl):
        r = 0
        for s in sl:
            lb = s["b"] / s["cos"]
            n = s["w"] * s["cos"] - s["u"] * lb
            r = r + s["c"] * lb
            if n > 0:
                r = r + n * s["t"]
        return r / self.driving(sl)

    def bishop(self, sl, fs):
        r = 0
        for s in sl:
            r = r + (s["c"] * s["b"] + (s["w"] - s["u"] * s["b"]) * s["t"]) / (s["cos"] + s["sin"] * s["t"] / fs)
        return r / self.driving(sl)

    def fos(self, plane, n, iterations, tol=0):
        """None when there is no driving moment."""
        sl = self.slices(plane, n)
        if not self.driving(sl) > 0:
            return None
        fs = self.ordinary(sl)
        for _ in range(iterations):
            if fs == 0:
                return fs
            new = self.bishop(sl, fs)
            if new < self.E.const(1e-9):
                if new > self.E.const(-1e-9):
                    self.E.assume(False)     # resistance zero to within rounding: dropped or 0, both are right
                return None
            if tol:
                d = new - fs
                if d < tol and -d < tol:
                    return new
            fs = new
        return fs


# circles for a slope 3 m high and 4 m long (crest (8, 10), toe (12, 7), section 20 m x 10 m)
CIRCLES = dict(
    face=(11.0, 14.0, 6.02),        # comes out on the face, above the toe
    toe=(11.0, 12.0, 6.32),         # comes out on the toe platform
    deep=(10.5, 11.0, 6.57),        # deeper, base well below the toe
    small=(9.5, 11.5, 2.5),         # short, near the crest
)


def setup_plane(E, kind, height=3, length=4):
    s = E.ps.Slope(height=height, length=length)
    t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
    ref = Ref(E, t, b, s._external_length, s._external_height)
    cx, cy, r = [E.const(v) for v in CIRCLES[kind]]
    s.add_single_circular_plane(cx, cy, r)
    x0, x1 = ref.crossings(cx, cy, r)
    return s, ref, (x0, x1, cx, cy, r)
