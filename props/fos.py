"""Shared by the checks of single factors of safety: a model with one circular plane and the same for the reference."""
from .refmodel import Ref

# slope (height, length) and planes through (entry x behind the crest, exit x from the crest as a multiple of the
# length, radius as a multiple of the smallest one with its centre not below the entry point)
PLANES = {
    "face": ((3, 4), 1.3, 0.7, 1.5),
    "toe": ((3, 4), 2.2, 1.4, 1.1),
    "deep": ((3, 4), 3.0, 2.2, 1.05),
    "flat": ((3, 4), 1.7, 0.9, 4.0),
    "steep": ((5, 1), 1.5, 0.8, 2.0),
    "steep-toe": ((5, 1), 3.0, 9.0, 1.05),
    "gentle": ((2, 9), 3.0, 0.6, 1.6),
    "gentle-toe": ((2, 9), 2.0, 1.2, 1.2),
    "vertical": ((4, 0), 2.5, 7000.0, 1.05),
}
# below the base of the section
DIP = {
    "dip": ((3, 4), 13.0, 4.0, 1.02, dict(MIN_EXT_L=60)),
}
ALL = {**PLANES, **DIP}


class Case:
    """A slope with one plane, built at the same time for the code and for the reference."""

    def __init__(self, E, plane, slices=10, iterations=0, tolerance=0):
        self.dims, self.back, self.out, self.k, *ext = ALL[plane]
        self.E = E
        self.s = E.ps.Slope(height=self.dims[0], length=self.dims[1])
        if ext:
            self.s.update_boundary_options(**ext[0])
        self.h = E.const(self.dims[0])
        self.n, self.it, self.tol = slices, iterations, tolerance
        self.mats, self.us, self.ls, self.wt = [], [], [], None
        self.opts = dict(slices=slices, max_iterations=iterations, tolerance=tolerance)

    def place(self):
        """Reference and plane for the section as it is now."""
        E, s = self.E, self.s
        t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
        ref = self.ref = Ref(E, t, b, s._external_length, s._external_height)
        ref.materials = sorted(self.mats, key=lambda a: a[0])
        ref.udls = [(q, t[0] - o - l if l else 0, t[0] - o) for q, o, l in self.us]
        ref.lls = [(p, t[0] - o) for p, o in self.ls]
        if self.wt:
            d, f = self.wt
            ref.water = t[1] - d
            if ref.water < 0:
                ref.water = E.const(0)
            ref.factor = 1 / (1 + ref.grad * ref.grad) if f is None else f
        x0, x1 = t[0] - E.const(self.back), t[0] + E.const(self.out) * E.const(max(self.dims[1], 0.001))
        y0, y1 = t[1], ref.ground(x1)
        dx, dy = x1 - x0, y0 - y1
        c2 = dx * dx + dy * dy
        r = c2 / dx / 2 * E.const(self.k)
        up = E.sqrt((r * r - c2 / 4) / c2)
        self.plane = (x0, x1, (x0 + x1) / 2 + dy * up, (y0 + y1) / 2 + dx * up, r)

    def material(self, depth, uw, phi, c):
        E = self.E
        m = E.ps.Material(unit_weight=uw, friction_angle=phi, cohesion=c, depth_to_bottom=depth)
        self.s.set_materials(m)
        self.mats.append((depth, uw, c, E.tan(phi)))
        return m

    def udl(self, q, offset=0, length=None):
        self.s.set_udls(self.E.ps.Udl(magnitude=q, offset=offset, length=length))
        self.us.append((q, offset, length))

    def ll(self, p, offset=0):
        self.s.set_lls(self.E.ps.LineLoad(magnitude=p, offset=offset))
        self.ls.append((p, offset))

    def water(self, depth, factor=None):
        self.s.set_water_table(depth)
        if factor is not None:
            self.s.update_water_analysis_options(auto=False, H=factor)
        self.wt = (depth, factor)

    def strata(self):
        """Two strata, concrete."""
        E = self.E
        self.material(E.const(0.4) * self.h, E.const(18), E.const(28), E.const(3))
        self.material(E.const(1.5) * self.h, E.const(20), E.const(22), E.const(6))

    def reported(self):
        self.place()
        s = self.s
        s.remove_individual_planes()
        s.add_single_circular_plane(*self.plane[2:])
        self.E.check(len(s._individual_planes) == 1, "the plane is accepted")
        s.update_analysis_options(**self.opts)
        s.analyse_slope()
        return s.get_min_FOS() if s._search else None

    def expected(self):
        return self.ref.fos(self.plane, self.n, self.it, self.tol)

    def compare(self, label="factor of safety", tol=1e-6):
        got, want = self.reported(), self.expected()
        self.E.close(got, want, label, tol)
        self.E.observe("fos", got)
        return got
