"""Planted bugs: changes of the real code, each with a demonstration. Read by seedtool.py only."""
P, U, D, V = "pyslope/pyslope.py", "pyslope/utilities.py", "pyslope/data_validation.py", "slope/views.py"
HEAD = """
import io, sys, math
sys.stderr, _e = io.StringIO(), sys.stderr
from pyslope.pyslope import *
from pyslope import pyslope as ps
ps.tqdm = lambda x, *a, **k: x
sys.stderr = _e


def near(a, b, tol=1e-6):
    assert abs(a - b) <= tol, (a, b)


def rejects(f, *a, **k):
    try:
        f(*a, **k)
    except ValueError:
        return True
    return False

"""
SEEDS = []


def seed(id, property, changes, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, changes=changes, needs=needs, breaks=breaks, demo=HEAD.lstrip() + demo.lstrip()))


seed("g01-minlength", "G01", [(P, "tot_l = max(5 * length, MIN_EXT_L, 4 * height)", "tot_l = max(5 * length if length >= height else 0, MIN_EXT_L, 4 * height)")],
     "a slope a little steeper than 45 degrees (length between 0.8 and 1 of the height) that is long enough for the section rule to matter",
     "the section is shorter than 5 slope lengths",
     """
s = Slope(height=6, length=5.5)
assert s._external_length >= 27.5 - 1e-9, s._external_length
""")
seed("g01-extent", "G01", [(P, "        length = max(length, 0.001)\n", "        length = max(round(length, 3), 0.001)\n")],
     "a length with more than three decimals, e.g. any slope given by its angle",
     "the section has a rounded slope length",
     """
s = Slope(height=0.5, angle=80)
t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
near(b[0] - t[0], 0.5 / math.tan(math.radians(80)), 1e-9)
""")
seed("g04-sag", "G04", [(P, "                start_chord_to_edge * (num_circles - i) / num_circles", "                start_chord_to_edge * (num_circles - i) / max(num_circles, 4)")],
     "fewer than 4 circles requested for a pair of points",
     "the steepest circle is missing and the sag does not shrink from the full one",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=5))
t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
s.add_single_entry_exit_plane(t[0] - 2, b[0] + 1, num_circles=2)
p = s._individual_planes[0]
l, r = (t[0] - 2, t[1]), (b[0] + 1, b[1])
d = math.hypot(r[0] - l[0], r[1] - l[1]) / 2
beta = math.atan((l[1] - r[1]) / (r[0] - l[0]))
near(p["radius"], 1.1 * d / math.cos(beta), 1e-6)
""")
seed("s01-equal", "S01", [(P, "        if left_x >= left_x_right or right_x_left >= right_x:", "        if left_x > left_x_right or right_x_left >= right_x:")],
     "left limit and inner left limit exactly equal",
     "limits that cannot be ordered are accepted",
     """
s = Slope(height=3, length=4)
assert rejects(s.set_analysis_limits, left_x=2, left_x_right=2)
assert not rejects(s.set_analysis_limits, left_x=2, left_x_right=3)
""")
seed("s03-circles", "S03", [(P, "num_circles = max(5, int(self._iterations / 800))", "num_circles = max(5, min(int(self._iterations / 800), 24))")],
     "more than 20000 iterations",
     "fewer circles than documented are tried for every pair of points",
     """
s = Slope(height=3, length=4)
s.update_analysis_options(iterations=24000)
n = []
s._generate_planes = lambda l, r, k=5: n.append(k) or []
s._set_entry_exit_planes()
assert set(n) == {30}, set(n)
""")
seed("s03-loadedge", "S03", [(P, "            left_coords += [(ll.coord - 0.001, self._top_coord[1])]", "            left_coords += [(ll.coord - 0.001, self._top_coord[1])] if len(self._lls) == 1 or ll is not self._lls[0] or not self._udls else []")],
     "several line loads together with a uniform load",
     "the plane next to the first line load is not tried",
     """
s = Slope(height=3, length=4)
s.set_lls(LineLoad(5, 1), LineLoad(6, 2))
s.set_udls(Udl(5, 1, 2))
x = []
s._generate_planes = lambda l, r, k=5: x.append(l[0]) or []
s._set_entry_exit_planes()
for p in s._lls:
    assert any(abs(v - (p.coord - 0.001)) < 1e-9 for v in x), p
""")
seed("l01-stale", "L01", [(P, "        # udl coordinates can be effected by external boundary modification\n        # need to update coordinates.\n        self._update_udl_coordinates()\n        self._update_ll_coordinates()\n", "        # udl coordinates can be effected by external boundary modification\n        # need to update coordinates.\n        self._update_udl_coordinates()\n        if not self._udls:\n            self._update_ll_coordinates()\n")],
     "a section change while both kinds of load are on the slope",
     "line loads stay at the old position when the section changes",
     """
s = Slope(height=1, length=1)
s.set_udls(Udl(5, 1, 1))
s.set_lls(LineLoad(5, 1))
s.set_external_boundary(height=5, length=9)
near(s._lls[0].coord, s.get_top_coordinates()[0] - 1)
""")
seed("l02-inside", "L02", [(P, """            overlap = np.clip(
                overlap,
                0.0,
                None,
            )
            W += overlap * udl.magnitude
""", """            overlap = np.clip(
                overlap,
                0.0,
                slice_width,
            )
            overlap[overlap < 1e-2 * slice_width] = 0.0
            W += overlap * udl.magnitude
""")],
     "a load whose edge reaches into a slice by less than a hundredth of its width, with a high pressure",
     "small overlaps of load and slice are dropped from the weight",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=5))
s.update_analysis_options(slices=10, tolerance=1e-9, max_iterations=100)
c = (11.0, 14.0, 6.02)
i = s._get_circle_external_intersection(*c)
w = (i[1][0] - i[0][0]) / 10
f0 = s._analyse_circular_failure_bishop(*c)
t = s.get_top_coordinates()[0]
off = t - (i[0][0] + w)
ln = w * 0.009
s.set_udls(Udl(50000.0, off - ln, ln))
# a load of 0.009 slices just right of the border of the first two slices
assert abs(s._analyse_circular_failure_bishop(*c) - f0) > 1e-6
""")
seed("l04-length", "L04", [(P, "                    and check_udl.magnitude == udl.magnitude\n                    and check_udl.length == udl.length\n", "                    and check_udl.magnitude == udl.magnitude\n                    and (check_udl.length or udl.length) == udl.length\n")],
     "a continuous load and a load of finite length with the same offset and magnitude",
     "removing the finite load removes the continuous one as well",
     """
s = Slope(height=3, length=4)
s.set_udls(Udl(5, 1, None), Udl(5, 1, 2))
s.remove_udls(Udl(5, 1, 2))
assert [u.length for u in s._udls] == [None], s._udls
""")
seed("m01-order", "M01", [(P, "        materials.sort(key=lambda x: x.depth_to_bottom)\n", "        materials.sort(key=lambda x: int(x.depth_to_bottom * 100))\n")],
     "two strata whose depths differ by less than a centimetre, the deeper one given first",
     "strata are not in depth order",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=2.005), Material(depth_to_bottom=2.001))
d = [m.depth_to_bottom for m in s._materials]
assert d == sorted(d), d
""")
seed("m03-firstlayer", "M03", [(P, "            mask = (~assigned) & (mat.RL < slice_y_bottom)\n", "            mask = (~assigned) & (mat.RL < slice_y_bottom - 0.02)\n")],
     "a stratum border less than 2 cm below the base of a slice",
     "slices just above a stratum border use the strength of the stratum below",
     """
c = (11.0, 14.0, 6.02)


def model(d):
    s = Slope(height=3, length=4)
    s.set_materials(Material(18, 30, 2, d), Material(18, 10, 60, 5))
    s.update_analysis_options(slices=10)
    return s


s = model(1.0)
i = s._get_circle_external_intersection(*c)
x = [i[0][0] + (k + 0.5) * (i[1][0] - i[0][0]) / 10 for k in range(10)]
y = [c[1] - math.sqrt(c[2] ** 2 - (v - c[0]) ** 2) for v in x]
base = min(y)
top = s.get_top_coordinates()[1]
# all slice bases are in the first stratum, the lowest by 1 cm
f = model(top - base + 0.01)._analyse_circular_failure_bishop(*c)
g = model(top - base + 1.0)._analyse_circular_failure_bishop(*c)
near(f, g, 1e-9)
""")
seed("m04-tolerance", "M04", [(P, "                if m.depth_to_bottom == depth:\n", "                if abs(m.depth_to_bottom - depth) < 1e-2:\n")],
     "two strata less than a centimetre apart in depth, or a request for a depth close to a stratum",
     "the wrong stratum is removed",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=2.0), Material(depth_to_bottom=2.005), Material(depth_to_bottom=4))
s.remove_material(depth=2.005)
assert [m.depth_to_bottom for m in s._materials] == [2.0, 4], s._materials
""")
seed("w01-manual", "W01", [(P, "            if H > 1:\n                H = 1\n            elif H < 0:\n                H = 0\n", "            if H > 1:\n                H = 1\n            elif H < -1e-9:\n                H = 0 if H > -1 else min(-H - 1, 1) * 0.5\n".replace("H = 0 if H > -1 else min(-H - 1, 1) * 0.5", "H = 0 if H >= -1 else abs(H) % 1"))],
     "a manual head factor below -1",
     "the head factor is not clamped to 0",
     """
s = Slope(height=3, length=4)
s.update_water_analysis_options(auto=False, H=-1.5)
near(s._water_analysis_H, 0)
""")
seed("b01-relative", "B01", [(P, "            if abs(FS - prev_FS) < self._tolerance:", "            if abs(FS - prev_FS) < self._tolerance * max(1.0, FS):")],
     "a plane with a factor of safety well above 1 and an iteration that just misses the tolerance",
     "the iteration stops before the change is below the tolerance",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(18, 40, 60, 5))
c = (11.0, 14.0, 6.02)
s.update_analysis_options(tolerance=1e-12, max_iterations=200)
its = []
for n in range(1, 12):
    s.update_analysis_options(tolerance=0, max_iterations=n)
    its.append(s._analyse_circular_failure_bishop(*c))
d = [abs(a - b) for a, b in zip(its[1:], its)]
for tol in [x * f for x in d if x > 1e-9 for f in (0.9, 0.6, 0.3)]:
    s.update_analysis_options(tolerance=tol, max_iterations=11)
    f = s._analyse_circular_failure_bishop(*c)
    k = next((i for i, x in enumerate(d) if x < tol), None)
    assert k is None or abs(f - its[k + 1]) < 1e-9 or abs(f - its[0]) < 1e-9, (tol, f, its)
""")
seed("b02-negative", "B02", [(P, "            if driving <= 0 or resisting < 0:\n                return None\n", "            if driving <= 0 or (resisting < 0 and cohesion.max() == 0):\n                return None\n")],
     "water pressures exceeding the soil weight in a soil with a little cohesion",
     "negative factors of safety are reported",
     """
worst = 1
for c in (0.01, 0.1, 0.5, 1):
    for circle in [(11.0, 14.0, 6.02), (11.0, 12.0, 6.32), (10.5, 11.0, 6.57), (9.5, 11.5, 2.5)]:
        s = Slope(height=3, length=4)
        s.set_materials(Material(2, 40, c, 5))
        s.set_water_table(0)
        s.update_water_analysis_options(auto=False, H=1)
        f = s._analyse_circular_failure_bishop(*circle)
        if f is not None:
            worst = min(worst, f)
assert worst >= 0, worst
""")
seed("r01-round", "R01", [(P, "        search.sort(key=lambda x: x[\"FOS\"])\n", "        search.sort(key=lambda x: round(x[\"FOS\"], 3))\n")],
     "two planes whose factors of safety differ by less than 0.001",
     "the critical plane is not the one with the lowest factor of safety",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=5))
f = iter([1.2342, 1.2341])
s.add_single_circular_plane(11.0, 14.0, 6.02)
s.add_single_circular_plane(11.0, 12.0, 6.32)
s._analyse_circular_failure_bishop = lambda **k: next(f)
s.analyse_slope()
near(s.get_min_FOS(), 1.2341, 1e-9)
near(s.get_min_FOS_circle()[2], 6.32)
""")
seed("r01-none", "R01", [(P, "        search = list(filter((lambda x: x[\"FOS\"] is not None), self._search))", "        search = list(filter((lambda x: x[\"FOS\"]), self._search))")],
     "a plane with a factor of safety of exactly 0",
     "planes without any resistance are missing in the results",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(18, 0, 0, 5))
s.add_single_circular_plane(11.0, 14.0, 6.02)
s.analyse_slope()
assert len(s._search) == 1 and s.get_min_FOS() == 0
""")
seed("h01-water", "H01", [(P, "        self._water_RL = None\n        self._water_depth = None\n\n        # reset results\n        self._reset_results()\n", "        if self._water_depth is not None:\n            self._reset_results()\n\n        self._water_RL = None\n        self._water_depth = None\n".replace("is not None", "is not None and self._water_analysis_H < 1"))],
     "removing a water table while the manual head factor is 1",
     "results of the model with water are still reported after the water was removed",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=5))
s.set_water_table(1)
s.update_water_analysis_options(auto=False, H=1)
s.add_single_circular_plane(11.0, 14.0, 6.02)
s.analyse_slope()
assert len(s._search) == 1
s.remove_water_table()
assert not s._search
""")
seed("h02-depth", "H02", [(P, "            data_validation.assert_positive_number(depth, \"water depth\")\n            self._water_RL = max(0, self._top_coord[1] - depth)\n            self._water_depth = depth\n", "            self._water_RL = None\n            data_validation.assert_positive_number(depth, \"water depth\")\n            self._water_RL = max(0, self._top_coord[1] - depth)\n            self._water_depth = depth\n")],
     "a rejected water depth on a slope that has a water table",
     "the water table is lost when a new depth is rejected",
     """
s = Slope(height=3, length=4)
s.set_water_table(1)
y = s._water_RL
assert rejects(s.set_water_table, -2)
assert s._water_RL == y
""")
seed("o01-distance", "O01", [(P, "                min_failure_dist, self._external_length * 0.9\n", "                min_failure_dist, self._MIN_EXT_L * 0.9\n")],
     "a minimum failure distance above 90 % of the minimum extent on a longer section",
     "values inside the range are reduced",
     """
s = Slope(height=3, length=8)
s.update_analysis_options(min_failure_dist=20)
near(s._min_failure_distance, 20)
""")
seed("d01-lls", "D01", [(P, "        for ll in lls:\n            if ll.dynamic_offset:\n                ll.offset = offset\n            self.set_lls(ll)\n", "        for ll in lls:\n            if ll.dynamic_offset:\n                ll.offset = offset\n            if ll not in self._lls:\n                self.set_lls(ll)\n")],
     "two equal dynamic line loads",
     "a load is lost in the dynamic analysis",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=5))
s.set_lls(LineLoad(10, 1, dynamic_offset=True), LineLoad(10, 2, dynamic_offset=True))
s.analyse_slope = lambda *a, **k: setattr(s, "_search", [dict(FOS=1.1)])
s.analyse_dynamic(critical_fos=1.3)
assert len(s._lls) == 2, s._lls
""")
seed("v01-range", "V01", [(D, "    if not_low and n == low:\n", "    if not_low and n == low and isinstance(n, type(low)):\n")],
     "a bound given as float (angle=0.0)",
     "an angle of 0.0 is not rejected as out of range (or fails differently)",
     """
assert rejects(Slope, height=1, angle=0.0, length=2)
assert rejects(Slope, height=1, angle=0, length=2)
""")
seed("p01-toe", "P01", [(P, "            is_last = i == num_materials - 1\n\n            if (\n                top[1][1] >= self._bot_coord[1]\n", "            is_last = i == num_materials - 1\n\n            if (\n                top[1][1] > self._bot_coord[1]\n")],
     "a stratum that ends exactly at the level of the toe",
     "the stratum below is not drawn to the end of the section",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=3), Material(depth_to_bottom=5), Material(depth_to_bottom=7))
f = s.plot_boundary(material_table=False)


def area(x, y):
    return abs(sum(x[i] * y[i - 1] - x[i - 1] * y[i] for i in range(len(x)))) / 2


got = sum(area(t.x, t.y) for t in f.data if t.fill)
t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
L = s._external_length
near(got, t[0] * t[1] + (t[1] + b[1]) / 2 * (b[0] - t[0]) + (L - b[0]) * b[1], 1e-6)
""")
seed("p02-strict", "P02", [(P, "            if max_fos is None or FOS < max_fos:\n", "            if max_fos is None or round(FOS, 2) < max_fos:\n")],
     "a factor of safety within 0.005 of the maximum",
     "planes below the maximum are missing (or planes above are drawn)",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=5))
f = iter([1.0, 1.396])
s.add_single_circular_plane(11.0, 14.0, 6.02)
s.add_single_circular_plane(11.0, 12.0, 6.32)
s._analyse_circular_failure_bishop = lambda **k: next(f)
s.analyse_slope()
g = s.plot_all_planes(max_fos=1.4, material_table=False, legend=False)
assert len([t for t in g.data if t.meta and len(t.meta) == 1]) == 2
""")
seed("p03-label", "P03", [(U, "            if decimals[i] == decimals[i + 1] == decimals[i + 2] == \"0\":\n                return i\n", "            if decimals[i] == decimals[i + 1] == \"0\":\n                return i\n")],
     "a magnitude with two zeros after the point followed by other digits, e.g. 2.003",
     "load labels are rounded too much",
     """
import re
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=5))
s.set_udls(Udl(2.0039, 1, 2))
f = s.plot_boundary(material_table=False)
v = [float(re.search(r"[0-9.]+", a.text).group(0)) for a in f.layout.annotations if "kPa" in a.text]
assert len(v) == 1 and abs(v[0] - 2.0039) <= 0.001, v
""")
seed("p03-water", "P03", [(P, "            x_line += [self._bot_coord[0], self._external_length]\n            y_line += [self._bot_coord[1], self._bot_coord[1]]\n", "            x_line += [self._bot_coord[0], self._external_length]\n            y_line += [min(y - 0.05, self._bot_coord[1]), self._bot_coord[1]]\n")],
     "a water table that meets the face just above the toe",
     "the water table is drawn below the ground at the toe",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=5))
s.set_water_table(2.97)
f = s.plot_boundary(material_table=False)
w = [t for t in f.data if t.line.color == "blue"][0]
near(w.x[-1], s._external_length)
near(w.y[-2], s._bot_coord[1])
""")
seed("g02-crest", "G02", [(P, "        elif y < self._external_height:\n", "        elif y < self._external_height - 1e-3:\n")],
     "a level less than a millimetre below the crest, e.g. a very shallow water table",
     "no surface position is returned for a level between toe and crest",
     """
s = Slope(height=3, length=4)
y = s.get_top_coordinates()[1] - 0.0005
near(s.get_external_x_intersection(y), s.get_top_coordinates()[0] + 0.0005 / 0.75, 1e-9)
""")
seed("g03-close", "G03", [(P, "            if abs(i[0] - x) > 0.01:\n", "            if abs(i[0] - x) > 0.1:\n")],
     "a small circle whose crossings are between 1 and 10 cm apart",
     "the circle is not accepted as a failure plane",
     """
s = Slope(height=3, length=4)
t = s.get_top_coordinates()
l, r = (t[0] - 0.03, t[1]), (t[0] + 0.03, t[1] - 0.03 * 0.75)
mx, my, dx, dy = (l[0] + r[0]) / 2, (l[1] + r[1]) / 2, r[0] - l[0], r[1] - l[1]
cy = t[1] + 0.5
cx = mx - (cy - my) * dy / dx
s.add_single_circular_plane(cx, cy, math.hypot(cx - l[0], cy - l[1]))
assert len(s._individual_planes) == 1
near(s._individual_planes[0]["l_c"][0], l[0], 1e-6)
near(s._individual_planes[0]["r_c"][0], r[0], 1e-6)
""")
seed("l01-extend", "L01", [(P, "min_length = (udl.offset + (udl.length or 3)) * 2.5", "min_length = (udl.offset + (udl.length or 3)) * 2.2")],
     "a load on a section that is only just extended for it, with a wide face",
     "part of the load is cut off at the left end of the section",
     """
s = Slope(height=1, length=2)
s.set_udls(Udl(5, 1, 4))
u = s._udls[0]
near(u.right - u.left, 4)
""")
seed("m02-lastlayer", "M02", [(P, "        bottoms[-1] = -np.inf\n", "        bottoms[-1] = 0.0 if len(bottoms) > 1 else -np.inf\n"), ],
     "more than one stratum and a circle that dips below the base of the section",
     "soil below the base of the section has no weight",
     """
def fos(*m):
    s = Slope(height=1, length=1)
    s.update_boundary_options(MIN_EXT_L=40)
    s.set_materials(*m)
    return s._analyse_circular_failure_bishop(20.2, 7.0, 8.0)


a = fos(Material(18, 30, 5, 1.5))
b = fos(Material(18, 30, 5, 1.5), Material(18, 30, 5, 3.0))
near(a, b, 1e-9)
""")
seed("w02-suction", "W02", [(P, """            head = np.maximum(
                np.minimum(
                    self._water_RL,
                    slice_y_top,
                )
                - slice_y_bottom,
                0.0,
            )
            U = (
                head
                * 9.81
                * slice_width
""", """            head = (
                np.minimum(
                    self._water_RL,
                    slice_y_top,
                )
                - slice_y_bottom
            )
            head = np.where(slice_x < bot_x, np.maximum(head, 0.0), head)
            U = (
                head
                * 9.81
                * slice_width
""")],
     "a water table below the toe and a plane that leaves the ground beyond the toe",
     "slices beyond the toe whose base is above the water table get a negative pore pressure (suction)",
     """
c = (11.0, 14.0, 7.28)


def fos(w):
    s = Slope(height=3, length=4)
    s.set_materials(Material(18, 30, 5, 5))
    if w:
        s.set_water_table(w)
    return s._analyse_circular_failure_bishop(*c)


near(fos(8.9), fos(None), 1e-9)
""")
seed("h03-load", "H03", [(P, "                    if self._MIN_EXT_L < min_length:\n                        self.update_boundary_options(MIN_EXT_L=min_length)\n\n        self._update_udl_coordinates()", "                    if self._external_length < min_length:\n                        self.update_boundary_options(MIN_EXT_L=min_length)\n\n        self._update_udl_coordinates()")],
     "a load assigned while the section is large, and a smaller section set afterwards",
     "the section depends on the order of load and geometry",
     """
a, b = Slope(height=3, length=4), Slope(height=3, length=4)
a.set_udls(Udl(5, 2, 4))
a.set_external_boundary(height=1, length=1)
b.set_external_boundary(height=1, length=1)
b.set_udls(Udl(5, 2, 4))
near(a._external_length, b._external_length)
""")
seed("h04-iterations", "H04", [(P, "            self._max_iterations = max_iterations\n", "            type(self)._max_iterations = max_iterations\n")],
     "two slopes of which one changes its maximum number of iterations",
     "the option applies to every slope in the program",
     """
a, b = Slope(height=3, length=4), Slope(height=3, length=4)
a.update_analysis_options(max_iterations=1)
assert b._max_iterations == 15
""")
seed("d01-report", "D01", [(P, "            fos = self.get_min_FOS()\n            self._dynamic_results[midpoint] = fos\n\n            # check if load is within", "            fos = self.get_min_FOS()\n            if fos >= critical_fos:\n                self._dynamic_results[midpoint] = fos\n            else:\n                self._dynamic_results.setdefault(midpoint, max(fos, self._dynamic_results[right]))\n\n            # check if load is within")],
     "a trial that is less safe than the one with the loads at the crest (a load that acts most behind the crest)",
     "the factor of safety reported for a tried offset is not the one found",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=5))
s.set_udls(Udl(20, 1, 2, dynamic_offset=True))
found = {}


def analyse(*a, **k):
    o = s._udls[0].offset
    found[o] = 1.2 if o == 0 else 1.6 if len(found) == 1 else 1.0 + 0.1 * len(found)
    found[o] = 1.1 if len(found) == 3 else found[o]
    s._search = [dict(FOS=found[o])]


s.analyse_slope = analyse
s.analyse_dynamic(critical_fos=1.3)
for o, f in found.items():
    near(s.get_dynamic_results()[o], f)
""")
WEB = """
import os, types
os.environ.setdefault("SECRET_KEY", "x")
os.environ.setdefault("DJANGO_SETTINGS_MODULE", "engineering.settings")
import django
django.setup()
import slope.views as v
N = types.SimpleNamespace


def forms(**k):
    d = dict(height=3.0, length=4.0, angle=45.0, choice="length", water=(False, 1.0), lim=dict(consider_limits=False, consider_internal_limits=False,
             left_x=1.0, left_x_right=5.0, right_x_left=9.0, right_x=15.0), analysis="normal", mats=[{}], udls=[], lls=[])
    d.update(k)
    from decimal import Decimal
    return [N(cleaned_data=x) for x in (
        dict(height=d["height"], length=d["length"], angle=d["angle"]), d["mats"], d["udls"], d["lls"],
        dict(consider_water=d["water"][0], water_depth=d["water"][1]), d["lim"],
        dict(slope_choice=d["choice"], slices=10, iterations=500, analysis_choice=d["analysis"], critical_FOS=Decimal("1.3")))]


def build(**k):
    old = v.Slope.analyse_slope
    v.Slope.analyse_slope = lambda s, *a, **q: setattr(s, "_search", [])
    try:
        return v.create_slope(*forms(**k))
    finally:
        v.Slope.analyse_slope = old

"""
seed("u01-inner", "U01", [(V, "                right_x=limits[\"right_x\"],\n                left_x_right=limits[\"left_x_right\"],\n                right_x_left=limits[\"right_x_left\"],\n", "                right_x=limits[\"right_x\"],\n                left_x_right=limits[\"left_x_right\"],\n                right_x_left=max(limits[\"right_x_left\"], limits[\"left_x_right\"] + 1),\n")],
     "internal limits less than a metre apart",
     "the inner right limit is not the entered one",
     WEB + """
s = build(lim=dict(consider_limits=True, consider_internal_limits=True, left_x=1.0, left_x_right=8.0, right_x_left=8.5, right_x=15.0))
assert s._limits == [1.0, 8.0, 8.5, 15.0], s._limits
""")
seed("u01-lineload", "U01", [(V, "                    color=line_load_form[\"color\"],\n                    dynamic_offset=line_load_form[\"dynamic_offset\"],\n", "                    color=line_load_form[\"color\"],\n                    dynamic_offset=line_load_form[\"dynamic_offset\"]\n                    and not any(f and f[\"dynamic_offset\"] for f in udl_formset.cleaned_data),\n")],
     "a dynamic line load together with a dynamic uniform load",
     "the line load is not moved in the dynamic analysis",
     WEB + """
s = build(udls=[dict(magnitude=5.0, offset=1.0, length=2.0, color="red", dynamic_offset=True)],
          lls=[dict(magnitude=5.0, offset=1.0, color="blue", dynamic_offset=True)])
assert s._lls[0].dynamic_offset
""")
seed("u02-order", "U02", [(V, "    traces.reverse()\n", "    traces.sort(key=lambda t: -t[\"meta\"][0])\n")],
     "two planes whose factors of safety agree to three decimals",
     "the more critical plane is drawn below the other one",
     WEB + """
import json
from plotly import graph_objects as go
got = []
go.Figure.to_image = lambda f, *a, **k: got.append(f) or b"%PDF"
P = [dict(FOS=f, c_x=11.0, c_y=14.0, radius=r, l_c=[11 - (r * r - 25) ** 0.5, 9.0], r_c=[11 + (r * r - 36) ** 0.5, 8.0]) for f, r in ((1.0001, 6.02), (1.0002, 6.5))]
v.pdf(N(session=dict(plot_json=go.Figure().to_json(), search=P)), "2")
x = [t.x[0] for t in got[0].data]
near(x[-1], P[0]["l_c"][0])
""")
seed("u02-maximum", "U02", [(V, "        if FOS < max_fos:\n", "        if FOS <= max_fos:\n")],
     "a stored plane whose factor of safety equals the requested maximum",
     "a plane that is not below the maximum is drawn",
     WEB + """
from plotly import graph_objects as go
got = []
go.Figure.to_image = lambda f, *a, **k: got.append(f) or b"%PDF"
P = [dict(FOS=f, c_x=11.0, c_y=14.0, radius=6.02, l_c=[7.65, 9.0], r_c=[11.5, 8.0]) for f in (1.0, 1.5)]
v.pdf(N(session=dict(plot_json=go.Figure().to_json(), search=P)), "1.5")
assert len(got[0].data) == 1
""")

# ---- second round
seed("s02-keep", "S02", [(P, "        # reset limits\n        self.remove_analysis_limits()\n", "        # reset limits\n        old = getattr(self, \"_limits\", None)\n        if not old or old[0] == 0 or old[3] > tot_l:\n            self.remove_analysis_limits()\n")],
     "limits that were set before a load makes the section longer",
     "the old limits stay although the section (and its crest) moved below them",
     """
s = Slope(height=3, length=4)
s.set_analysis_limits(left_x=2, right_x=15)
s.set_udls(Udl(magnitude=10, offset=5, length=8))
t = s.get_top_coordinates()
assert s._limits == [0, t[0], t[0], s._external_length], s._limits
""")
seed("l03-break", "L03", [(P, "            if np.any(mask):\n                W[mask] += ll.magnitude\n", "            if not np.any(mask):\n                break\n            W[mask] += ll.magnitude\n")],
     "a line load outside of the failure plane assigned before one inside of it",
     "the second load is not counted",
     """
def fos(*lls):
    s = Slope(height=3, length=4)
    s.set_materials(Material(depth_to_bottom=10))
    s.set_lls(*lls)
    t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
    s.add_single_entry_exit_plane(t[0] - 2, b[0] + 1, num_circles=1)
    s.analyse_slope()
    return s.get_min_FOS()
near(fos(LineLoad(magnitude=50, offset=1)), fos(LineLoad(magnitude=50, offset=3.5), LineLoad(magnitude=50, offset=1)), 1e-9)
""")
seed("l04-round", "L04", [(P, "                if (\n                    check_ll.offset == ll.offset\n", "                if (\n                    round(check_ll.offset, 2) == round(ll.offset, 2)\n")],
     "two line loads of the same magnitude less than a centimetre apart",
     "removing one removes the other too",
     """
s = Slope(height=3, length=4)
s.set_lls(LineLoad(magnitude=5, offset=1.001), LineLoad(magnitude=5, offset=1.004))
s.remove_lls(LineLoad(magnitude=5, offset=1.001))
assert [l.offset for l in s._lls] == [1.004], s._lls
""")
seed("h04-cache", "H04", [(P, "    def _get_circle_external_intersection(\n", "    _known = {}\n\n    def _get_circle_external_intersection(self, c_x, c_y, radius):\n        key = (c_x, c_y, radius, self._top_coord)\n        if key not in Slope._known:\n            Slope._known[key] = self._circle_external_intersection(*key[:3])\n        return list(Slope._known[key])\n\n    def _circle_external_intersection(\n")],
     "two slopes whose crests are at the same coordinates but whose toes are not, with the same circle",
     "the second slope uses the crossings of the circle with the ground of the first one",
     """
def model(h):
    s = Slope(height=h, length=4)
    s.set_materials(Material(depth_to_bottom=8))
    s.add_single_circular_plane(11, 13, 6)
    s.analyse_slope()
    return s
a = model(1.5)
b = model(2)
assert a.get_top_coordinates() == b.get_top_coordinates()
r = b.get_min_FOS_end_points()[1]
near(r[1], b.get_external_y_intersection(r[0]))
near((r[0] - 11) ** 2 + (r[1] - 13) ** 2, 36)
""")
seed("h01-tolerance", "H01", [(P, "        if max_iterations is not None:\n            self._max_iterations = max_iterations\n\n        # reset results\n        self._reset_results()\n", "        if max_iterations is not None:\n            self._max_iterations = max_iterations\n\n        # reset results\n        if (slices, iterations, min_failure_dist) != (None, None, None) or max_iterations:\n            self._reset_results()\n")],
     "a change of nothing but the tolerance after an analysis",
     "results of the analysis with the old tolerance are still reported",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=10))
s.add_single_entry_exit_plane(s.get_top_coordinates()[0] - 2, s.get_bottom_coordinates()[0] + 1)
s.analyse_slope()
s.update_analysis_options(tolerance=0.5)
try:
    s.get_min_FOS()
except IndexError:
    pass
else:
    raise AssertionError("stale factor of safety")
""")
seed("w01-zero", "W01", [(P, "        if depth is None:\n            self.remove_water_table()\n", "        if not depth:\n            self.remove_water_table()\n")],
     "a water table at the level of the crest (depth 0)",
     "there is no water table at all",
     """
s = Slope(height=3, length=4)
s.set_water_table(0)
assert s._water_RL == s.get_top_coordinates()[1], s._water_RL
""")
seed("m01-dup", "M01", [(P, "        # check material depth unique\n        if len(depths) > len(set(depths)):\n", "        # check material depth unique\n        if any(a == b for a, b in zip(depths[::2], depths[1::2])):\n")],
     "two equal depths that are the 2nd and 3rd (4th and 5th, ...) stratum",
     "two strata of equal depth are accepted",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=1), Material(depth_to_bottom=2))
assert rejects(s.set_materials, Material(depth_to_bottom=2))
""")
seed("p02-dip", "P02", [(P, "                    if x[i] <= r_c[0] and x[i] >= l_c[0] and y[i] <= l_c[1]:\n", "                    if x[i] <= r_c[0] and x[i] >= l_c[0] and r_c[1] <= y[i] <= l_c[1]:\n")],
     "the plot of all planes with a plane that dips below its exit point",
     "the part of the circle below the exit point is cut off by a straight line",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=20))
t, b = s.get_top_coordinates(), s.get_bottom_coordinates()
s._search = [dict(FOS=f, c_x=t[0] + 3, c_y=t[1] + 2, radius=6.0, l_c=(t[0] + 3 - 32 ** 0.5, t[1]), r_c=(t[0] + 3 + 11 ** 0.5, b[1])) for f in (1.0, 1.5)]
f = s.plot_all_planes()
assert min(f.data[-1].y) < b[1] - 0.5, min(f.data[-1].y)
""")
seed("u01-waterzero", "U01", [(V, "    if water_table_form.cleaned_data[\"consider_water\"]:\n        slope.set_water_table(water_table_form.cleaned_data[\"water_depth\"])\n", "    water_depth = water_table_form.cleaned_data[\"water_depth\"]\n    if water_table_form.cleaned_data[\"consider_water\"] and water_depth:\n        slope.set_water_table(water_depth)\n")],
     "a water table entered at depth 0",
     "the model has no water table",
     WEB + """
s = build(water=(True, 0.0))
assert s._water_RL == s._top_coord[1], s._water_RL
""")
seed("u02-round", "U02", [(V, "                    \"meta\": [round(FOS, 3)],\n", "                    \"meta\": [min(round(FOS, 3), MAX_COLOUR_KEY)],\n")],
     "a plane with a factor of safety above 5 and a requested maximum above that",
     "the plane is labelled 5.0",
     WEB + """
from plotly import graph_objects as go
got = []
go.Figure.to_image = lambda f, *a, **k: got.append(f) or b"%PDF"
P = [dict(FOS=6.25, c_x=11.0, c_y=14.0, radius=6.02, l_c=[7.65, 9.0], r_c=[11.5, 8.0])]
v.pdf(N(session=dict(plot_json=go.Figure().to_json(), search=P)), "7")
near(got[0].data[0].meta[0], 6.25)
""")
seed("v01-udl", "V01", [(P, "        if self.length:\n            data_validation.assert_number(self.length, \"load length\")\n            self.length = abs(self.length)\n", "        if self.length and self.length is not True:\n            data_validation.assert_number(self.length, \"load length\")\n            self.length = max(abs(self.length), 0.001)\n")],
     "a uniform load shorter than a millimetre",
     "the length of the load is not the given one",
     """
assert Udl(magnitude=5, offset=1, length=-0.0004).length == 0.0004
""")

# ---- third round
seed("p04-sticky", "P04", [(P, "            else:\n                material.color = MATERIAL_COLORS[i % 10]\n", "            elif material.color not in MATERIAL_COLORS:\n                material.color = MATERIAL_COLORS[i % 10]\n")],
     "a stratum that is added above one that was coloured automatically before",
     "two strata have the same automatic colour",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=5))
s.set_materials(Material(depth_to_bottom=1))
fig = s.plot_boundary()
c = [t.fillcolor for t in fig.data if t.fill]
assert len(set(c)) == 2, c
""")
seed("p04-decimals", "P04", [(P, "            data = [m.name, \"red\", m.unit_weight, m.cohesion, m.friction_angle]\n", "            data = [m.name, \"red\"] + [\n                f\"{value:.3g}\"\n                for value in (m.unit_weight, m.cohesion, m.friction_angle)\n            ]\n")],
     "a value with more than three significant digits",
     "the table shows another value than that of the stratum",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(unit_weight=19.27, depth_to_bottom=5))
t = [str(a.text) for a in s.plot_boundary().layout.annotations]
assert any("19.27" in x for x in t), t
""")
seed("u03-reset", "U03", [(V, "    request.session[\"forms\"] = []\n    request.session[\"plot_json\"] = []\n    request.session[\"search\"] = []\n", "    request.session[\"forms\"] = []\n"),
                          (V, "            request.session[\"search\"] = search\n            request.session[\"plot_json\"] = plot_json\n            request.session[\"forms\"] = request.POST\n\n        return render(", "            request.session.setdefault(\"search\", search)\n            request.session.setdefault(\"plot_json\", plot_json)\n            request.session[\"forms\"] = request.POST\n\n        return render(")],
     "a submission, then a reset, then the report",
     "the report after a reset is still that of the model entered before it",
     WEB + """
from plotly import graph_objects as go
got = []
go.Figure.to_image = lambda f, *a, **k: got.append(f) or b"%PDF"
v.redirect = lambda to, *a, **k: to
v.render = lambda r, t, c=None, **k: c
old = [dict(FOS=0.111, c_x=11.0, c_y=14.0, radius=6.02, l_c=[7.65, 9.0], r_c=[11.5, 8.0])]
session = dict(forms={"a": "b"}, search=old, plot_json=go.Figure().to_json())
v.reset(N(method="GET", session=session))
v.index(N(method="GET", session=session, POST={}))
v.pdf(N(method="GET", session=session), "5")
assert not got or not any(t.meta and 0.111 in list(t.meta) for t in got[0].data)
""")
seed("u03-nothing", "U03", [(V, "            search = slope._search\n\n            request.session[\"search\"] = search\n            request.session[\"plot_json\"] = plot_json\n            request.session[\"forms\"] = request.POST\n\n            return render(", "            search = slope._search\n\n            if search:\n                request.session[\"search\"] = search\n                request.session[\"plot_json\"] = plot_json\n                request.session[\"forms\"] = request.POST\n\n            return render(")],
     "a submission without any plane to show after one with planes",
     "the page and the report go back to the model entered before",
     WEB + """
from plotly import graph_objects as go
v.redirect = lambda to, *a, **k: to
v.render = lambda r, t, c=None, **k: c
old = [dict(FOS=0.111, c_x=11.0, c_y=14.0, radius=6.02, l_c=[7.65, 9.0], r_c=[11.5, 8.0])]
session = dict(forms={"a": "b"}, search=old, plot_json=go.Figure().to_json())
F = type("F", (), dict(__init__=lambda s, *a, **k: None, is_valid=lambda s: True, cleaned_data={}))
for n in ("SlopeForm", "WaterTableForm", "LimitsForm", "AnalysisOptionsForm"):
    setattr(v, n, F)
v.modelformset_factory = lambda *a, **k: F
v.create_slope = lambda *a: Slope(height=3, length=4)
v.index(N(method="POST", session=session, POST={"a": "c"}))
assert session["search"] != old
""")
seed("r01-same", "R01", [(P, "        search.sort(key=lambda x: x[\"FOS\"])\n        if max_fos:", "        search = sorted(\n            {x[\"FOS\"]: x for x in search}.values(), key=lambda x: x[\"FOS\"]\n        )\n        if max_fos:")],
     "two planes with exactly the same factor of safety, e.g. the same plane added twice or frictional soil",
     "one of the planes is not reported",
     """
s = Slope(height=3, length=4)
s.set_materials(Material())
for _ in range(2):
    s.add_single_circular_plane(11, 14, 6.02)
s.analyse_slope()
assert len(s._search) == 2, len(s._search)
""")
seed("l03-same", "L03", [(P, "        for ll in self._lls:\n            mask = (xl <= ll.coord) & (ll.coord < xr)\n", "        for ll in {ll.coord: ll for ll in self._lls}.values():\n            mask = (xl <= ll.coord) & (ll.coord < xr)\n"),
                         (P, "        for ll in self._lls:\n            mask = (x_left <= ll.coord) & (ll.coord < x_right)\n", "        for ll in {ll.coord: ll for ll in self._lls}.values():\n            mask = (x_left <= ll.coord) & (ll.coord < x_right)\n")],
     "two line loads at the same position",
     "only one of them acts",
     """
def fos(*ms):
    s = Slope(height=3, length=4)
    s.set_materials(Material())
    s.set_lls(*[LineLoad(magnitude=m, offset=1) for m in ms])
    s.add_single_circular_plane(10, 14, 6.02)
    s.analyse_slope()
    return s.get_min_FOS()


near(fos(20, 20), fos(40))
""")
seed("b01-two", "B01", [(P, "        for _ in range(self._max_iterations):\n            if prev_FS is None:", "        for _ in range(max(self._max_iterations, 2)):\n            if prev_FS is None:")],
     "a single Bishop iteration asked for",
     "two iterations are done",
     """
def fos(n):
    s = Slope(height=3, length=4)
    s.update_analysis_options(max_iterations=n, tolerance=1e-12)
    s.set_materials(Material())
    s.add_single_circular_plane(10, 14, 6.02)
    s.analyse_slope()
    return s.get_min_FOS()


assert abs(fos(1) - fos(2)) > 1e-4
""")
seed("h02-water", "H02", [(P, "        if depth is None:\n            self.remove_water_table()\n        else:\n            data_validation.assert_positive_number(depth, \"water depth\")\n", "        self.remove_water_table()\n        if depth is not None:\n            data_validation.assert_positive_number(depth, \"water depth\")\n")],
     "a water table that is set after a valid one and rejected",
     "the valid water table is gone",
     """
s = Slope(height=3, length=4)
s.set_water_table(1)
assert rejects(s.set_water_table, -1)
assert s._water_RL == s._top_coord[1] - 1
""")
seed("s01-pair", "S01", [(P, "        if left_x_right is None:\n            left_x_right = self._limits[1]\n        else:", "        if left_x_right is None:\n            left_x_right = max(self._limits[1], min(left_x + 1, self._top_coord[0]))\n        else:")],
     "an outer left limit less than a metre from the inner one that was set in an earlier call",
     "the inner limit moves although it was not given",
     """
s = Slope(height=3, length=4)
s.set_analysis_limits(left_x_right=3)
s.set_analysis_limits(left_x=2.5)
assert s._limits[1] == 3, s._limits
""")
seed("p03-marks", "P03", [(P, "        if self._limits[1] != self._limits[2]:\n", "        if self._limits[1] < self._top_coord[0]:\n")],
     "an inner right limit alone, the inner left one at the crest",
     "the inner limits are not marked",
     """
s = Slope(height=3, length=4)
s.set_materials(Material())
s.set_analysis_limits(right_x_left=13)
xs = [a.x for a in s.plot_boundary().layout.annotations if a.text == "|"]
assert any(abs(x - 13) < 1e-9 for x in xs if x is not None), xs
""")
seed("p02-first", "P02", [(P, "        for i in tqdm(self._search):\n            FOS = i[\"FOS\"]\n            if max_fos is None or FOS < max_fos:\n                c_x = i[\"c_x\"]", "        for i in tqdm(self._search):\n            FOS = i[\"FOS\"]\n            # the critical plane is drawn already\n            if FOS > self._search[0][\"FOS\"] and (\n                max_fos is None or FOS < max_fos\n            ):\n                c_x = i[\"c_x\"]")],
     "another plane with the same factor of safety as the critical one",
     "the other plane is not drawn",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(friction_angle=0, cohesion=10, depth_to_bottom=20))
s._search = [dict(FOS=1.25, c_x=11.0, c_y=14.0, radius=r, l_c=(11 - (r * r - 25) ** 0.5, 9.0), r_c=(11 + (r * r - 36) ** 0.5, 8.0)) for r in (6.02, 6.5)]
fig = s.plot_all_planes()
assert any(t.x is not None and len(t.x) > 5 and abs(t.x[0] - s._search[1]["l_c"][0]) < 1e-9 for t in fig.data)
""")
seed("m04-same", "M04", [(P, "        if material and isinstance(material, Material):\n            depth = material.depth_to_bottom\n", "        if material and isinstance(material, Material):\n            if material not in self._materials:\n                return\n            depth = material.depth_to_bottom\n")],
     "a stratum described by an equal material that was created anew, after the original got its colour and level",
     "the stratum is not removed",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(depth_to_bottom=2), Material(depth_to_bottom=5))
s.remove_material(Material(depth_to_bottom=2))
assert len(s._materials) == 1, s._materials
""")
seed("u03-visitors", "U03", [(V, "    plot = from_json(request.session[\"plot_json\"])\n    search = list(eval(str(request.session[\"search\"])))\n", "    if \"search\" not in LATEST:\n        LATEST.update(plot=request.session[\"plot_json\"], search=request.session[\"search\"])\n    plot = from_json(LATEST[\"plot\"])\n    search = list(LATEST[\"search\"])\n"),
                              (V, "MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)\n", "MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)\nLATEST = {}\n"),
                              (V, "            search = slope._search\n\n            request.session[\"search\"] = search\n", "            search = slope._search\n            LATEST.update(plot=plot_json, search=search)\n\n            request.session[\"search\"] = search\n"),
                              (V, "            search = slope._search\n\n            plot_json = (\n                slope.plot_critical().update_layout(height=1200, width=2000).to_json()\n            )\n", "            search = slope._search\n\n            plot_json = (\n                slope.plot_critical().update_layout(height=1200, width=2000).to_json()\n            )\n            LATEST.update(plot=plot_json, search=search)\n")],
     "two visitors: one submits, then the other, then the first asks for the report",
     "the report of the first visitor shows the planes of the second",
     WEB + """
from plotly import graph_objects as go
got = []
go.Figure.to_image = lambda f, *a, **k: got.append(f) or b"%PDF"
v.redirect = lambda to, *a, **k: to
def visit(fos):
    old = [dict(FOS=fos, c_x=11.0, c_y=14.0, radius=6.02, l_c=[7.65, 9.0], r_c=[11.5, 8.0])]
    v.pdf(N(method="GET", session=dict(forms={"a": "b"}, search=old, plot_json=go.Figure().to_json())), "5")
    return any(t.meta and abs(t.meta[0] - fos) < 1e-6 for t in got[-1].data)
assert visit(1.111)
assert visit(1.222)
""")
seed("u03-large", "U03", [(V, "            search = slope._search\n\n            request.session[\"search\"] = search\n", "            search = slope._search[:100]\n\n            request.session[\"search\"] = search\n")],
     "a submission for which more than 100 planes are found",
     "the page and the report show only the most critical hundred",
     WEB + """
v.redirect = lambda to, *a, **k: to
v.render = lambda r, t, c=None, **k: c
F = type("F", (), dict(__init__=lambda s, *a, **k: None, is_valid=lambda s: True, cleaned_data={}))
for n in ("SlopeForm", "WaterTableForm", "LimitsForm", "AnalysisOptionsForm"):
    setattr(v, n, F)
v.modelformset_factory = lambda *a, **k: F
def model(*a):
    s = Slope(height=3, length=4)
    s.set_materials(Material())
    s.update_analysis_options(iterations=500, slices=10)
    s.analyse_slope()
    model.n = len(s._search)
    return s
v.create_slope = model
session = {}
v.index(N(method="POST", session=session, POST={"a": "c"}))
assert len(session["search"]) == model.n > 100, (len(session["search"]), model.n)
""")
POSTED = """
from django.test import RequestFactory
from django.contrib.sessions.backends.signed_cookies import SessionStore
v.redirect = lambda to, *a, **k: to
v.render = lambda r, t, c=None, **k: c


def field_data(**given):
    d = {}
    for key, cls in (("slope", v.SlopeForm), ("watertable", v.WaterTableForm), ("limits", v.LimitsForm), ("options", v.AnalysisOptionsForm)):
        for b in cls(prefix=key):
            x = b.initial
            d[b.html_name] = "" if x is None or x is False else str(x[0] if isinstance(x, tuple) else x)
    for key in ("material", "udl", "lineload"):
        d.update({key + "-TOTAL_FORMS": "0", key + "-INITIAL_FORMS": "0", key + "-MIN_NUM_FORMS": "0", key + "-MAX_NUM_FORMS": "1000"})
    d.update({"material-TOTAL_FORMS": "1", "material-0-unit_weight": "19", "material-0-friction_angle": "30", "material-0-cohesion": "2", "material-0-depth_to_bottom": "5",
              "material-0-color": "red", "material-0-name": ""})
    d.update({"options-slope_choice": "length", "options-analysis_choice": "normal", "options-iterations": "500", "options-slices": "10"})
    d.update({k.replace("__", "-"): x for k, x in given.items()})
    return d


def post(**given):
    r = RequestFactory().post("/", field_data(**given))
    r.session = {}
    return v.index(r)

"""
seed("u04-angle", "U04", [(V, "            length=None,\n            angle=slope_form.cleaned_data[\"angle\"],\n", "            length=slope_form.cleaned_data[\"height\"]\n            / tan(radians(slope_form.cleaned_data[\"angle\"])),\n"),
                          (V, "# import backend section of code\nimport os\n", "# import backend section of code\nimport os\nfrom math import radians, tan\n")],
     "a slope given by an angle of 0 degrees",
     "the page fails with a server error instead of going back to the main page",
     WEB + POSTED + """
assert isinstance(post(options__slope_choice="angle", slope__angle="30"), dict)
assert post(options__slope_choice="angle", slope__angle="0") == "reset"
""")
seed("u04-dynamic", "U04", [(V, "            )\n        except Exception:\n", "            )\n        except (ValueError, ZeroDivisionError):\n")],
     "a dynamic analysis of a model without strata, which has no failure planes",
     "the page fails with a server error instead of showing the model without planes",
     WEB + POSTED + """
page = post(options__analysis_choice="dynamic", options__critical_FOS="1.3", material__TOTAL_FORMS="0")
assert isinstance(page, dict) and len(page["search"]) == 0, page
""")
seed("u04-limits", "U04", [(V, "    if limits[\"consider_limits\"]:\n        if limits[\"consider_internal_limits\"]:\n", "    if limits[\"consider_limits\"]:\n        assert limits[\"left_x\"] < limits[\"right_x\"], \"limits are in the wrong order\"\n        if limits[\"consider_internal_limits\"]:\n")],
     "limits submitted in the wrong order",
     "the page fails with a server error instead of going back to the main page",
     WEB + POSTED + """
ok = post(limits__consider_limits="on", limits__left_x="1", limits__right_x="5")
assert isinstance(ok, dict), ok
assert post(limits__consider_limits="on", limits__left_x="5", limits__right_x="1") == "reset"
""")
seed("p05-floor", "P05", [(P, "            color = COLOUR_FOS_DICT[round(FOS, 1)]\n", "            color = COLOUR_FOS_DICT[int(FOS * 10) / 10]\n")],
     "a critical factor of safety that is rounded up to the next tenth",
     "the critical plane has the colour of the tenth below, unlike the planes beside it and the legend",
     """
s = Slope(height=3, length=4)
s.set_materials(Material())
for fos, key in ((1.12, 1.1), (1.17, 1.2), (2.96, 3.0)):
    s._search = [dict(FOS=fos, c_x=11.0, c_y=14.0, radius=6.02, l_c=(7.0, 9.0), r_c=(11.5, 8.0))]
    f = s.plot_critical(legend=True)
    c = [t.line.color for t in f.data if t.line.color and not t.fill]
    assert COLOUR_FOS_DICT[key] in c, (fos, c)
""")
seed("p03-arrow", "P03", [(P, "            color=udl.color,\n            arrowlength=100 * (udl.magnitude / self._udl_max),\n            show_values=False,\n            units=\"kN\",\n            arrowhead=10,\n        )\n",
                           "            color=udl.color,\n            arrowlength=100 * (udl.magnitude / self._udls[0].magnitude),\n            show_values=False,\n            units=\"kN\",\n            arrowhead=10,\n        )\n")],
     "several uniform loads of which the first is not the largest",
     "the arrows at the right edges of the loads are longer than the loads are drawn",
     """
s = Slope(height=3, length=4)
s.update_boundary_options(MIN_EXT_L=40)
s.set_materials(Material())
s.set_udls(Udl(magnitude=10, offset=1, length=2), Udl(magnitude=40, offset=5, length=2))
f = s.plot_boundary(material_table=False)
height = max(a.y1 for a in f.layout.shapes if a.type == "rect")
for a in f.layout.shapes:
    if a.type == "line" and a.xsizemode == "pixel" and a.line.width:
        assert max(a.y0, a.y1) <= height + 1, a
""")
seed("p04-hover", "P04", [(P, "                        f\"c: {m.cohesion} kPa<br>\"\n", "                        f\"c: {m.cohesion:.3g} kPa<br>\"\n")],
     "a cohesion that needs more than three digits",
     "the area of the stratum says another cohesion than the table",
     """
s = Slope(height=3, length=4)
s.set_materials(Material(cohesion=12.345), Material(depth_to_bottom=7, cohesion=3.5))
names = [t.name for t in s.plot_boundary().data if t.fill]
assert any("c: 12.345 kPa" in n for n in names), names
assert any("c: 3.5 kPa" in n for n in names), names
""")
seed("p02-hover", "P02", [(P, "                    f\"Radius: {radius:.3f}<br>\"\n", "                    f\"Radius: {radius:.4g}<br>\"\n")],
     "a critical circle with a radius of 10 m or more",
     "the radius shown over the label of the critical plane is rounded to centimetres",
     """
s = Slope(height=3, length=4)
s.set_materials(Material())
s._search = [dict(FOS=1.2, c_x=11.0, c_y=18.0, radius=10.126, l_c=(6.0, 9.0), r_c=(13.5, 8.0))]
t = [t for t in s.plot_critical().data if t.text]
assert "Radius: 10.126" in t[0].hovertemplate, t[0].hovertemplate
""")
