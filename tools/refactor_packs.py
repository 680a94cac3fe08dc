from refactors import PS, UT, DV, VW

PACKS = {}

# ---------------------------------------------------------------- A: comprehensions, any/next/zip/walrus, operator, reordering
PACKS["A"] = [
    (PS, "from math import", "from operator import attrgetter, itemgetter\nfrom math import"),
    (PS, "@Slope._update_udl_coordinates", '''
x_crest, _ = self.get_top_coordinates()
for udl in self._udls:
    udl.right = x_crest - udl.offset
    udl.left = max(0, udl.right - udl.length) if udl.length else 0
'''),
    (PS, "@Slope._update_ll_coordinates", '''
crest, *_ = self._top_coord
for ll in self._lls:
    ll.coord = c if (c := crest - ll.offset) > 0 else 0
'''),
    (PS, "@Slope.set_udls", '''
accepted = [u for u in udls if isinstance(u, Udl) and u.magnitude > 0]
for udl in accepted:
    self._udls.append(udl)
    needed = 2.5 * (udl.offset + (udl.length or 3))
    if needed > self._MIN_EXT_L:
        self.update_boundary_options(MIN_EXT_L=needed)

self._update_udl_coordinates()

if len(self._udls) > 0:
    self._udl_max = max(map(attrgetter("magnitude"), self._udls))

self._reset_results()
'''),
    (PS, "@Slope.remove_udls", '''
def same(a, b):
    return (a.offset, a.magnitude, a.length) == (b.offset, b.magnitude, b.length)

if remove_all:
    self._udls = []
    self._udl_max = 0
else:
    self._udls = [u for u in self._udls if not any(same(u, v) for v in udls)]

if self._udls:
    self._udl_max = max([u.magnitude for u in self._udls])

self._reset_results()
'''),
    (PS, "@Slope.remove_lls", '''
self._lls = (
    []
    if remove_all
    else [
        existing
        for existing in self._lls
        if not any(
            existing.offset == ll.offset and existing.magnitude == ll.magnitude
            for ll in lls
        )
    ]
)

# reset results
self._reset_results()
'''),
    (PS, "@Slope.set_materials", '''
if not all(isinstance(m, Material) for m in materials):
    raise ValueError(
        "add_materials only accepts instances of the " "Material class."
    )

ordered = sorted([*materials, *self._materials], key=attrgetter("depth_to_bottom"))
for upper, lower in zip(ordered, ordered[1:]):
    if upper.depth_to_bottom == lower.depth_to_bottom:
        raise ValueError("The same material depth has been input twice")

if ordered:
    deepest = ordered[-1].depth_to_bottom
    if deepest > self._external_height:
        self.update_boundary_options(MIN_EXT_H=deepest)

for i, material in enumerate(ordered):
    chosen = material.user_defined_color
    material.RL = self._external_height - material.depth_to_bottom
    material.color = (
        chosen
        if chosen != "" and utilities.is_color(chosen)
        else MATERIAL_COLORS[i % len(MATERIAL_COLORS)]
    )

self._materials = ordered
self._reset_results()
'''),
    (PS, "@Slope.remove_material", '''
if isinstance(material, Material):
    depth = material.depth_to_bottom

if remove_all:
    self._materials = []
elif depth is not None:
    found = next((m for m in self._materials if m.depth_to_bottom == depth), None)
    if found is not None:
        del self._materials[self._materials.index(found)]

# reset results
self._reset_results()
'''),
    (PS, "@Slope.update_water_analysis_options", '''
if not auto:
    data_validation.assert_number(H, "H")
    factor = min(max(H, 0), 1)
else:
    factor = cos(atan(self._gradient)) ** 2

self._water_analysis_auto = True if auto else False
self._water_analysis_H = factor

# reset results
self._reset_results()
'''),
    (PS, "@Slope.update_analysis_options", '''
def clamp(value, low, high):
    return low if value < low else high if value > high else value

if slices is not None:
    self._slices = clamp(slices, 10, 500)
if iterations is not None:
    self._iterations = clamp(iterations, 500, 100000)
if min_failure_dist is not None:
    upper = self._external_length * 0.9
    self._min_failure_distance = (
        min_failure_dist if min_failure_dist < upper else upper
    )
for name, value in (("_tolerance", tolerance), ("_max_iterations", max_iterations)):
    if value is not None:
        setattr(self, name, value)

self._reset_results()
'''),
    (PS, "@Slope.set_analysis_limits", '''
given = (left_x, left_x_right, right_x_left, right_x)
names = (
    "left_x limit",
    "left_x right coordinate",
    "right_x left coordinate",
    "right_x_limit",
)
values = []
for i, (value, name) in enumerate(zip(given, names)):
    if value is None:
        value = self._limits[i]
    elif i == 0:
        data_validation.assert_positive_number(value, name)
    else:
        data_validation.assert_strictly_positive_number(value, name)
    values.append(value)

crest = self._top_coord[0]
low, low_right, high_left, high = values
low = low if low > 0 else 0
low_right = low_right if low_right < crest else crest
high_left = high_left if high_left > crest else crest
high = high if high < self._external_length else self._external_length

if not (low < low_right and high_left < high):
    raise ValueError(
        "limits out of order or conflicting, check input for analysis limits"
    )

self._limits = [low, low_right, high_left, high]

# reset results
self._reset_results()
'''),
    (PS, "@Slope._set_entry_exit_planes", '''
n_circles = max(5, int(self._iterations / 800))
side = int(sqrt(self._iterations / n_circles))

n_bot = side
while side * n_bot * n_circles < self._iterations:
    n_bot = n_bot + 1

n_top = max(2, side - (len(self._lls) + len(self._udls)))

x1, x2, x3, x4 = self._limits
y_top = self._top_coord[1]

entries = [x1 + (x2 - x1) * (n / (n_top - 1)) for n in range(n_top)]
entries.extend(ll.coord - 0.001 for ll in self._lls)
entries.extend(udl.left - 0.001 for udl in self._udls)
exits = [x3 + ((i + 1) / n_bot) * (x4 - x3) for i in range(n_bot)]
exit_points = list(zip(exits, map(self.get_external_y_intersection, exits)))

def long_enough(a, b):
    return utilities.dist_points(a, b) > self._min_failure_distance

def inside(plane):
    (xl, _), (xr, _) = plane["l_c"], plane["r_c"]
    return x1 - 1e-6 <= xl <= x2 + 1e-6 and x3 - 1e-6 <= xr <= x4 + 1e-6

planes = []
for x in entries:
    for exit_point in exit_points:
        if long_enough((x, y_top), exit_point):
            planes.extend(self._generate_planes((x, y_top), exit_point, n_circles))

self._search = list(
    filter(lambda p: inside(p) and long_enough(p["l_c"], p["r_c"]), planes)
)
'''),
    (PS, "@Slope._generate_planes", '''
(xl, yl), (xr, yr) = l_c, r_c
fall, run = yl - yr, xr - xl
beta = atan(fall / run)
half = sqrt(fall**2 + run**2) / 2
first_radius = half / cos(beta) * 1.1
first_edge = first_radius - sqrt(first_radius**2 - half**2)
C = half**2
middle = utilities.mid_coord(l_c, r_c)

planes = []
for k in range(num_circles, 0, -1):
    to_edge = first_edge * k / num_circles
    radius = utilities.circle_radius_from_abcd(to_edge, C)
    c_x, c_y = utilities.circle_centre(beta, middle, radius - to_edge)
    points = self._get_circle_external_intersection(c_x, c_y, radius)
    if len(points) >= 2:
        left, right = points[0], points[1]
        planes.append(
            dict(l_c=left, r_c=right, c_x=c_x, c_y=c_y, radius=radius)
        )

return planes
'''),
    (PS, "@Slope.analyse_slope", '''
if len(self._individual_planes) == 0:
    self._set_entry_exit_planes()
else:
    for plane in self._individual_planes:
        ends = self._get_circle_external_intersection(
            *(plane[k] for k in ("c_x", "c_y", "radius"))
        )
        if len(ends) >= 2:
            plane.update(l_c=ends[0], r_c=ends[1])
    self._search = self._individual_planes

for plane in tqdm(self._search):
    plane["FOS"] = self._analyse_circular_failure_bishop(
        plane["c_x"], plane["c_y"], plane["radius"]
    )

found = [
    plane
    for plane in self._search
    if plane["FOS"] is not None and (not max_fos or plane["FOS"] <= max_fos)
]
self._search = sorted(found, key=itemgetter("FOS"))
'''),
    (PS, "@Slope._calculate_strip_weights", '''
top_y = np.asarray(s_yt, dtype=float)
bot_y = np.asarray(s_yb, dtype=float)
total = np.zeros(top_y.size, dtype=float)

upper = self._external_height
for i, m in enumerate(self._materials):
    lower = m.RL if i < len(self._materials) - 1 else -np.inf
    thickness = np.minimum(top_y, upper) - np.maximum(bot_y, lower)
    total = total + m.unit_weight * np.maximum(thickness, 0.0)
    upper = lower

return total * b
'''),
    (PS, "@Slope._get_circle_external_intersection", '''
crest_x, crest_y = self._top_coord
toe_x, toe_y = self._bot_coord
found = []

hits = utilities.cirle_line_intersection(
    (0, crest_y), (crest_x, crest_y), c_x, c_y, radius
)
if hits:
    first = min(hits)
    if 0 <= first[0] <= crest_x:
        found.append(first)

hits = utilities.cirle_line_intersection(
    (toe_x, toe_y), (self._external_length, toe_y), c_x, c_y, radius
)
if hits:
    last = max(hits)
    if toe_x <= last[0] <= self._external_length:
        found.append(last)

found += [
    p
    for p in utilities.cirle_line_intersection(
        (crest_x, crest_y), (toe_x, toe_y), c_x, c_y, radius
    )
    if crest_x <= p[0] <= toe_x
]

found = sorted(found, key=itemgetter(0))
previous = [(-1, 0)] + found[:-1]
return [p for p, q in zip(found, previous) if abs(p[0] - q[0]) > 0.01]
'''),
    (PS, "@Slope._set_dynamic_offset", '''
udls, lls = list(self._udls), list(self._lls)

self.remove_udls(remove_all=True)
self.remove_lls(remove_all=True)

for load in udls + lls:
    if load.dynamic_offset:
        load.offset = offset

self.set_udls(*udls)
self.set_lls(*lls)
'''),
    (PS, "@Slope.get_min_FOS_circle", '''
best = self._search[0]
return tuple(best[k] for k in ("c_x", "c_y", "radius"))
'''),
    (PS, "@Slope.get_min_FOS_end_points", '''
return itemgetter("l_c", "r_c")(self._search[0])
'''),
    (PS, "@Slope._plot_limits", '''
xs = list(self._limits)
pts = [(x, self.get_external_y_intersection(x)) for x in xs]

rightward, leftward = [pts[0]], [pts[3]]
if xs[1] != xs[2]:
    rightward.append(pts[2])
    leftward.append(pts[1])

def mark(points, text, shift):
    for px, py in points:
        fig.add_annotation(
            x=px,
            y=py,
            text=text,
            showarrow=False,
            yshift=15,
            xshift=shift,
            font_size=25,
            font_color="black",
        )

mark(rightward, "▶", -10)
mark(leftward, "◀", 10)
mark(leftward + rightward, "|", 0)

return fig
'''),
    (UT, "@dist_points", '''
return hypot(p1[0] - p2[0], p1[1] - p2[1])
'''),
    (UT, "from math import cos, sin, sqrt, radians", "from math import cos, hypot, pi, radians, sin, sqrt"),
    (UT, "@mid_coord", '''
return [0.5 * (p1[0] + p2[0]), 0.5 * (p1[1] + p2[1])]
'''),
    (UT, "@circle_centre", '''
x, y = chord_intersection
return [x + sin(beta) * chord_to_centre, y + cos(beta) * chord_to_centre]
'''),
    (UT, "@cirle_line_intersection", '''
# the line relative to the centre of the circle
ax, ay = top_coord[0] - cx, top_coord[1] - cy
bx, by = bot_coord[0] - cx, bot_coord[1] - cy
dx, dy = bx - ax, by - ay
dr2 = dx**2 + dy**2
D = ax * by - bx * ay
disc = r**2 * dr2 - D**2
if disc < 0:
    return []
root = sqrt(disc)
sign = -1 if dy < 0 else 1
first = ((D * dy + sign * dx * root) / dr2 + cx, (abs(dy) * root - D * dx) / dr2 + cy)
if disc == 0:
    return [first]
second = ((D * dy - sign * dx * root) / dr2 + cx, (-D * dx - abs(dy) * root) / dr2 + cy)
return [first, second]
'''),
    (UT, "@generate_circle_coordinates", '''
x, y = [], []
for alpha in range(1, 180, 180 // number_points):
    a = alpha * pi / 180
    x.append(round(c_x - radius * cos(a), 3))
    y.append(round(c_y - radius * sin(a), 3))

return (x, y)
'''),
    (UT, "@get_precision", '''
whole, point, decimals = str(n).partition(".")
if not point:
    return 0
for i in range(len(decimals) - 3):
    if decimals[i : i + 3] == "000":
        return i

return len(decimals)
'''),
    (DV, "@assert_number", '''
if type(n) is int or type(n) is float:
    return
raise ValueError(
    f"The value for '{name}' should be an integer or a float, "
    f"not a {type(n)}."
)
'''),
    (DV, "@assert_positive_number", '''
if isinstance(n, int) or isinstance(n, float):
    if not n < 0:
        return None
    raise ValueError(f"The value for '{name}' should be >= 0, not {n}")
raise ValueError(
    f"The value for '{name}' must be an int or float, " f"not {type(n)}."
)
'''),
    (DV, "@assert_range", '''
if not isinstance(n, (int, float)):
    raise ValueError(
        f"The value for '{name}' should be an integer or a float, "
        f"not a {type(n)}."
    )
if not all(isinstance(b, (int, float)) for b in (low, high)):
    raise ValueError(
        f"The value for the ranges low and high should be an integer "
        f"or a float not a {type(low)} and {type(high)}."
    )
checks = (
    (n < low, f"should be greater than {low}, not {n}."),
    (n > high, f"should be less than {high}, not {n}."),
    (not_low and n == low, f"should not be equal to the lower bound ({low})."),
    (not_high and n == high, f"should not be equal to the upper bound ({high})."),
)
for wrong, text in checks:
    if wrong:
        raise ValueError(f"The value for '{name}' {text}")
'''),
    (VW, '''        valid = True
        for a in form_list:
            valid *= a.is_valid()
''', '''        valid = all([form.is_valid() for form in form_list])
'''),
    (VW, '''    # add line loads to slope
    for line_load_form in line_load_formset.cleaned_data:
        if line_load_form:
            slope.set_lls(
                LineLoad(
                    magnitude=line_load_form["magnitude"],
                    offset=line_load_form["offset"],
                    color=line_load_form["color"],
                    dynamic_offset=line_load_form["dynamic_offset"],
                )
            )
        else:
            slope.set_lls(
                LineLoad(
                    magnitude=LineLoadModel._meta.get_field("magnitude").get_default(),
                    offset=LineLoadModel._meta.get_field("offset").get_default(),
                    color=LineLoadModel._meta.get_field("color").get_default(),
                    dynamic_offset=LineLoadModel._meta.get_field(
                        "dynamic_offset"
                    ).get_default(),
                )
            )
''', '''    # add line loads to slope
    keys = ("magnitude", "offset", "color", "dynamic_offset")
    for row in line_load_formset.cleaned_data:
        values = {
            key: row[key] if row else LineLoadModel._meta.get_field(key).get_default()
            for key in keys
        }
        slope.set_lls(LineLoad(**values))
'''),
    (VW, '''    limits = limits_form.cleaned_data
    if limits["consider_limits"]:
        if limits["consider_internal_limits"]:
            slope.set_analysis_limits(
                left_x=limits["left_x"],
                right_x=limits["right_x"],
                left_x_right=limits["left_x_right"],
                right_x_left=limits["right_x_left"],
            )
        else:
            slope.set_analysis_limits(
                left_x=limits["left_x"],
                right_x=limits["right_x"],
            )
''', '''    limits = limits_form.cleaned_data
    if limits["consider_limits"]:
        used = ["left_x", "right_x"]
        if limits["consider_internal_limits"]:
            used += ["left_x_right", "right_x_left"]
        slope.set_analysis_limits(**{name: limits[name] for name in used})
'''),
]

# ---------------------------------------------------------------- B: helpers extracted, shared slice geometry, early returns, module-level functions
_HELPERS = '''
def _slices(slope, left, right, radius, c_x, c_y):
    """Geometry of the slices between two points of a circle, None if the circle is too small."""
    n = slope._slices
    width = (right[0] - left[0]) / n
    edges = np.linspace(left[0], right[0], n + 1)
    centres = np.linspace(left[0] + width / 2, right[0] - width / 2, n)
    offset = c_x - centres
    if (offset**2 > radius**2).any():
        return None
    depth = np.sqrt(radius**2 - offset**2)
    bottom = c_y - depth
    top = np.maximum(slope._surface(centres), bottom)
    alpha = np.arctan(offset / depth)
    return width, edges, centres, top, bottom, alpha


def _loaded(slope, weights, edges):
    start, end = edges[:-1], edges[1:]
    for udl in slope._udls:
        common = np.minimum(end, udl.right) - np.maximum(start, udl.left)
        weights = weights + udl.magnitude * np.maximum(common, 0.0)
    for ll in slope._lls:
        hit = np.logical_and(start <= ll.coord, ll.coord < end)
        weights = weights + np.where(hit, ll.magnitude, 0.0)
    return weights


class Slope:
    """Slope object.
'''
_SHARED = '''
    def _surface(self, x):
        """Level of the ground above the given positions."""
        (top_x, top_y), (bot_x, bot_y) = self._top_coord, self._bot_coord
        on_face = top_y - (x - top_x) * self._gradient
        level = np.where(x >= bot_x, bot_y, on_face)
        return np.where(x <= top_x, top_y, level)

    def _uplift(self, x, top, bottom, base):
        if self._water_RL is None:
            return np.zeros(len(x))
        daylight = self.get_external_x_intersection(self._water_RL)
        head = np.clip(np.minimum(self._water_RL, top) - bottom, 0.0, None)
        factor = np.ones(len(x))
        factor[(daylight < x) & (x < self._bot_coord[0])] = self._water_analysis_H
        return 9.81 * head * base * factor

    def _strength(self, bottom):
        cohesion, tan_phi = [], []
        for y in bottom:
            m = self._get_material_at_depth(y)
            cohesion.append(m.cohesion)
            tan_phi.append(m.tan_friction_angle)
        return np.array(cohesion), np.array(tan_phi)

    def get_external_y_intersection(self, x):
'''
_GEO = '''
for value, name in (
    (c_x, "c_x (circle x coordinate)"),
    (c_y, "c_y (circle y coordinate)"),
    (radius, "radius"),
):
    data_validation.assert_strictly_positive_number(value, name)
'''
PACKS["B"] = [
    (PS, 'class Slope:\n    """Slope object.\n', _HELPERS.lstrip("\n")),
    (PS, "    def get_external_y_intersection(self, x):\n", _SHARED.lstrip("\n")),
    (PS, "@Slope._analyse_circular_failure_ordinary", _GEO + '''
if left is None or right is None:
    found = self._get_circle_external_intersection(c_x, c_y, radius)
    if len(found) != 2:
        return None
    left, right = found

if right[0] - left[0] <= 1e-6:
    return None

geometry = _slices(self, left, right, radius, c_x, c_y)
if geometry is None:
    return None
width, edges, x, top, bottom, alpha = geometry

cosines, sines = np.cos(alpha), np.sin(alpha)
if (cosines == 0).any():
    return None
base = width / cosines

if len(self._materials) == 0:
    return None

weights = _loaded(self, self._calculate_strip_weights(width, top, bottom), edges)
uplift = self._uplift(x, top, bottom, base)
cohesion, tan_phi = self._strength(bottom)

driving = (weights * sines).sum()
if not driving > 0:
    return None

normal = np.maximum(weights * cosines - uplift, 0.0)
return float((cohesion * base + normal * tan_phi).sum() / driving)
'''),
    (PS, "@Slope._analyse_circular_failure_bishop", '''
if left is None or right is None:
    found = self._get_circle_external_intersection(c_x, c_y, radius)
    if len(found) < 2:
        return None
    left, right = found[0], found[1]

fos = self._analyse_circular_failure_ordinary(c_x, c_y, radius, left, right)
if fos is None:
    return None

geometry = _slices(self, left, right, radius, c_x, c_y)
if geometry is None or not self._materials:
    return None
width, edges, x, top, bottom, alpha = geometry
cosines, sines = np.cos(alpha), np.sin(alpha)
if (cosines == 0).any():
    return None

weights = _loaded(self, self._calculate_strip_weights(width, top, bottom), edges)
uplift = self._uplift(x, top, bottom, width)
cohesion, tan_phi = self._strength(bottom)

strength = cohesion * width + (weights - uplift) * tan_phi
driving = (weights * sines).sum()

iteration = 0
while iteration < self._max_iterations:
    iteration += 1
    if fos == 0:
        return 0.0

    m_alpha = cosines + sines * tan_phi / fos
    if (m_alpha == 0).any():
        return None

    resisting = (strength / m_alpha).sum()
    if driving <= 0 or resisting < 0:
        return None

    updated = resisting / driving
    converged = abs(updated - fos) < self._tolerance
    fos = updated
    if converged:
        break

return float(fos)
'''),
    (PS, "@Slope._calculate_strip_weights", '''
weights = np.zeros(len(s_yt))
if not self._materials:
    return weights
levels = [self._external_height] + [m.RL for m in self._materials[:-1]] + [-np.inf]
for m, top, bottom in zip(self._materials, levels[:-1], levels[1:]):
    thickness = np.clip(np.minimum(s_yt, top) - np.maximum(s_yb, bottom), 0.0, None)
    weights += thickness * m.unit_weight
return b * weights
'''),
    (PS, "@Slope._get_material_at_depth", '''
above = [m for m in self._materials if m.RL < s_yb]
return above[0] if above else self._materials[-1]
'''),
    (PS, "@Slope.get_min_FOS", '''
return self._critical()["FOS"]
'''),
    (PS, "@Slope.get_min_FOS_circle", '''
plane = self._critical()
return plane["c_x"], plane["c_y"], plane["radius"]
'''),
    (PS, "    def get_min_FOS(self):\n", '''    def _critical(self):
        """The plane with the lowest factor of safety."""
        return self._search[0]

    def get_min_FOS(self):
'''),
    (PS, "@Slope.analyse_dynamic", '''
results = {}
self._dynamic_results = results

def safety(offset):
    self._set_dynamic_offset(offset)
    self.analyse_slope()
    results[offset] = self.get_min_FOS()
    return results[offset]

near = 0.0
far = max(
    [self._length]
    + [
        self._top_coord[0] - (udl.length or 0)
        for udl in self._udls
        if udl.dynamic_offset
    ]
)
far = max(far - 0.01, 0.0)

if safety(near) > critical_fos:
    return 0
if safety(far) < critical_fos:
    return 1

last = 0
for _ in range(10):
    rise = results[far] - results[near]
    if far == near or rise == 0:
        break

    guess = near + (critical_fos - results[near]) * (far - near) / rise
    fos = safety(guess)

    settled = abs(last - fos) <= 0.01 or abs(fos - critical_fos) <= 0.01
    if last != fos and settled and round(fos, 3) >= critical_fos:
        break

    near, far = (guess, far) if fos < critical_fos else (near, guess)
    last = fos

self._dynamic_results = {
    offset: fos for offset, fos in sorted(results.items(), key=lambda kv: kv[1])
}
'''),
    (PS, "@Slope.set_external_boundary", '''
data_validation.assert_strictly_positive_number(height, "height")
if angle is not None:
    data_validation.assert_range(angle, "angle", 0, 90, not_low=True)
if length is None:
    if not angle:
        raise ValueError(
            "require angle of slope or length of slope to initialise"
        )
    length = height / tan(radians(angle))
else:
    data_validation.assert_positive_number(length, "length")

if length < 0.001:
    length = 0.001

self._external_height = max(
    3 * height,
    self._MIN_EXT_H,
    2.5 * length,
    max([m.depth_to_bottom for m in self._materials], default=0),
)
self._external_length = max(5 * length, self._MIN_EXT_L, 4 * height)

self._height, self._length = height, length
self._gradient = height / length

crest = (self._external_length - length) / 2
self._top_coord = (crest, self._external_height)
self._bot_coord = (crest + length, self._external_height - height)

self._external_boundary = self._outline()
self._section_changed()
'''),
    (PS, "    def set_water_table(self, depth: float):\n", '''    def _outline(self):
        L, H = self._external_length, self._external_height
        toe = self._bot_coord
        return [(0, 0), (0, H), self._top_coord, toe, (L, toe[1]), (L, 0), (0, 0)]

    def _section_changed(self):
        """everything that is located relative to the section follows it"""
        for material in self._materials:
            material.RL = self._external_height - material.depth_to_bottom
        if self._water_depth is not None:
            self._water_RL = self._water_level(self._water_depth)
        if self._water_analysis_auto:
            self.update_water_analysis_options(auto=True)
        self._update_ll_coordinates()
        self._update_udl_coordinates()
        self.remove_analysis_limits()
        self._reset_results()

    def _water_level(self, depth):
        level = self._top_coord[1] - depth
        return level if level > 0 else 0

    def set_water_table(self, depth: float):
'''),
    (PS, "@Slope.set_water_table", '''
if depth is None:
    return self.remove_water_table()

data_validation.assert_positive_number(depth, "water depth")
self._water_depth = depth
self._water_RL = self._water_level(depth)
self._reset_results()
'''),
    (PS, "@Slope.add_single_circular_plane", '''
points = self._get_circle_external_intersection(c_x, c_y, radius)
if len(points) < 2:
    return
plane = {"c_x": c_x, "c_y": c_y, "radius": radius}
plane["l_c"], plane["r_c"] = points[0], points[1]
self._individual_planes.append(plane)
self._reset_results()
'''),
    (PS, "@Slope.add_single_entry_exit_plane", '''
ends = [(x, self.get_external_y_intersection(x)) for x in (l_cx, r_cx)]
self._individual_planes.extend(self._generate_planes(*ends, num_circles=num_circles))
self._reset_results()
'''),
    (PS, "@Slope.get_external_y_intersection", '''
if not 0 <= x <= self._external_length:
    return None
(top_x, top_y), (bot_x, bot_y) = self._top_coord, self._bot_coord
if x <= top_x:
    return top_y
if x >= bot_x:
    return bot_y
return top_y - self._gradient * (x - top_x)
'''),
    (PS, "@Slope.get_external_x_intersection", '''
top_x, top_y = self._top_coord
if y < self._bot_coord[1]:
    x = self._external_length
elif y < self._external_height:
    x = top_x + (top_y - y) / self._gradient
elif y == top_y:
    x = top_x
else:
    x = None
return x
'''),
    (PS, "@Slope._plot_failure_plane", '''
c_x, c_y, radius, FOS = (round(v, 3) for v in (c_x, c_y, radius, FOS))
color = COLOUR_FOS_DICT[5.0 if FOS > 5 else round(FOS, 1)]

arc = [
    (px, py)
    for px, py in zip(*utilities.generate_circle_coordinates(c_x, c_y, radius))
    if l_c[0] <= px <= r_c[0] and py <= l_c[1]
]
points = [l_c, *arc, r_c]
if show_center:
    points += [(c_x, c_y), l_c]

fig.add_trace(
    go.Scatter(
        x=[p[0] for p in points],
        y=[p[1] for p in points],
        mode="lines",
        line_color=color,
        hovertemplate="",
        texttemplate="",
        name="",
    )
)

if not show_center:
    return fig
return self._plot_annotate_FOS(fig, c_x, c_y, radius, FOS)
'''),
    (PS, "@Slope._plot_water", '''
if self._water_RL is None:
    return fig

level = self._water_RL
line = [(0, level), (self.get_external_x_intersection(level), level)]
toe = self._bot_coord
if line[-1][0] <= toe[0]:
    line.extend([toe, (self._external_length, toe[1])])

x_line, y_line = zip(*line)
fig.add_trace(
    go.Scatter(
        x=list(x_line),
        y=list(y_line),
        mode="lines",
        line_color="blue",
        line_width=4,
        name="",
    )
)

for text, shift in (("▼", 10), ("_", 2)):
    fig.add_annotation(
        x=self._top_coord[0] / 4,
        y=level,
        text=text,
        showarrow=False,
        yshift=shift,
        font_size=25,
        font_color="blue",
    )

return fig
'''),
    (PS, "@Slope.plot_critical", '''
plane = self._search[0]
keys = ("c_x", "c_y", "radius", "l_c", "r_c", "FOS")
return self._plot_failure_plane(
    self.plot_boundary(material_table=material_table, legend=legend),
    show_center=True,
    **{k: plane[k] for k in keys},
)
'''),
    (PS, '''                # empty vectors for circle points that we will actually include
                x_ = []
                y_ = []

                # 65 long list but the last half of points are for the top half of
                # circle and so will never actually be required.
                for i in range(len(x)):
                    # x coordinate should be between left and right
                    # note for y, should be less than left y but can stoop
                    # below right i
                    if x[i] <= r_c[0] and x[i] >= l_c[0] and y[i] <= l_c[1]:
                        x_.append(x[i])
                        y_.append(y[i])

                x_ = [l_c[0]] + x_ + [r_c[0]]
                y_ = [l_c[1]] + y_ + [r_c[1]]
''', '''                inner = [
                    (a, b)
                    for a, b in zip(x, y)
                    if l_c[0] <= a <= r_c[0] and b <= l_c[1]
                ]
                x_, y_ = map(list, zip(l_c, *inner, r_c))
'''),
    (VW, '''def index(request):
''', '''def add_coordinates(search):
    """points of the planes for the page"""
    for plane in search:
        l_c, r_c = plane["l_c"], plane["r_c"]
        xs, ys = utilities.generate_circle_coordinates(
            plane["c_x"], plane["c_y"], plane["radius"]
        )
        arc = [(x, y) for x, y in zip(xs, ys) if l_c[0] <= x <= r_c[0]]
        plane["x"] = [l_c[0], *(p[0] for p in arc), r_c[0]]
        plane["y"] = [l_c[1], *(p[1] for p in arc), r_c[1]]


def index(request):
'''),
    (VW, '''            # return color_dictionary
            # add coordinates of failure planes to information that gets passed back.
            for s in slope._search:

                c_x = s["c_x"]
                c_y = s["c_y"]
                radius = s["radius"]
                r_c = s["r_c"]
                l_c = s["l_c"]

                # generate points for circle, generates points only along bottom half of circle
                x, y = utilities.generate_circle_coordinates(c_x, c_y, radius)

                # empty vectors for circle points that we will actually include
                x_ = []
                y_ = []

                # 65 long list but the last half of points are for the top half of
                # circle and so will never actually be required.
                for i in range(len(x)):
                    # x coordinate should be between left and right
                    # note for y, should be less than left y but can stoop
                    # below right i
                    if x[i] <= r_c[0] and x[i] >= l_c[0]:
                        x_.append(x[i])
                        y_.append(y[i])

                s["x"] = [l_c[0]] + x_ + [r_c[0]]
                s["y"] = [l_c[1]] + y_ + [r_c[1]]
''', '''            add_coordinates(slope._search)
'''),
]

# ---------------------------------------------------------------- C: scalar loops instead of arrays, while/match/try, numpy for math, functools/itertools
PACKS["C"] = [
    (PS, "from math import radians, tan, sqrt, atan, cos\nfrom dataclasses import dataclass", "import math\nimport itertools\nfrom copy import copy\nfrom functools import reduce, partial\nfrom math import atan, atan2, cos, degrees, hypot, radians, sin, sqrt, tan\nfrom dataclasses import dataclass"),
    (PS, "@Slope._analyse_circular_failure_ordinary", '''
for value, name in zip((c_x, c_y, radius), ("c_x (circle x coordinate)", "c_y (circle y coordinate)", "radius")):
    data_validation.assert_strictly_positive_number(value, name)

ends = [left, right]
if None in (left, right):
    ends = self._get_circle_external_intersection(c_x, c_y, radius)
    if len(ends) != 2:
        return None

start, stop = ends[0][0], ends[1][0]
n = self._slices
if stop - start <= 1e-6 or not self._materials:
    return None
width = (stop - start) / n
border = np.linspace(start, stop, n + 1)

x = np.linspace(start + 0.5 * width, stop - 0.5 * width, n)
if np.max((x - c_x) ** 2) > radius * radius:
    return None
yb = c_y - np.sqrt(radius * radius - (x - c_x) ** 2)
yt = np.array([self.get_external_y_intersection(v) for v in x])
yt = np.where(yt > yb, yt, yb)
W = self._calculate_strip_weights(width, yt, yb)

resisting = driving = 0
for i in range(n):
    slope = (c_x - x[i]) / (c_y - yb[i])
    hyp = math.sqrt(1 + slope * slope)
    cos_a, sin_a = 1 / hyp, slope / hyp
    base = width / cos_a

    w = W[i]
    lo, hi = border[i], border[i + 1]
    for udl in self._udls:
        w += udl.magnitude * max(0, min(hi, udl.right) - max(lo, udl.left))
    w += sum(ll.magnitude for ll in self._lls if lo <= ll.coord < hi)

    u = 0
    if self._water_RL is not None:
        head = max(0, min(self._water_RL, yt[i]) - yb[i])
        u = 9.81 * head * base
        daylight = self.get_external_x_intersection(self._water_RL)
        if daylight < x[i] < self._bot_coord[0]:
            u *= self._water_analysis_H

    m = self._get_material_at_depth(yb[i])
    resisting += m.cohesion * base + max(0.0, w * cos_a - u) * m.tan_friction_angle
    driving += w * sin_a

return None if driving <= 0 else float(resisting / driving)
'''),
    (PS, "@Slope.update_water_analysis_options", '''
match bool(auto):
    case True:
        value = 1 / (1 + self._gradient**2)
    case False:
        data_validation.assert_number(H, "H")
        value = 0 if H < 0 else 1 if H > 1 else H

self._water_analysis_auto, self._water_analysis_H = bool(auto), value
self._reset_results()
'''),
    (PS, "@Slope.remove_material", '''
if material and isinstance(material, Material):
    return self.remove_material(depth=material.depth_to_bottom, remove_all=remove_all)

if depth is not None:
    try:
        position = [m.depth_to_bottom for m in self._materials].index(depth)
    except ValueError:
        pass
    else:
        self._materials.pop(position)

if remove_all:
    self._materials.clear()

self._reset_results()
'''),
    (PS, "@Slope.remove_udls", '''
doomed = [
    mine
    for mine, other in itertools.product(self._udls, udls)
    if mine.offset == other.offset
    and mine.magnitude == other.magnitude
    and mine.length == other.length
]
self._udls = [u for u in self._udls if not any(u is d for d in doomed) and not remove_all]
if remove_all:
    self._udl_max = 0
if self._udls:
    self._udl_max = reduce(max, (u.magnitude for u in self._udls))
self._reset_results()
'''),
    (PS, "@Slope.remove_lls", '''
for ll in lls:
    i = 0
    while i < len(self._lls):
        if (self._lls[i].offset, self._lls[i].magnitude) == (ll.offset, ll.magnitude):
            del self._lls[i]
        else:
            i += 1

if remove_all:
    self._lls = []
self._reset_results()
'''),
    (PS, "@Slope._set_entry_exit_planes", '''
circles = max(5, int(self._iterations / 800))
top_count = bot_count = int(math.sqrt(self._iterations / circles))
bot_count = max(bot_count, math.ceil(self._iterations / (top_count * circles)))
top_count = max(2, top_count - len(self._lls) - len(self._udls))

x1, x2, x3, x4 = self._limits
crest_level = self._top_coord[1]

lefts = [x1 + n / (top_count - 1) * (x2 - x1) for n in range(top_count)]
for load in itertools.chain(self._lls, self._udls):
    lefts.append((load.coord if isinstance(load, LineLoad) else load.left) - 0.001)
rights = [x3 + n / bot_count * (x4 - x3) for n in range(1, bot_count + 1)]

self._search = []
for xl, xr in itertools.product(lefts, rights):
    l_c, r_c = (xl, crest_level), (xr, self.get_external_y_intersection(xr))
    if hypot(r_c[0] - l_c[0], r_c[1] - l_c[1]) <= self._min_failure_distance:
        continue
    for plane in self._generate_planes(l_c, r_c, circles):
        a, b = plane["l_c"], plane["r_c"]
        if not (x1 - 1e-6 <= a[0] <= x2 + 1e-6):
            continue
        if not (x3 - 1e-6 <= b[0] <= x4 + 1e-6):
            continue
        if hypot(b[0] - a[0], b[1] - a[1]) > self._min_failure_distance:
            self._search.append(plane)
'''),
    (PS, "@Slope._generate_planes", '''
dx, dy = r_c[0] - l_c[0], l_c[1] - r_c[1]
chord = math.hypot(dx, dy)
cos_b, sin_b = dx / chord, dy / chord
half = chord / 2
radius0 = 1.1 * half / cos_b
sagitta0 = radius0 - sqrt(radius0**2 - half**2)
mx, my = (l_c[0] + r_c[0]) / 2, (l_c[1] + r_c[1]) / 2

out = []
for i in range(num_circles):
    sagitta = sagitta0 * (1 - i / num_circles)
    radius = (half**2 + sagitta**2) / (2 * sagitta)
    away = radius - sagitta
    cx, cy = mx + sin_b * away, my + cos_b * away
    hits = self._get_circle_external_intersection(cx, cy, radius)
    try:
        first, second = hits[0], hits[1]
    except IndexError:
        continue
    out.append({"l_c": first, "r_c": second, "c_x": cx, "c_y": cy, "radius": radius})
return out
'''),
    (PS, "@Slope._get_circle_external_intersection", '''
def circle_at_level(y):
    """x of both points of the circle at a level"""
    d = radius**2 - (y - c_y) ** 2
    return None if d < 0 else (c_x - sqrt(d), c_x + sqrt(d))

points = []
top = circle_at_level(self._top_coord[1])
if top is not None and 0 <= top[0] <= self._top_coord[0]:
    points.append((top[0], self._top_coord[1]))
bottom = circle_at_level(self._bot_coord[1])
if bottom is not None and self._bot_coord[0] <= bottom[1] <= self._external_length:
    points.append((bottom[1], self._bot_coord[1]))

for p in utilities.cirle_line_intersection(
    self._top_coord, self._bot_coord, c_x, c_y, radius
):
    if self._top_coord[0] <= p[0] <= self._bot_coord[0]:
        points.append(p)

points.sort(key=lambda p: p[0])
kept = []
last = None
for p in points:
    if last is None or abs(p[0] - last) > 0.01 :
        if last is not None or abs(p[0] + 1) > 0.01:
            kept.append(p)
    last = p[0]
return kept
'''),
    (PS, "@Slope.analyse_slope", '''
if not self._individual_planes:
    self._set_entry_exit_planes()
    planes = self._search
else:
    planes = self._individual_planes
    for plane in planes:
        hits = self._get_circle_external_intersection(plane["c_x"], plane["c_y"], plane["radius"])
        if len(hits) > 1:
            plane["l_c"], plane["r_c"], *_ = hits

evaluate = partial(self._analyse_circular_failure_bishop)
results = []
for plane in planes:
    fos = evaluate(c_x=plane["c_x"], c_y=plane["c_y"], radius=plane["radius"])
    plane["FOS"] = fos
    if fos is None:
        continue
    if max_fos and fos > max_fos:
        continue
    results.append(plane)

results.sort(key=lambda plane: plane["FOS"])
self._search = results
'''),
    (PS, "@Slope._calculate_strip_weights", '''
count = len(s_yt)
weights = np.zeros(count)
layers = len(self._materials)
for i in range(count):
    above = self._external_height
    for k, m in enumerate(self._materials):
        below = s_yb[i] if k == layers - 1 else m.RL
        h = min(s_yt[i], above) - max(s_yb[i], below)
        if h > 0:
            weights[i] += h * m.unit_weight * b
        above = m.RL
return weights
'''),
    (PS, "@Slope.set_external_boundary", '''
data_validation.assert_strictly_positive_number(height, "height")
if angle is not None:
    data_validation.assert_range(angle, "angle", 0, 90, not_low=True)
if length is not None:
    data_validation.assert_positive_number(length, "length")
elif not angle:
    raise ValueError("require angle of slope or length of slope to initialise")
else:
    length = height / tan(radians(angle))

length = max(length, 0.001)
depths = (m.depth_to_bottom for m in self._materials)
total_height = reduce(max, depths, max(3 * height, self._MIN_EXT_H, 5 * length / 2))
total_length = max(5 * length, self._MIN_EXT_L, 4 * height)

half = total_length / 2
self._top_coord = (half - length / 2, total_height)
self._bot_coord = (half + length / 2, total_height - height)
self._length, self._height, self._gradient = length, height, height / length
self._external_length, self._external_height = total_length, total_height

ground = [self._top_coord, self._bot_coord]
self._external_boundary = [(0, 0), (0, total_height)] + ground + [
    (total_length, ground[1][1]),
    (total_length, 0),
    (0, 0),
]

for m in self._materials:
    m.RL = total_height - m.depth_to_bottom
if self._water_depth is not None:
    self.set_water_table(self._water_depth)
if self._water_analysis_auto:
    self.update_water_analysis_options()

self._update_udl_coordinates()
self._update_ll_coordinates()
self.set_analysis_limits(0, total_length, self._top_coord[0], self._top_coord[0])
'''),
    (PS, "@Slope.remove_analysis_limits", '''
self._limits = [0, self._top_coord[0], self._top_coord[0], self._external_length]
self._reset_results()
'''),
    (PS, "@Slope.update_boundary_options", '''
for value, name in (
    (MIN_EXT_H, "Minimum external model height (MIN_EXT_H)"),
    (MIN_EXT_L, "Minimum external model length (MIN_EXT_H)"),
):
    if value:
        data_validation.assert_strictly_positive_number(value, name)

self._MIN_EXT_H = MIN_EXT_H or self._MIN_EXT_H
self._MIN_EXT_L = MIN_EXT_L or self._MIN_EXT_L

if self._external_boundary:
    self.set_external_boundary(self._height, length=self._length)
self._reset_results()
'''),
    (PS, "@Slope.plot_boundary", '''
xs, ys = zip(*self._external_boundary)
fig = go.Figure(go.Scatter(x=list(xs), y=list(ys), mode="lines", name=""))
fig.update_layout(width=2000, height=1200, showlegend=False)
fig.update_yaxes(scaleanchor="x", scaleratio=1)

if len(self._materials) == 0:
    return fig

toe_x, toe_y = self._bot_coord
edge = self._external_length
upper = [self._external_boundary[1], self._external_boundary[2]]

for number, m in enumerate(self._materials, start=1):
    last = number == len(self._materials)
    lower = [(0, m.RL), (self.get_external_x_intersection(m.RL), m.RL)]

    passes_toe = upper[1][1] >= toe_y > lower[1][1]
    if passes_toe or (last and upper[1][1] > toe_y):
        upper = upper + [(toe_x, toe_y), (edge, toe_y)]

    if last:
        lower = self._external_boundary[-2:]

    polygon = upper + sorted(lower, reverse=True)
    fig.add_trace(
        go.Scatter(
            x=[p[0] for p in polygon],
            y=[p[1] for p in polygon],
            mode="lines",
            meta=[m.unit_weight, m.cohesion, m.friction_angle, m.name],
            fill="toself",
            name=(
                f"{m.name}<br>"
                f"γ: {m.unit_weight} kN/m3<br>"
                f"c: {m.cohesion} kPa<br>"
                f"ϕ: {m.friction_angle} degrees"
            ),
            hovertemplate="",
            fillcolor=m.color,
        )
    )
    upper = sorted(lower)

if material_table:
    fig = self._plot_material_table(fig)
if legend:
    fig = self._plot_FOS_legend(fig)
for load in [*self._udls, *self._lls]:
    draw = self._plot_udl if isinstance(load, Udl) else self._plot_ll
    fig = draw(fig, load)
if self._water_RL:
    fig = self._plot_water(fig)
return self._plot_limits(fig)
'''),
    (PS, "@Material.__post_init__", '''
data_validation.assert_range(self.unit_weight, "unit weight", 1, 50)
data_validation.assert_positive_number(self.friction_angle, "friction_angle")
for field, text in (("cohesion", "cohesion"), ("depth_to_bottom", "depth to bottom")):
    value = getattr(self, field)
    data_validation.assert_number(value, text)
    setattr(self, field, -value if value < 0 else value)

phi = radians(self.friction_angle)
self.tan_friction_angle = tan(phi)

self.name = "" if self.name is None else self.name
self.color = "" if self.color is None else self.color

assert isinstance(self.name, str)
assert isinstance(self.color, str)

self.user_defined_color = self.color
'''),
    (PS, "@Udl.__post_init__", '''
for value, text in ((self.magnitude, "load magnitude"), (self.offset, "load offset")):
    data_validation.assert_number(value, text)

if not self.length:
    self.length = None
else:
    data_validation.assert_number(self.length, "load length")
    self.length = abs(self.length)

self.offset, self.magnitude = abs(self.offset), abs(self.magnitude)
self.precision = utilities.get_precision(self.magnitude)
self.color = self.color if utilities.is_color(self.color) else "red"
'''),
    (PS, '''        for i in tqdm(self._search):
            FOS = i["FOS"]
            if max_fos is None or FOS < max_fos:
''', '''        shown = [p for p in self._search if max_fos is None or not p["FOS"] >= max_fos]
        for i in shown:
            FOS = i["FOS"]
            if True:
'''),
    (UT, "@draw_line", '''
a = radians(angle)
fig.add_shape(
    type="line",
    xref="x",
    yref="y",
    x0=xoffset,
    y0=yoffset,
    x1=xoffset + int(length * cos(a)),
    y1=yoffset + int(length * sin(a)),
    line_color=color,
    line_width=line_width,
    xsizemode="pixel",
    ysizemode="pixel",
    xanchor=x_sup,
    yanchor=y_sup,
)
return fig
'''),
    (UT, "@circle_radius_from_abcd", '''
return C / (2 * c_to_e) + c_to_e / 2
'''),
    (DV, "@assert_strictly_positive_number", '''
try:
    number = type(n).__name__ if not isinstance(n, (float, int)) else None
    if number:
        raise TypeError(number)
except TypeError as e:
    raise ValueError(
        f"The value for '{name}' should be an int or float, not a {e}."
    )
if n > 0:
    return
raise ValueError(f"The value for '{name}' should be > 0, not {n}")
'''),
    (VW, '''        if FOS < max_fos:

            c_x = i["c_x"]
            c_y = i["c_y"]
            radius = i["radius"]
            l_c = i["l_c"]
            r_c = i["r_c"]
''', '''        if max_fos > FOS:

            c_x, c_y, radius, l_c, r_c = (
                i[key] for key in ("c_x", "c_y", "radius", "l_c", "r_c")
            )
'''),
    (VW, '''    # create slope object
    if options_form.cleaned_data["slope_choice"] == "length":
        slope = Slope(
            height=slope_form.cleaned_data["height"],
            length=slope_form.cleaned_data["length"],
        )
    else:
        slope = Slope(
            height=slope_form.cleaned_data["height"],
            length=None,
            angle=slope_form.cleaned_data["angle"],
        )
''', '''    # create slope object
    shape = slope_form.cleaned_data
    by_length = options_form.cleaned_data["slope_choice"] == "length"
    how = {"length": shape["length"]} if by_length else {"angle": shape["angle"]}
    slope = Slope(height=shape["height"], **how)
'''),
]

# ---------------------------------------------------------------- D: other NumPy idioms, functools, nested helpers, data-driven drawing, views through helpers
_D_GEO = '''
def _slices(self, xa, xb, n, c_x, c_y, radius):
    """Centres, tops and bottoms of the slices between xa and xb (None: not below the circle)."""
    w = (xb - xa) / n
    mid = np.linspace(xa + w / 2, xb - w / 2, n)
    inside = radius**2 - (mid - c_x) ** 2
    if (inside < 0).any():
        return None
    low = c_y - np.sqrt(inside)
    (tx, ty), (bx, by) = self._top_coord, self._bot_coord
    face = ty - (mid - tx) * self._gradient
    up = np.select([mid <= tx, mid >= bx], [ty, by], default=face)
    return w, mid, np.fmax(up, low), low
'''
PACKS["D"] = [
    (PS, "from dataclasses import dataclass\n", "from dataclasses import dataclass, astuple, field\nfrom functools import lru_cache, partial, reduce\n"),
    (PS, "MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)\n", '''MAX_COLOUR_KEY = max(COLOUR_FOS_DICT)


@lru_cache(maxsize=None)
def _fos_color(tenths):
    return COLOUR_FOS_DICT[tenths]


def _loaded(xl, xr, udls, lls):
    """Total load on every slice."""
    total = np.zeros(len(xl))
    for udl in udls:
        total = total + udl.magnitude * np.clip(np.minimum(xr, udl.right) - np.maximum(xl, udl.left), 0, None)
    for ll in lls:
        total = total + np.where((xl <= ll.coord) & (xr > ll.coord), ll.magnitude, 0)
    return total


''' + "\n".join(l for l in _D_GEO.strip("\n").split("\n")) + "\n"),
    (PS, "@Slope._analyse_circular_failure_ordinary", '''
check = data_validation.assert_strictly_positive_number
for value, name in zip((c_x, c_y, radius), ("c_x (circle x coordinate)", "c_y (circle y coordinate)", "radius")):
    check(value, name)

ends = (left, right)
if any(p is None for p in ends):
    ends = self._get_circle_external_intersection(c_x, c_y, radius)
    if len(set(ends)) != 2:
        return None

(xa, *_), (xb, *_) = ends
if xb - xa <= 1e-6:
    return None

geometry = _slices(self, xa, xb, self._slices, c_x, c_y, radius)
if geometry is None:
    return None
w, mid, up, low = geometry

alpha = np.arctan((c_x - mid) / (c_y - low))
ca, sa = np.cos(alpha), np.sin(alpha)
if not np.all(ca):
    return None
base = w / ca

border = np.linspace(xa, xb, self._slices + 1)
W = self._calculate_strip_weights(w, up, low) + _loaded(border[:-1], border[1:], self._udls, self._lls)

if not self._materials:
    return None

U = 0.0
if self._water_RL is not None:
    xw = self.get_external_x_intersection(self._water_RL)
    factor = np.where(np.logical_and(xw < mid, mid < self._bot_coord[0]), self._water_analysis_H, 1.0)
    U = 9.81 * base * factor * np.fmax(np.fmin(up, self._water_RL) - low, 0.0)

*_, last = self._materials
above = [m.RL < low for m in self._materials]
c = np.select(above, [m.cohesion for m in self._materials], default=last.cohesion)
t = np.select(above, [m.tan_friction_angle for m in self._materials], default=last.tan_friction_angle)

driving = (W * sa).sum()
if driving <= 0:
    return None
normal = np.fmax(W * ca - U, 0.0)
return float(((c * base) + (normal * t)).sum() / driving)
'''),
    (PS, "@Slope._calculate_strip_weights", '''
up, low = (np.asarray(v, dtype=float) for v in (s_yt, s_yb))
if not up.size or not self._materials:
    return np.zeros(up.size)

floors = [m.RL for m in self._materials][:-1] + [-np.inf]
ceilings = [self._external_height] + floors[:-1]
parts = [
    m.unit_weight * np.clip(np.minimum(up, hi) - np.maximum(low, lo), 0.0, None)
    for m, hi, lo in zip(self._materials, ceilings, floors)
]
return reduce(np.add, parts) * b
'''),
    (PS, "@Slope._get_material_at_depth", '''
hit = [m for m in self._materials if s_yb > m.RL]
return hit[0] if hit else self._materials[-1]
'''),
    (PS, "@Slope._set_dynamic_offset", '''
def moved(loads):
    for load in loads:
        if load.dynamic_offset:
            setattr(load, "offset", offset)
        yield load

udls, lls = list(self._udls), list(self._lls)
self.remove_udls(remove_all=True)
self.remove_lls(remove_all=True)
for put, loads in ((self.set_udls, udls), (self.set_lls, lls)):
    for load in moved(loads):
        put(load)
'''),
    (PS, "@Slope.set_lls", '''
for ll in filter(lambda o: isinstance(o, LineLoad), lls):
    if ll.magnitude > 0:
        self._lls.append(ll)
        needed = ll.offset * 2.5
        if needed > self._MIN_EXT_L:
            self.update_boundary_options(MIN_EXT_L=needed)
self._update_ll_coordinates()
self._reset_results()
'''),
    (PS, "@Slope.get_min_FOS_end_points", '''
best, *_ = self._search
return tuple(map(best.__getitem__, ("l_c", "r_c")))
'''),
    (PS, "@Slope._plot_material_table", '''
width, row = 0.4, 0.05
x0 = y0 = 0.1
x1, y1 = x0 + width, y0 + row * (len(self._materials) + 1)
domain = {"xref": "x domain", "yref": "y domain"}

shares = np.array([20, 12, 15, 12, 12])
ends = [float(v) for v in np.cumsum(shares) / shares.sum()]
starts = [0.0] + ends[:-1]
nudges = [a / 71 * 1000 * width for a in (1, 1, 1, 5, 5)]

def box(left, right, low, high, ref=domain, **style):
    fig.add_shape(dict(type="rect", x0=left, x1=right, y0=low, y1=high, **ref, **style))

def put(col, y, text):
    fig.add_annotation(
        dict(
            x=x0 + starts[col] * width, y=y, text=text, showarrow=False, yshift=-13,
            xshift=nudges[col], font=dict(size=13, color="black"), **domain,
        )
    )

box(x0, x1, y1 - row, y1, fillcolor="lightgrey")
box(x0, x1, y0, y1 - row, fillcolor="white")
for end in ends:
    box(x0 + end * width, x0 + end * width, y0, y1)
for col, title in enumerate(("MATERIAL", "COLOR", "γ (kN/m3)", "c (kPa)", "ϕ (deg)")):
    put(col, y1 - row / 2, f"<b>{title}</b>")

for k, m in enumerate(self._materials, start=1):
    line = y1 - k * row
    box(x0, x1, line, line)
    y = line - row / 2
    for col, value in {0: m.name, 2: m.unit_weight, 3: m.cohesion, 4: m.friction_angle}.items():
        put(col, y, value)
    box(
        x0 + starts[1] * width, x0 + ends[1] * width, y - row / 2, y + row / 2,
        ref={"xref": "paper", "yref": "paper"}, fillcolor=m.color,
    )

return fig
'''),
    (UT, "@is_color", '''
known = bool(color)
if known:
    try:
        Color(color)
    except (ValueError, AttributeError):
        known = False
if known:
    try:
        go.Scatter(fillcolor=color)
    except ValueError:
        known = False
return known
'''),
    (UT, "@circle_centre", '''
x, y = chord_intersection
return [x + sin(beta) * chord_to_centre, y + cos(beta) * chord_to_centre]
'''),
    (UT, "@dist_points", '''
(xa, ya), (xb, yb) = p1, p2
return sqrt((xb - xa) ** 2 + (yb - ya) ** 2)
'''),
    (VW, "def reset(request):\n", '''SAVED = ("forms", "plot_json", "search")


def _outline(plane):
    """x and y of the part of the circle that is in the ground."""
    l_c, r_c = plane["l_c"], plane["r_c"]
    pts = zip(*utilities.generate_circle_coordinates(plane["c_x"], plane["c_y"], plane["radius"]))
    inner = [p for p in pts if l_c[0] <= p[0] <= r_c[0]]
    return [[p[i] for p in (l_c, *inner, r_c)] for i in (0, 1)]


def _store(request, search, plot_json):
    request.session.update(search=search, plot_json=plot_json, forms=request.POST)


def _bound(data):
    """All forms filled from data, by name."""
    sets = {
        "material": (MaterialModel, MaterialForm),
        "udl": (UdlModel, UdlForm),
        "lineload": (LineLoadModel, LineLoadForm),
    }
    forms = {"slope": SlopeForm(data, prefix="slope")}
    for prefix, (model, form) in sets.items():
        forms[prefix] = modelformset_factory(model, form, extra=1)(data, prefix=prefix)
    forms["watertable"] = WaterTableForm(data, prefix="watertable")
    forms["limits"] = LimitsForm(data, prefix="limits")
    forms["options"] = AnalysisOptionsForm(data, prefix="options")
    return forms


def _blank():
    forms = {"slope": SlopeForm(prefix="slope")}
    for prefix, model, form in (
        ("material", MaterialModel, MaterialForm),
        ("udl", UdlModel, UdlForm),
        ("lineload", LineLoadModel, LineLoadForm),
    ):
        forms[prefix] = modelformset_factory(model, form, extra=1)(
            queryset=model.objects.none(), prefix=prefix
        )
    forms["watertable"] = WaterTableForm(prefix="watertable")
    forms["limits"] = LimitsForm(prefix="limits")
    forms["options"] = AnalysisOptionsForm(prefix="options")
    return forms


def _page(request, forms, search, plot_json):
    titles = {
        "slope": ("Slope", "slope_form", "form"),
        "material": ("Materials", "material_formset", "formset"),
        "udl": ("Udls", "udl_formset", "formset"),
        "lineload": ("LineLoads", "line_load_formset", "formset"),
        "watertable": ("WaterTable", "water_table_form", "form"),
        "limits": ("Limits", "limits_form", "form"),
        "options": ("Options", "options_form", "form"),
    }
    context = {key: forms[k] for k, (_, key, _) in titles.items()}
    context["forms"] = [(t, forms[k], kind) for k, (t, _, kind) in titles.items()]
    context.update(plot_json=plot_json, search=search, COLOUR_FOS_DICT=COLOUR_FOS_DICT)
    return render(request, "slope/index.html", context)


def reset(request):
'''),
    (VW, "@reset", '''
for key in SAVED:
    request.session[key] = []
return redirect("index")
'''),
    (VW, "@index", '''
if request.method not in ("GET", "POST"):
    return redirect("reset")

if request.method == "POST":
    forms = _bound(request.POST)
    if not all([f.is_valid() for f in forms.values()]):
        return redirect("reset")
    slope = create_slope(*forms.values())
    for plane in slope._search:
        plane["x"], plane["y"] = _outline(plane)
    draw = slope.plot_critical if slope._search else slope.plot_boundary
    search = slope._search
    plot_json = draw(material_table=True, legend=True).update_layout(autosize=True).to_json()
    _store(request, search, plot_json)
    return _page(request, forms, search, plot_json)

saved = [request.session.get(key) for key in SAVED]
if all(saved):
    data, plot_json, search = saved
    try:
        forms = _bound(data)
    except Exception:
        return redirect("reset")
    return _page(request, forms, search, plot_json)

forms = _blank()
slope = Slope(angle=45)
slope.set_materials(Material())
slope.update_analysis_options(iterations=500, slices=10)
slope.analyse_slope(max_fos=5)
for plane in slope._search:
    plane["x"], plane["y"] = _outline(plane)
search = slope._search
plot_json = slope.plot_critical().update_layout(height=1200, width=2000).to_json()
_store(request, search, plot_json)
return _page(request, forms, search, plot_json)
'''),
]
