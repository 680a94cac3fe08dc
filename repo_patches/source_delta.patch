From 9eac7330d3f8b1ec2ae3227d88acf41a5ef5a727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 01/27] fix: set_analysis_limits validates the limit that was
 given

right_x and right_x_left were swapped in the validation, so giving right_x_left
without right_x raised ValueError.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5cc610d..88e97e1 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -976,14 +976,14 @@ class Slope:
             right_x_left = self._limits[2]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x, "right_x_limit"
+                right_x_left, "right_x left coordinate"
             )
 
         if right_x is None:
             right_x = self._limits[3]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x_left, "right_x left coordinate"
+                right_x, "right_x_limit"
             )
 
         # if only one of the double parameters is defined
-- 
2.43.0


From 035fe80514b53cfb1a9a0b767c94ed52950dbe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 02/27] fix: remove_udls keeps the largest magnitude, not the
 load object

plotting after removing one of several uniform loads raised TypeError.
---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 88e97e1..1780dc8 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -539,7 +539,7 @@ class Slope:
             self._udl_max = 0
 
         if self._udls:
-            self._udl_max = max(self._udls, key=lambda x: x.magnitude)
+            self._udl_max = max(udl.magnitude for udl in self._udls)
 
         # reset results
         self._reset_results()
-- 
2.43.0


From bf6cf01fa7ca736427b46cf7ba25dddeadbac3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 03/27] fix: removing loads removes every matching load

the lists were changed while being iterated over, so that one of two equal
loads in a row was left behind.
---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 1780dc8..4675937 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -526,7 +526,7 @@ class Slope:
         """
 
         for udl in udls:
-            for check_udl in self._udls:
+            for check_udl in list(self._udls):
                 if (
                     check_udl.offset == udl.offset
                     and check_udl.magnitude == udl.magnitude
@@ -615,7 +615,7 @@ class Slope:
 
         # can probably write this as O(n) rather than O(n^2)
         for ll in lls:
-            for check_ll in self._lls:
+            for check_ll in list(self._lls):
                 if (
                     check_ll.offset == ll.offset
                     and check_ll.magnitude == ll.magnitude
-- 
2.43.0


From c26ba4693a8a2de6e9873cafd7c7124730222568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 04/27] fix: assert_strictly_positive_number rejects 0

Slope(height=0) was accepted.
---
 pyslope/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/data_validation.py b/pyslope/data_validation.py
index 742c577..61edad1 100644
--- a/pyslope/data_validation.py
+++ b/pyslope/data_validation.py
@@ -27,7 +27,7 @@ def assert_strictly_positive_number(n, name):
             f"The value for '{name}' should be an int or float, not a "
             f"{type(n).__name__}."
         )
-    if n < 0:
+    if n <= 0:
         raise ValueError(f"The value for '{name}' should be > 0, not {n}")
 
 
-- 
2.43.0


From 5fc4f0a256216f55639eb46f522a968929d91ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 05/27] fix: remove_material finds a material of depth 0

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 4675937..998f84e 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -759,7 +759,7 @@ class Slope:
             depth = material.depth_to_bottom
 
         # if depth specified adopt
-        if depth:
+        if depth is not None:
             for m in self._materials:
                 if m.depth_to_bottom == depth:
                     self._materials.remove(m)
-- 
2.43.0


From d7de77b83c406ae62bb23bd6160e389d01fea348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 06/27] fix: set_materials without arguments does not fail on
 an empty model

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 998f84e..32c094a 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -682,7 +682,7 @@ class Slope:
         depths = [material.depth_to_bottom for material in materials]
 
         # if geological unit deeper than model than extend model to fit materials
-        if depths[-1] > self._external_height:
+        if depths and depths[-1] > self._external_height:
             self.update_boundary_options(MIN_EXT_H=depths[-1])
 
         # check material depth unique
-- 
2.43.0


From 28c4f09c8d00bf22a825fc579fb986d0bb473b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 07/27] fix: a number of slices or iterations of 0 is clamped
 like other small values

---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 32c094a..a3a1cb4 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -855,10 +855,10 @@ class Slope:
         ...     max_iterations=50,
         ... )
         """
-        if slices:
+        if slices is not None:
             self._slices = max(min(500, slices), 10)
 
-        if iterations:
+        if iterations is not None:
             self._iterations = max(min(iterations, 100000), 500)
 
         if min_failure_dist is not None:
-- 
2.43.0


From 8d35706f739e278f37e14fd2457d5454bc198064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 08/27] fix: a missing slope height is rejected with ValueError

---
 pyslope/pyslope.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index a3a1cb4..eb788db 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -343,8 +343,7 @@ class Slope:
         Slope: 2V : 0.5H
         """
         # validate inputs
-        if height is not None:
-            data_validation.assert_strictly_positive_number(height, "height")
+        data_validation.assert_strictly_positive_number(height, "height")
         if angle is not None:
             # is allowed to be 90 but not 0
             data_validation.assert_range(angle, "angle", 0, 90, not_low=True)
-- 
2.43.0


From 9e94effa16482ef8e3290e37b542f00364cc41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 09/27] fix: rejected calls leave the section as it was

set_materials extended the section before rejecting duplicate depths, and
update_boundary_options stored one extent before rejecting the other.
---
 pyslope/pyslope.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index eb788db..97812b5 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -680,14 +680,14 @@ class Slope:
 
         depths = [material.depth_to_bottom for material in materials]
 
-        # if geological unit deeper than model than extend model to fit materials
-        if depths and depths[-1] > self._external_height:
-            self.update_boundary_options(MIN_EXT_H=depths[-1])
-
         # check material depth unique
         if len(depths) > len(set(depths)):
             raise ValueError("The same material depth has been input twice")
 
+        # if geological unit deeper than model than extend model to fit materials
+        if depths and depths[-1] > self._external_height:
+            self.update_boundary_options(MIN_EXT_H=depths[-1])
+
         material_refined = []
         # define RL for each material and color for each material
         for i, material in enumerate(materials):
@@ -905,11 +905,15 @@ class Slope:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_H, "Minimum external model height (MIN_EXT_H)"
             )
-            self._MIN_EXT_H = MIN_EXT_H
         if MIN_EXT_L:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_L, "Minimum external model length (MIN_EXT_H)"
             )
+
+        # only change the model once all input is known to be valid
+        if MIN_EXT_H:
+            self._MIN_EXT_H = MIN_EXT_H
+        if MIN_EXT_L:
             self._MIN_EXT_L = MIN_EXT_L
 
         # if the external boundary has been set this call is after init.
-- 
2.43.0


From 3b8f0afefa96947b37279f43b10395fde754c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 10/27] fix: strata, water table and automatic head follow the
 section

---
 pyslope/pyslope.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 97812b5..59b5700 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -271,6 +271,8 @@ class Slope:
         # initialise empty properties used in other components of class
         self._materials = []
         self._water_RL = None
+        self._water_depth = None
+        self._water_analysis_auto = True
         self._udls = []
         self._lls = []
 
@@ -399,6 +401,17 @@ class Slope:
         self._update_udl_coordinates()
         self._update_ll_coordinates()
 
+        # strata and water table keep their depth below the top of the slope
+        for material in self._materials:
+            material.RL = self._external_height - material.depth_to_bottom
+
+        if self._water_depth is not None:
+            self._water_RL = max(0, self._top_coord[1] - self._water_depth)
+
+        # automatic pressure head depends on the angle of the slope
+        if self._water_analysis_auto:
+            self.update_water_analysis_options(auto=True)
+
         # reset limits
         self.remove_analysis_limits()
 
@@ -804,6 +817,7 @@ class Slope:
                 H = 0
 
         self._water_analysis_H = H
+        self._water_analysis_auto = bool(auto)
 
         # reset results
         self._reset_results()
-- 
2.43.0


From dfa533dd341a955c3847db68862e80ba37e9c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 11/27] fix: any number of loads leaves room for the entry
 points of the search

---
 pyslope/pyslope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 59b5700..63f9107 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1051,7 +1051,10 @@ class Slope:
 
         # remove number of points on top to be spread to allow for specific
         # points next to the edge of loads
-        num_points_top = num_points_top - len(self._lls) - len(self._udls)
+        # (the ends of the search range are always considered)
+        num_points_top = max(
+            2, num_points_top - len(self._lls) - len(self._udls)
+        )
 
         # get limits on bounds of slope
         # not some limits might still stretch off slope
-- 
2.43.0


From a1bdeb3c60c87f61749aea1d315fc36da420f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 12/27] fix: the search does not return planes outside of the
 analysis limits

---
 pyslope/pyslope.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 63f9107..f72af43 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1098,7 +1098,16 @@ class Slope:
                 ):
                     search += self._generate_planes(l_c, r_c, num_circles)
 
-        self._search = search
+        # points next to loads, and planes which come out of the ground before
+        # the intended exit point, may be outside of the limits
+        self._search = [
+            plane
+            for plane in search
+            if x1 - 1e-6 <= plane["l_c"][0] <= x2 + 1e-6
+            and x3 - 1e-6 <= plane["r_c"][0] <= x4 + 1e-6
+            and utilities.dist_points(plane["l_c"], plane["r_c"])
+            > self._min_failure_distance
+        ]
 
     def _generate_planes(self, l_c, r_c, num_circles=5):
         """Generate failure plane circle coordinates with entry and exit point.
-- 
2.43.0


From ec91bc14f843314193010644718c005422886ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 13/27] fix: all circles of a plane go through the requested
 entry and exit point

---
 pyslope/pyslope.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index f72af43..ec5e003 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1182,13 +1182,10 @@ class Slope:
             if len(set(i_list)) < 2:
                 continue
 
-            l_c = i_list[0]
-            r_c = i_list[1]
-
             search += [
                 {
-                    "l_c": l_c,
-                    "r_c": r_c,
+                    "l_c": i_list[0],
+                    "r_c": i_list[1],
                     "c_x": c_x,
                     "c_y": c_y,
                     "radius": radius,
-- 
2.43.0


From 7e5f4ac28066e0942f02ed3d30247d75425291de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 14/27] fix: a soil without any resistance has a factor of
 safety of 0, not NaN

---
 pyslope/pyslope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index ec5e003..c0e1f48 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1737,6 +1737,10 @@ class Slope:
             if prev_FS is None:
                 return None
 
+            # no resistance at all, further iterations divide by zero
+            if prev_FS == 0:
+                return 0.0
+
             denom = cos_alpha + (sin_alpha * tan_phi / prev_FS)
             if np.any(denom == 0):
                 return None
-- 
2.43.0


From 3486d42c7b8e9cc0aaff258962e962691df6fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 15/27] fix: a line load at the border of two slices acts on
 exactly one of them

---
 pyslope/pyslope.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index c0e1f48..e8404e7 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1442,8 +1442,10 @@ class Slope:
         )
 
         # --- Add distributed and line loads ---
-        xl = slice_x - half_width
-        xr = slice_x + half_width
+        # neighbouring slices share their border
+        edges = np.linspace(x_left, x_right, num_slices + 1)
+        xl = edges[:-1]
+        xr = edges[1:]
 
         for udl in self._udls:
             overlap = np.minimum(
@@ -1661,8 +1663,14 @@ class Slope:
         )
 
         # --- Add uniformly distributed loads (UDLs) ---
-        x_left = slice_x - half_slice
-        x_right = slice_x + half_slice
+        # neighbouring slices share their border
+        edges = np.linspace(
+            intersections[0][0],
+            intersections[1][0],
+            num_slices + 1,
+        )
+        x_left = edges[:-1]
+        x_right = edges[1:]
         for udl in self._udls:
             overlap = np.minimum(
                 x_right,
-- 
2.43.0


From 05e1664099b22ce84165926cf66e3755d3c2c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 16/27] fix: dynamic analysis handles continuous loads and
 degenerate ranges

---
 pyslope/pyslope.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index e8404e7..e7e3c00 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1786,9 +1786,9 @@ class Slope:
         left = self._length
         for udl in self._udls:
             if udl.dynamic_offset:
-                left = max(left, self._top_coord[0] - udl.length)
+                left = max(left, self._top_coord[0] - (udl.length or 0))
 
-        left -= 0.01
+        left = max(left - 0.01, 0.0)
 
         # check for extreme case with loads at crest (right)
         # if slope is safe (FOS high) then return
@@ -1828,6 +1828,10 @@ class Slope:
             left_fos = self._dynamic_results[left]
             right_fos = self._dynamic_results[right]
 
+            # nothing left to interpolate between
+            if left == right or left_fos == right_fos:
+                break
+
             m = (left_fos - right_fos) / (left - right)
             midpoint = right + (critical_fos - right_fos) / m
 
-- 
2.43.0


From ede64a2150d07d662216809d77e0707f985c4f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 17/27] fix: plotting a very short critical plane does not fail

---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index e7e3c00..81cbb6d 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2939,8 +2939,8 @@ class Slope:
                 y_.append(y[i])
 
         if show_center:
-            x_ += [r_c[0], c_x, l_c[0], x_[0]]
-            y_ += [r_c[1], c_y, l_c[1], y_[0]]
+            x_ = [l_c[0]] + x_ + [r_c[0], c_x, l_c[0]]
+            y_ = [l_c[1]] + y_ + [r_c[1], c_y, l_c[1]]
         else:
             x_ = [l_c[0]] + x_ + [r_c[0]]
             y_ = [l_c[1]] + y_ + [r_c[1]]
-- 
2.43.0


From b43c732599e511f57c1c165ed4b1c3700bd18b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 18/27] fix: web form: dynamic analysis with the Decimal
 critical FOS of the form

---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 1606e98..3a61c03 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -481,7 +481,7 @@ def create_slope(
         # might fail if no dynamic loads set up
         try:
             slope.analyse_dynamic(
-                critical_fos=options_form.cleaned_data["critical_FOS"]
+                critical_fos=float(options_form.cleaned_data["critical_FOS"])
             )
         except Exception:
             slope.analyse_slope(max_fos=5)
-- 
2.43.0


From 0219a3d04f3ba22a7b689cb5a1b4ca3ec10865e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 19/27] fix: pdf without stored results redirects to the main
 page

---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 3a61c03..aa74f2d 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -52,7 +52,7 @@ def reset(request):
 
 def pdf(request, max_fos=5):
     # get saved data, still taking forever.
-    if request.session["plot_json"] == [] or request.session["search"] == []:
+    if not request.session.get("plot_json") or not request.session.get("search"):
         return redirect("index")
     plot = from_json(request.session["plot_json"])
     search = list(eval(str(request.session["search"])))
-- 
2.43.0


From abf14dba4d9998e038473676d27c0aff5740bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 20/27] fix: web form: a model without any plane to show is
 plotted, no server error

---
 slope/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index aa74f2d..ed9143d 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -308,7 +308,11 @@ def index(request):
                 s["x"] = [l_c[0]] + x_ + [r_c[0]]
                 s["y"] = [l_c[1]] + y_ + [r_c[1]]
 
-            plot = slope.plot_critical(material_table=True, legend=True)
+            # there might be no plane with a factor of safety to show
+            if slope._search:
+                plot = slope.plot_critical(material_table=True, legend=True)
+            else:
+                plot = slope.plot_boundary(material_table=True, legend=True)
             plot_json = plot.update_layout(autosize=True).to_json()
 
             search = slope._search
-- 
2.43.0


From b0f857517c2e2b57e9df8f746ce2bf3c7afd6ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 21/27] fix: the section always reaches to the deepest stratum

---
 pyslope/pyslope.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 81cbb6d..5eae4a4 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -366,7 +366,11 @@ class Slope:
         MIN_EXT_H = self._MIN_EXT_H
         MIN_EXT_L = self._MIN_EXT_L
 
-        tot_h = max(3 * height, MIN_EXT_H, 5 * length / 2)
+        # section always includes the deepest of the assigned materials
+        tot_h = max(
+            [3 * height, MIN_EXT_H, 5 * length / 2]
+            + [m.depth_to_bottom for m in self._materials]
+        )
         tot_l = max(5 * length, MIN_EXT_L, 4 * height)
 
         # determine coordinates for edges of slope
-- 
2.43.0


From 3af3bce98109b475fdd3e0122eef705504aec1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:02 +0000
Subject: [PATCH 22/27] fix: individual planes follow a changed section

---
 pyslope/pyslope.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5eae4a4..5d61d9f 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1265,6 +1265,14 @@ class Slope:
 
         # if individual failure planes set only analyse them
         if self._individual_planes != []:
+            # the section may have changed since the planes were added
+            for plane in self._individual_planes:
+                i_list = self._get_circle_external_intersection(
+                    plane["c_x"], plane["c_y"], plane["radius"]
+                )
+                if len(set(i_list)) >= 2:
+                    plane["l_c"], plane["r_c"] = i_list[0], i_list[1]
+
             self._search = self._individual_planes
 
         # otherwise generate planes across the entire slope
-- 
2.43.0


From 2469deb4cf5bef09d384144bccfd8ac69b1a9fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:51 +0000
Subject: [PATCH 23/27] fix: apply pore pressure of a water table at the base
 of the section

---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5d61d9f..0dca19f 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1481,7 +1481,7 @@ class Slope:
             W[mask] += ll.magnitude
 
         # --- Water uplift ---
-        if self._water_RL:
+        if self._water_RL is not None:
             x_water = self.get_external_x_intersection(self._water_RL)
             mask = (x_water < slice_x) & (slice_x < self._bot_coord[0])
             head = np.maximum(
@@ -1705,7 +1705,7 @@ class Slope:
                 W[mask] += ll.magnitude
 
         # --- Water pressures (uplift) ---
-        if self._water_RL:
+        if self._water_RL is not None:
             x_water = self.get_external_x_intersection(self._water_RL)
             within_slope = (x_water < slice_x) & (slice_x < self._bot_coord[0])
             head = np.maximum(
-- 
2.43.0


From 209ef4862b3ecfe0b46e0afac690df4cda270357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:06 +0000
Subject: [PATCH 24/27] fix: draw the water table along the ground when it is
 at the level of the toe

---
 pyslope/pyslope.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0dca19f..d7eb09e 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2445,11 +2445,10 @@ class Slope:
         x_line = [0, x]
         y_line = [y, y]
 
-        # if x is less than bot slope then is also same as saying x is less than
-        # the edge of the model.
+        # the water table meets the slope when it is not below the toe.
         # basically need to make sure the water table continues along the surface
         # as is conservatively considered in the model
-        if x <= self._bot_coord[0]:
+        if y >= self._bot_coord[1]:
             x_line += [self._bot_coord[0], self._external_length]
             y_line += [self._bot_coord[1], self._bot_coord[1]]
 
-- 
2.43.0


From 0e2c3ad28f34e2ad88d4e2f647509656d8e93b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:40 +0000
Subject: [PATCH 25/27] fix: fall back to the automatic color for a color that
 cannot be drawn

Empty colors of loads, malformed hex values and the color names that
plotly does not know passed the check and made the plot (or the call)
fail, or loads were drawn without their color.
---
 pyslope/utilities.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyslope/utilities.py b/pyslope/utilities.py
index 94d45fa..4cde4eb 100644
--- a/pyslope/utilities.py
+++ b/pyslope/utilities.py
@@ -1,6 +1,9 @@
 # standard library imports
 from math import cos, sin, sqrt, radians
+
+# third party imports
 from colour import Color
+import plotly.graph_objects as go
 
 MATERIAL_COLORS = [
     "#efa59c",
@@ -17,10 +20,17 @@ MATERIAL_COLORS = [
 
 
 def is_color(color):
+    # Color takes an empty color as black
+    if not color:
+        return False
+
     try:
-        color = Color(color)
+        # malformed hex values raise an AttributeError
+        Color(color)
+        # a few color names are not known to plotly
+        go.Scatter(fillcolor=color)
         return True
-    except ValueError:
+    except (ValueError, AttributeError):
         return False
 
 
-- 
2.43.0


From e580d153b6c44b78bb2f5468681414b366081644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:01 +0000
Subject: [PATCH 26/27] fix: plot_all_planes draws the legend once, and only
 when asked for

---
 pyslope/pyslope.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index d7eb09e..7483b8f 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2332,8 +2332,6 @@ class Slope:
 
         fig = self.plot_critical(material_table=material_table, legend=legend)
 
-        fig = self._plot_FOS_legend(fig)
-
         # JB 20.04.22 - 'hacked' into how plotly works to make faster
         # ultimately not very readible approach compared to the old approach
         # however old approach was too slow
-- 
2.43.0


From b232a0ea1cb9d8f87e496342a44bd4452dba70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:30 +0000
Subject: [PATCH 27/27] fix: web form: values that the model rejects lead back
 to the main page, no server error

---
 slope/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index ed9143d..8185e14 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -276,7 +276,11 @@ def index(request):
         # if form is valid
         if valid:
 
-            slope = create_slope(*form_list)
+            # the model might reject values that the forms accept
+            try:
+                slope = create_slope(*form_list)
+            except ValueError:
+                return redirect("reset")
 
             # return color_dictionary
             # add coordinates of failure planes to information that gets passed back.
-- 
2.43.0

