From 2317aa028b97167d1efd3562618303a96ec46fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:49 +0000
Subject: [PATCH 01/33] fix: sample j clustering function over the j resolution

The j clustering function was sampled at ni + 1 points, so a patch with
different resolutions in each direction was truncated or raised an
IndexError.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index ebfa8b0..757d09c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -74,7 +74,7 @@ def surfce_to_stl(
         r_list = default_vertex_func(lb=0.0, ub=1.0, steps=ni + 1, spacing=si)
 
     if j_clustering_func:
-        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, ni + 1)]
+        s_list = [j_clustering_func(i) for i in np.linspace(0, 1, nj + 1)]
     else:
         s_list = default_vertex_func(lb=0.0, ub=1.0, steps=nj + 1, spacing=sj)
 
-- 
2.43.0


From 215bb236a9111ee330c740ed6a9f01512b46ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:49 +0000
Subject: [PATCH 02/33] fix: use the s-direction resolution when meshing a
 component

The r-direction resolution was passed for both directions, so per-edge
resolutions of a swept component were ignored and the closed ends did not
match the swept sides.
---
 src/hypervehicle/components/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index b784f60..7fd3573 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -273,7 +273,7 @@ class Component(AbstractComponent):
             ]
         else:
             case_list = [
-                [k, patch, self.patch_res_r[k], self.patch_res_r[k]]
+                [k, patch, self.patch_res_r[k], self.patch_res_s[k]]
                 for k, patch in self.patches.items()
             ]
 
-- 
2.43.0


From 244fca2ad32fbd34c0f9c71161080fe41d92e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:49 +0000
Subject: [PATCH 03/33] fix: carry per-patch resolution over to mirrored
 patches

Meshing a reflected swept component with per-edge resolutions raised a
KeyError because the mirrored patches had no resolution assigned.
---
 src/hypervehicle/components/component.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 7fd3573..034263a 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -237,6 +237,10 @@ class Component(AbstractComponent):
             mirrored_patches = {}
             for key, patch in self.patches.items():
                 mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
+                if key in self.patch_res_r:
+                    # Inherit resolution of original patch
+                    self.patch_res_r[f"{key}_mirrored"] = self.patch_res_r[key]
+                    self.patch_res_s[f"{key}_mirrored"] = self.patch_res_s[key]
 
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
-- 
2.43.0


From fd6a76969cd317f22526e768dce9d6a101b4a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:49 +0000
Subject: [PATCH 04/33] fix: honour the t_B2 argument of Wing

A user-supplied t_B2 was replaced with t_B1.
---
 src/hypervehicle/components/wing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 498800d..9029269 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -163,7 +163,7 @@ class Wing(Component):
         if self.params["t_B2"] == None:
             self.t_B2 = 0.5 * (1 + self.t_B1)
         else:
-            self.t_B2 = self.params["t_B1"]
+            self.t_B2 = self.params["t_B2"]
 
         # Save other params
         self.TE_top = None
-- 
2.43.0


From 5066bc39fc94cfb5a5d69d93e5bee473fbafa6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:49 +0000
Subject: [PATCH 05/33] fix: y component of Vector3.transform_to_global_frame

The third basis vector was scaled by the local y coordinate. Arcs whose
plane normal has a y component left their plane.
---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 1f14705..fa9223d 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -205,7 +205,7 @@ class Vector3:
     ):
         """Change the coordinates from the local right-handed (RH) system at point c."""
         new_x = self.x * n.x + self.y * t1.x + self.z * t2.x
-        new_y = self.x * n.y + self.y * t1.y + self.y * t2.y
+        new_y = self.x * n.y + self.y * t1.y + self.z * t2.y
         new_z = self.x * n.z + self.y * t1.z + self.z * t2.z
         if c is not None:
             new_x += c.x
-- 
2.43.0


From 112f93e68cdf38d053d7d96d4016498f807861d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:49 +0000
Subject: [PATCH 06/33] fix: transform_to_local_frame updates the vector when c
 is given

Subtracting the frame origin rebound the name to a new vector, so the
vector the method was called on kept its global coordinates.
---
 src/hypervehicle/geometry/vector.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index fa9223d..7fc60a3 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -220,12 +220,11 @@ class Vector3:
         self, n: Vector3, t1: Vector3, t2: Vector3, c: Vector3 = None
     ):
         """Change coordinates into the local right-handed (RH) system at point c."""
-        if c is not None:
-            self -= c
+        rel = self if c is None else self - c
 
-        x = self.dot(n)
-        y = self.dot(t1)
-        z = self.dot(t2)
+        x = rel.dot(n)
+        y = rel.dot(t1)
+        z = rel.dot(t2)
 
         self._x = x
         self._y = y
-- 
2.43.0


From bfb4d61a82f21881c433a63ab244b9243d330b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:49 +0000
Subject: [PATCH 07/33] fix: in-place division of Vector3 by numpy scalars

Dividing in place by a numpy float32 replaced the vector with the
NotImplementedError class, and normalize() silently did nothing.
---
 src/hypervehicle/geometry/vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 7fc60a3..39f31d7 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -135,13 +135,13 @@ class Vector3:
 
     def __itruediv__(self, other):
         """Returns self /= other number."""
-        if isinstance(other, (float, int)) or isinstance(other, np.ndarray):
+        if isinstance(other, (float, int, np.number, np.ndarray)):
             self._x /= other
             self._y /= other
             self._z /= other
             return self
         else:
-            return NotImplementedError
+            return NotImplemented
 
     def __abs__(self):
         """Returns magnitude."""
-- 
2.43.0


From e3438fa776934f84b24c2c0a161ed5b42ea585e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:49 +0000
Subject: [PATCH 08/33] fix: direction of the closing segment of a closed
 Polyline

The closing line ran from the start to the end of the path, so a closed
polyline jumped at the last breakpoint and did not return to its start.
---
 src/hypervehicle/geometry/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index e3d6bc0..8f9a6f1 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -96,7 +96,7 @@ class Polyline(Path):
             p0 = self.segments[0](0.0)
             p1 = self.segments[-1](1.0)
             if abs(p1 - p0) > tolerance:
-                self.segments.append(Line(p0, p1))
+                self.segments.append(Line(p1, p0))
         self.reset_breakpoints()
 
     def reset_breakpoints(self):
-- 
2.43.0


From 8b2bc5dd6cd1a7eab25d847bf06767108b71bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:49 +0000
Subject: [PATCH 09/33] fix: length of SubRangedPath

The length of the whole underlying path was returned regardless of the
sub-range, which placed the breakpoints of a Polyline incorrectly.
---
 src/hypervehicle/geometry/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 9e0919d..6cf3009 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -33,7 +33,9 @@ class SubRangedPath(Path):
         return self.underlying_path(t_dash)
 
     def length(self):
-        return self.underlying_path.length()
+        if {self.t0, self.t1} == {0, 1}:
+            return self.underlying_path.length()
+        return super().length()
 
 
 class ReversedPath(SubRangedPath):
-- 
2.43.0


From b60ef15620250f798c248a4bb447b7edf4867c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 10/33] fix: Polyline evaluation no longer zeroes the segment's
 own vector

The accumulator was cleared in place, which destroyed the stored point of
a segment that returns one of its own vectors (such as a single point
Bezier).
---
 src/hypervehicle/geometry/path.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypervehicle/geometry/path.py b/src/hypervehicle/geometry/path.py
index 8f9a6f1..d605d16 100644
--- a/src/hypervehicle/geometry/path.py
+++ b/src/hypervehicle/geometry/path.py
@@ -121,8 +121,7 @@ class Polyline(Path):
         if n == 1:
             return self.segments[0](t)
 
-        f = self.segments[0](t)
-        f *= 0.0
+        f = self.segments[0](t) * 0.0
 
         for i, tl, tu in zip(range(n), self.t_values[:-1], self.t_values[1:]):
             t_local = (t - tl) / (tu - tl)
-- 
2.43.0


From 5bcd74aa07949cc6a36a06b1f47207c911fec831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 11/33] fix: orient all cube and sphere faces outwards

The west, north and bottom faces had inward normals, so the enclosed
volume of a cube evaluated to zero and the mesh failed its own check.
---
 src/hypervehicle/geometry/geometry.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 6cf3009..940143a 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -808,19 +808,19 @@ class CubePatch(ParametricSurface):
             z = -1.0 + 2.0 * s
         elif self.face == "west":
             x = -1.0
-            y = -1.0 + 2.0 * r
-            z = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "south":
             x = -1.0 + 2.0 * r
             y = -1.0
             z = -1.0 + 2.0 * s
         elif self.face == "north":
-            x = -1.0 + 2.0 * r
+            x = -1.0 + 2.0 * s
             y = 1.0
-            z = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "bottom":
-            x = -1.0 + 2.0 * r
-            y = -1.0 + 2.0 * s
+            x = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * r
             z = -1.0
         elif self.face == "top":
             x = -1.0 + 2.0 * r
@@ -868,19 +868,19 @@ class SpherePatch(ParametricSurface):
             z = -1.0 + 2.0 * s
         elif self.face == "west":
             x = -1.0
-            y = -1.0 + 2.0 * r
-            z = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "south":
             x = -1.0 + 2.0 * r
             y = -1.0
             z = -1.0 + 2.0 * s
         elif self.face == "north":
-            x = -1.0 + 2.0 * r
+            x = -1.0 + 2.0 * s
             y = 1.0
-            z = -1.0 + 2.0 * s
+            z = -1.0 + 2.0 * r
         elif self.face == "bottom":
-            x = -1.0 + 2.0 * r
-            y = -1.0 + 2.0 * s
+            x = -1.0 + 2.0 * s
+            y = -1.0 + 2.0 * r
             z = -1.0
         elif self.face == "top":
             x = -1.0 + 2.0 * r
-- 
2.43.0


From edff1cc368142d27ce2686f729c5ad76af9b3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 12/33] fix: allow stl_check to skip the matching lines check

Calling stl_check(matching_lines=False) raised an UnboundLocalError.
---
 src/hypervehicle/components/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 034263a..02f560b 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -387,6 +387,9 @@ class Component(AbstractComponent):
                 print(f"      FAIL")
                 pass_flag = False
 
+        if not matching_lines:
+            return pass_flag
+
         if matching_lines:
             print(f"    Matching Lines Check")
             reversed_triangles = (
-- 
2.43.0


From b8ee683a71fa4e278549e2efe96bceb82c6fefc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 13/33] fix: do not keep partial surfaces when meshing a patch
 fails

An error while meshing one patch left the component with the surfaces of
the patches before it. The next access of the mesh then returned an
incomplete mesh instead of trying again. Re-running surface() also left
the previously combined mesh in place.
---
 src/hypervehicle/components/component.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 02f560b..e4e41df 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -291,14 +291,14 @@ class Component(AbstractComponent):
             )
             return (key, surface)
 
-        self.surfaces = {}
+        surfaces = {}
         if self._multiprocess is True:
             # Initialise surfaces and pool
             pool = Pool()
 
             # Submit tasks
             for result in pool.starmap(wrapper, case_list):
-                self.surfaces[result[0]] = result[1]
+                surfaces[result[0]] = result[1]
 
         else:
             for case in case_list:
@@ -306,9 +306,13 @@ class Component(AbstractComponent):
                 pat = case[1]
                 print(f"START: Creating stl for '{k}'.")
                 result = wrapper(k, pat, case[2], case[3])
-                self.surfaces[result[0]] = result[1]
+                surfaces[result[0]] = result[1]
                 print(f"  DONE: Creating stl for '{k}'.")
 
+        # Save surfaces only once all patches have been meshed
+        self.surfaces = surfaces
+        self.mesh = None
+
     def to_vtk(self):
         raise NotImplementedError("This method has not been implemented yet.")
         # TODO - check for processed grids
-- 
2.43.0


From f28c593082047b7d05a640c1af3faddd7953eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 14/33] fix: regenerating or transforming a component discards
 stale data

Generating a vehicle a second time kept the mirrored patches of the first
run, which were then mirrored again. Rotating, translating or reflecting a
component after its mesh had been built kept returning the old mesh.
---
 src/hypervehicle/components/component.py | 16 ++++++++++++++++
 src/hypervehicle/components/composite.py |  1 +
 src/hypervehicle/components/fin.py       |  1 +
 src/hypervehicle/components/polygon.py   |  2 ++
 src/hypervehicle/components/revolved.py  |  1 +
 src/hypervehicle/components/swept.py     |  1 +
 src/hypervehicle/components/wing.py      |  1 +
 7 files changed, 23 insertions(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index e4e41df..bd21e2b 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -171,8 +171,19 @@ class Component(AbstractComponent):
             setattr(result, k, deepcopy(v, memo))
         return result
 
+    def _reset_patches(self):
+        """Discards the patches, along with any mesh generated from them."""
+        self.patches = {}
+        self._reset_mesh()
+
+    def _reset_mesh(self):
+        """Discards any mesh generated from the patches."""
+        self.surfaces = None
+        self.mesh = None
+
     def curve(self):
         if self._curvatures is not None:
+            self._reset_mesh()
             for curvature in self._curvatures:
                 for key, patch in self.patches.items():
                     self.patches[key] = CurvedPatch(
@@ -206,6 +217,7 @@ class Component(AbstractComponent):
         self._mesh = value
 
     def rotate(self, angle: float = 0, axis: str = "y"):
+        self._reset_mesh()
         for key, patch in self.patches.items():
             self.patches[key] = RotatedPatch(patch, np.deg2rad(angle), axis=axis)
 
@@ -217,6 +229,7 @@ class Component(AbstractComponent):
             offset_function = offset
 
         # Could wrap it in a lambda if provided
+        self._reset_mesh()
         for key, patch in self.patches.items():
             self.patches[key] = OffsetPatchFunction(patch, offset_function)
 
@@ -227,12 +240,15 @@ class Component(AbstractComponent):
 
     def apply_modifier(self):
         if self._modifier_function:
+            self._reset_mesh()
             for key, patch in self.patches.items():
                 self.patches[key] = OffsetPatchFunction(patch, self._modifier_function)
 
     def reflect(self, axis: str = None):
         axis = self._reflection_axis if self._reflection_axis is not None else axis
         if axis is not None:
+            self._reset_mesh()
+
             # Create mirrored patches
             mirrored_patches = {}
             for key, patch in self.patches.items():
diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index 1b1b17f..fa77f96 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -129,4 +129,5 @@ class CompositeComponent(Component):
             for key, patch in component.patches.items():
                 merged[f"{key}_{ix}"] = patch
 
+        self._reset_patches()
         self.patches = merged
diff --git a/src/hypervehicle/components/fin.py b/src/hypervehicle/components/fin.py
index 1a3d573..4ba157b 100644
--- a/src/hypervehicle/components/fin.py
+++ b/src/hypervehicle/components/fin.py
@@ -491,4 +491,5 @@ class Fin(Component):
                 )
 
         # Save patches
+        self._reset_patches()
         self.patches = fin_patch_dict
diff --git a/src/hypervehicle/components/polygon.py b/src/hypervehicle/components/polygon.py
index dffb940..0bd93b8 100644
--- a/src/hypervehicle/components/polygon.py
+++ b/src/hypervehicle/components/polygon.py
@@ -29,6 +29,7 @@ class Cube(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        self._reset_patches()
         faces = ["east", "west", "south", "north", "bottom", "top"]
         for face in faces:
             self.patches[face] = CubePatch(self.a, self.centre, face)
@@ -59,6 +60,7 @@ class Sphere(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        self._reset_patches()
         faces = ["east", "west", "south", "north", "bottom", "top"]
 
         for face in faces:
diff --git a/src/hypervehicle/components/revolved.py b/src/hypervehicle/components/revolved.py
index 26b2345..85692cc 100644
--- a/src/hypervehicle/components/revolved.py
+++ b/src/hypervehicle/components/revolved.py
@@ -25,6 +25,7 @@ class RevolvedComponent(Component):
         super().__init__(stl_resolution=stl_resolution, verbosity=verbosity, name=name)
 
     def generate_patches(self):
+        self._reset_patches()
         for i in range(4):
             self.patches[f"revolved_fuse_{i}"] = RevolvedPatch(
                 self.revolve_line, i * np.pi / 2, (i + 1) * np.pi / 2
diff --git a/src/hypervehicle/components/swept.py b/src/hypervehicle/components/swept.py
index 72dcfba..5cf8313 100644
--- a/src/hypervehicle/components/swept.py
+++ b/src/hypervehicle/components/swept.py
@@ -86,6 +86,7 @@ class SweptComponent(Component):
                 raise Exception(f"stl_resolution not compatible for close_end.")
 
     def generate_patches(self):
+        self._reset_patches()
         for ne in range(self.n_edges):
             k = f"swept_patch_{ne}"
             edges = []
diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 9029269..808a005 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -171,6 +171,7 @@ class Wing(Component):
         self.TE_mean_line = None
 
     def generate_patches(self):
+        self._reset_patches()
         # Create wing planform shape
         self._create_planform_patches()
 
-- 
2.43.0


From a1aae946811bda19885f43affa17ae8bf9592365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 15/33] fix: apply the options of components added to a
 CompositeComponent

The curvatures, reflection and transformations given for a child component
were stored but never applied.
---
 src/hypervehicle/components/composite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypervehicle/components/composite.py b/src/hypervehicle/components/composite.py
index fa77f96..31d0f23 100644
--- a/src/hypervehicle/components/composite.py
+++ b/src/hypervehicle/components/composite.py
@@ -122,6 +122,9 @@ class CompositeComponent(Component):
         # Generate child patches
         for component in self.components:
             component.generate_patches()
+            component.curve()
+            component.reflect()
+            component.transform()
 
         # Merge patches
         merged = {}
-- 
2.43.0


From 08b59b735aae3ac53a257482fc9a0173e2e9d99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 16/33] fix: merge the STL files that were written

The list of files to merge ignored the prefix and used the internal name of
unnamed components, so it named files which did not exist.
---
 src/hypervehicle/vehicle.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hypervehicle/vehicle.py b/src/hypervehicle/vehicle.py
index e143201..8113d5d 100644
--- a/src/hypervehicle/vehicle.py
+++ b/src/hypervehicle/vehicle.py
@@ -333,6 +333,7 @@ class Vehicle:
             else:
                 print(f"{s}.")
 
+        stl_files = []
         types_generated = {}
         for component in self.components:
             # Get component count
@@ -355,6 +356,8 @@ class Vehicle:
                 print(f"  Writing: {stl_name}                 ", end="\r")
 
             component.to_stl(stl_name)
+            if not component._ghost:
+                stl_files.append(stl_name)
 
             # Update component count
             types_generated[component.componenttype] = no + 1
@@ -410,13 +413,8 @@ class Vehicle:
                 if not prefix:
                     prefix = self.name
 
-                # Get component names (excluding ghost components)
-                filenames = []
-                for name, comp in self._named_components.items():
-                    if not comp._ghost:
-                        # Append
-                        filenames.append(f"{name}.stl")
-                utilities.merge_stls(stl_files=filenames, name=prefix)
+                # Merge the files written (excludes ghost components)
+                utilities.merge_stls(stl_files=stl_files, name=prefix)
 
         if self.verbosity > 0:
             print("\rAll components written to STL file format.", end="\n")
-- 
2.43.0


From 6ce1c17bb6ba699aeb15a3427fec59b5ba457016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 17/33] fix: parallel axis theorem in
 assess_inertial_properties

The offset contribution was m * r**2 broadcast over the rows of the inertia
matrix, instead of m * (|r|^2 * identity - r r^T).
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 757d09c..44807c6 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -218,7 +218,7 @@ def assess_inertial_properties(
     for component in vehicle._named_components:
         m = masses[component]
         r = cgs[component] - composite_cog
-        I_adj = inertias[component] + m * r**2
+        I_adj = inertias[component] + m * (np.dot(r, r) * np.eye(3) - np.outer(r, r))
 
         shifted_inertias[component] = I_adj
         composite_inertia += I_adj
-- 
2.43.0


From a64cd760efe03576e23c8a40a81bafe00a315b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:45 +0000
Subject: [PATCH 18/33] fix: missing values in combined sensitivities

Duplicate vertices are dropped separately for each parameter. When two
coincident vertices move apart for one parameter only, joining the tables
produced rows with missing coordinates and sensitivities.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 44807c6..a09608c 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -610,7 +610,7 @@ class SensitivityStudy:
                 p_s = sensitivities[param][component][
                     [f"dxd{param}", f"dyd{param}", f"dzd{param}"]
                 ]
-                df = pd.concat([df, p_s], axis=1)
+                df = pd.concat([df, p_s], axis=1, join="inner")
 
             allsens[component] = df
 
-- 
2.43.0


From b100fab5e310b420c92e6e7c96a7bea119d5643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:46 +0000
Subject: [PATCH 19/33] fix: SweptPatch evaluation at the last cross section

Rounding of the axial distance could place r = 1 just beyond the last cross
section, which raised an IndexError.
---
 src/hypervehicle/geometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 940143a..297954b 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -654,7 +654,7 @@ class SweptPatch(ParametricSurface):
 
         # Find index of bounding cross sections
         for i, lv in enumerate(self.section_origins):
-            if dist == self.section_origins[-1]:
+            if dist >= self.section_origins[-1]:
                 i = len(self.section_origins) - 2
                 break
             elif lv <= dist < self.section_origins[i + 1]:
-- 
2.43.0


From a0e694c628d737a5e8f564bb08ffd1771a9ec7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:46 +0000
Subject: [PATCH 20/33] fix: swept patch evaluation outside of the unit
 interval

Clustering functions can return values exceeding 1 by rounding, which
raised an IndexError when meshing swept components. Values below 0 were
interpolated between the first and last edges.
---
 src/hypervehicle/geometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 297954b..4099492 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -707,7 +707,7 @@ class SweptPatchfromEdges(ParametricSurface):
             return self.edges[i](s)
         else:
             # need to interpolate
-            index_above = np.where(r_slices > r)[0][0]
+            index_above = np.clip(np.sum(r_slices <= r), 1, self.n_edges - 1)
             index_below = index_above - 1
             above = self.edges[index_above](s)
             below = self.edges[index_below](s)
-- 
2.43.0


From e033cce8310c480522dc26781084e048bf695c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:46 +0000
Subject: [PATCH 21/33] fix: accept numpy integers and arrays as vector
 coordinates

The coordinate type check rejected arrays, which structured grids rely on
to evaluate a surface at all of their vertices.
---
 src/hypervehicle/geometry/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 39f31d7..16fb393 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -33,7 +33,7 @@ class Vector3:
             self._x = x.x
             self._y = x.y
             self._z = x.z
-        elif isinstance(x, (float, int, np.floating)):
+        elif isinstance(x, (float, int, np.number, np.ndarray)):
             self._x = x
             self._y = y if y is not None else 0.0
             self._z = z if z is not None else 0.0
-- 
2.43.0


From 25c1378ef65acdaceecced3de582183757ed9818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:15 +0000
Subject: [PATCH 22/33] fix: sensitivities to parameters with a nominal value
 of zero

A relative perturbation leaves a zero parameter unchanged, so the finite
difference divided by zero. Perturb such parameters by an absolute amount.
---
 src/hypervehicle/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index a09608c..6150e9a 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -379,7 +379,11 @@ class SensitivityStudy:
             adjusted_parameters = parameter_dict.copy()
 
             # Adjust current parameter for sensitivity analysis
-            adjusted_parameters[parameter] *= 1 + perturbation / 100
+            if value == 0:
+                # Relative perturbation not possible, use absolute perturbation
+                adjusted_parameters[parameter] = perturbation / 100
+            else:
+                adjusted_parameters[parameter] *= 1 + perturbation / 100
             dp = adjusted_parameters[parameter] - value
 
             # Create Vehicle instance with perturbed parameter
-- 
2.43.0


From 130a80f6399ff3da1f2f6280266fa12f4165969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:12 +0000
Subject: [PATCH 23/33] fix: reflecting a component repeatedly no longer drops
 earlier reflections

---
 src/hypervehicle/components/component.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index bd21e2b..cd100d9 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -252,11 +252,15 @@ class Component(AbstractComponent):
             # Create mirrored patches
             mirrored_patches = {}
             for key, patch in self.patches.items():
-                mirrored_patches[f"{key}_mirrored"] = MirroredPatch(patch, axis=axis)
+                mirrored_key = f"{key}_mirrored"
+                while mirrored_key in self.patches or mirrored_key in mirrored_patches:
+                    # Patch has already been mirrored, keep both reflections
+                    mirrored_key += "_mirrored"
+                mirrored_patches[mirrored_key] = MirroredPatch(patch, axis=axis)
                 if key in self.patch_res_r:
                     # Inherit resolution of original patch
-                    self.patch_res_r[f"{key}_mirrored"] = self.patch_res_r[key]
-                    self.patch_res_s[f"{key}_mirrored"] = self.patch_res_s[key]
+                    self.patch_res_r[mirrored_key] = self.patch_res_r[key]
+                    self.patch_res_s[mirrored_key] = self.patch_res_s[key]
 
             # Now either add the reflected patches to the same component, or
             # replace the patches with their reflected versions
-- 
2.43.0


From 64783ee1b3dd80ce546d280e994f72ea0463b701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:12 +0000
Subject: [PATCH 24/33] fix: exclude the combined sensitivity file from
 matching wherever it is located

---
 src/hypervehicle/utilities.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 6150e9a..f853210 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -702,11 +702,11 @@ def append_sensitivities_to_tri(
     points_df = pd.DataFrame(points_data_list, columns=["x", "y", "z"]).dropna()
 
     # Ensure previous components sensitivity file is not included
-    try:
-        del dp_filenames[dp_filenames.index(combined_sens_fn)]
-    except ValueError:
-        # It is not in there
-        pass
+    dp_filenames = [
+        fn
+        for fn in dp_filenames
+        if os.path.basename(fn) != os.path.basename(combined_sens_fn)
+    ]
 
     # Load and concatenate sensitivity data across components
     dp_df = pd.DataFrame()
-- 
2.43.0


From 5cd279bf31ef50a052464641e9b42578bd5943b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:21 +0000
Subject: [PATCH 25/33] fix: an axis passed to Component.reflect takes
 precedence

---
 src/hypervehicle/components/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index cd100d9..56b49fc 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -245,7 +245,7 @@ class Component(AbstractComponent):
                 self.patches[key] = OffsetPatchFunction(patch, self._modifier_function)
 
     def reflect(self, axis: str = None):
-        axis = self._reflection_axis if self._reflection_axis is not None else axis
+        axis = axis if axis is not None else self._reflection_axis
         if axis is not None:
             self._reset_mesh()
 
-- 
2.43.0


From 9fa5e35cb5f60a6d7e05b66f8afd2c7d4bae29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:45 +0000
Subject: [PATCH 26/33] fix: sum facet areas without converting an array to a
 float

Mesh.areas has one column per facet, so the builtin sum gives an array of one
element, which current numpy versions refuse to convert to a float. Vehicle
analysis failed for every vehicle.
---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index f853210..94d5493 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -192,7 +192,7 @@ def assess_inertial_properties(
         )
 
         # Also calculate surface area
-        area = float(sum(component.mesh.areas))
+        area = float(component.mesh.areas.sum())
 
         # Save component result
         volumes[name] = volume
-- 
2.43.0


From a3a6e2aba30853d1c067930a3a24ecc0e922903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:16 +0000
Subject: [PATCH 27/33] fix: leave out the elliptical cap when closing a wing
 with a flat leading edge

---
 src/hypervehicle/components/wing.py | 63 +++++++++++++++--------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/hypervehicle/components/wing.py b/src/hypervehicle/components/wing.py
index 808a005..79139a1 100644
--- a/src/hypervehicle/components/wing.py
+++ b/src/hypervehicle/components/wing.py
@@ -530,42 +530,43 @@ class Wing(Component):
             west=mid_vert_bot,
         )
 
-        elipse_top = ElipsePath(
-            centre=TT_mid,
-            thickness=TT_mid.z - TT_top.z,
-            LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
-            side="top",
-        )
-        elipse_bot = ElipsePath(
-            centre=TT_mid,
-            thickness=TT_mid.z - TT_bot.z,
-            LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
-            side="bot",
-        )
-        elipse_top = ArcLengthParameterizedPath(underlying_path=elipse_top)
-        elipse_bot = ArcLengthParameterizedPath(underlying_path=elipse_bot)
-
-        # Now reverse the paths for correct orientation
-        elipse_bot = SubRangedPath(underlying_path=elipse_bot, t0=1.0, t1=0.0)
-
-        interior_ellip = CoonsPatch(
-            north=elipse_bot,
-            east=elipse_top,
-            south=Line(p0=TT_mid, p1=TT_top),
-            west=Line(p0=TT_mid, p1=TT_bot),
-        )
-
-        # Rotate patch
-        interior_ellip = RotatedPatch(
-            interior_ellip, np.deg2rad(-90), axis="z", point=TT_mid
-        )
-
         # Append to patch_dict
         self.patches["wing_close_top_patch0"] = interior_top_patch0
         self.patches["wing_close_top_patch1"] = interior_top_patch1
         self.patches["wing_close_bot_patch0"] = interior_bot_patch0
         self.patches["wing_close_bot_patch1"] = interior_bot_patch1
-        self.patches["interior_ellip"] = interior_ellip
+
+        if self.params["LE_TYPE"] != "FLAT":
+            elipse_top = ElipsePath(
+                centre=TT_mid,
+                thickness=TT_mid.z - TT_top.z,
+                LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
+                side="top",
+            )
+            elipse_bot = ElipsePath(
+                centre=TT_mid,
+                thickness=TT_mid.z - TT_bot.z,
+                LE_width=self.params["FUNC_LEADING_EDGE_WIDTH"](1),
+                side="bot",
+            )
+            elipse_top = ArcLengthParameterizedPath(underlying_path=elipse_top)
+            elipse_bot = ArcLengthParameterizedPath(underlying_path=elipse_bot)
+
+            # Now reverse the paths for correct orientation
+            elipse_bot = SubRangedPath(underlying_path=elipse_bot, t0=1.0, t1=0.0)
+
+            interior_ellip = CoonsPatch(
+                north=elipse_bot,
+                east=elipse_top,
+                south=Line(p0=TT_mid, p1=TT_top),
+                west=Line(p0=TT_mid, p1=TT_bot),
+            )
+
+            # Rotate patch
+            interior_ellip = RotatedPatch(
+                interior_ellip, np.deg2rad(-90), axis="z", point=TT_mid
+            )
+            self.patches["interior_ellip"] = interior_ellip
 
         # Interior TE
         TE_point = Vector3(
-- 
2.43.0


From ea85a798f77f7f9d08833d79573563fb2eb92851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:30 +0000
Subject: [PATCH 28/33] fix: update facet normals when repairing a mesh

---
 src/hypervehicle/components/component.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 56b49fc..588fff5 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -528,3 +528,4 @@ class Component(AbstractComponent):
         mesh.v0 = vectors[0:N_faces, :]
         mesh.v1 = vectors[N_faces : 2 * N_faces, :]
         mesh.v2 = vectors[2 * N_faces : 3 * N_faces, :]
+        mesh.update_normals()
-- 
2.43.0


From 87b1470ed8e857a33968ff98b1c53303ef4652a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:08 +0000
Subject: [PATCH 29/33] fix: scaling a vector in place no longer changes arrays
 shared with other vectors

---
 src/hypervehicle/geometry/vector.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 16fb393..3ba88ff 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -126,9 +126,9 @@ class Vector3:
     def __imul__(self, other):
         """Returns self *= other number."""
         if isinstance(other, (float, int)) or isinstance(other, np.ndarray):
-            self._x *= other
-            self._y *= other
-            self._z *= other
+            self._x = self._x * other
+            self._y = self._y * other
+            self._z = self._z * other
             return self
         else:
             return NotImplemented
@@ -136,9 +136,9 @@ class Vector3:
     def __itruediv__(self, other):
         """Returns self /= other number."""
         if isinstance(other, (float, int, np.number, np.ndarray)):
-            self._x /= other
-            self._y /= other
-            self._z /= other
+            self._x = self._x / other
+            self._y = self._y / other
+            self._z = self._z / other
             return self
         else:
             return NotImplemented
-- 
2.43.0


From 4cfbd956e05d4633f33a3753181351d70cb4ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:25 +0000
Subject: [PATCH 30/33] fix: appending sensitivities failed on matched points
 with recent pandas

---
 src/hypervehicle/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypervehicle/utilities.py b/src/hypervehicle/utilities.py
index 94d5493..51c67b7 100644
--- a/src/hypervehicle/utilities.py
+++ b/src/hypervehicle/utilities.py
@@ -738,7 +738,7 @@ def append_sensitivities_to_tri(
         match = match_x & match_y & match_z
         try:
             # TODO - what if there are multiple matches? (due to intersect perturbations)
-            matched_data = dp_df[match].iloc[0][param_cols].values
+            matched_data = dp_df[match].iloc[0][param_cols].to_numpy(copy=True)
 
             # Round off infinitesimally small values
             matched_data[abs(matched_data) < rounding_tolerance] = 0
-- 
2.43.0


From 0f39670b0a1532d3e752abbca96998c8a588d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:22:01 +0000
Subject: [PATCH 31/33] fix: report a StopIteration raised while meshing in
 parallel

---
 src/hypervehicle/components/component.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hypervehicle/components/component.py b/src/hypervehicle/components/component.py
index 588fff5..4c31d9f 100644
--- a/src/hypervehicle/components/component.py
+++ b/src/hypervehicle/components/component.py
@@ -316,8 +316,15 @@ class Component(AbstractComponent):
             # Initialise surfaces and pool
             pool = Pool()
 
+            # A StopIteration would pass for the end of the results in the pool
+            def task(*case):
+                try:
+                    return wrapper(*case)
+                except StopIteration as e:
+                    raise RuntimeError(f"Failed to mesh patch '{case[0]}'.") from e
+
             # Submit tasks
-            for result in pool.starmap(wrapper, case_list):
+            for result in pool.starmap(task, case_list):
                 surfaces[result[0]] = result[1]
 
         else:
-- 
2.43.0


From 964e8f61018052fa85fc414c181509d76d6f8a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:59:42 +0000
Subject: [PATCH 32/33] fix: refuse to multiply a vector by a vector

---
 src/hypervehicle/geometry/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypervehicle/geometry/vector.py b/src/hypervehicle/geometry/vector.py
index 3ba88ff..32dd751 100644
--- a/src/hypervehicle/geometry/vector.py
+++ b/src/hypervehicle/geometry/vector.py
@@ -108,6 +108,8 @@ class Vector3:
         multiple : float | int
             The multiple to use in the multiplication.
         """
+        if isinstance(multiple, Vector3):
+            raise Exception("Cannot multiply a vector by a vector.")
         return Vector3(x=self.x * multiple, y=self.y * multiple, z=self.z * multiple)
 
     def __rmul__(self, other):
-- 
2.43.0


From e42ee15fa212462768b088655b3918cc33ed39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:07:28 +0000
Subject: [PATCH 33/33] fix: pass z to the thickness functions along the edges
 of wings and fins

The surfaces evaluate the thickness at x, y and z, but the paths along the
leading and trailing edges left z out. A thickness that depends on z, on a
planform away from z = 0, left gaps between the surfaces and the edges.
---
 src/hypervehicle/geometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypervehicle/geometry/geometry.py b/src/hypervehicle/geometry/geometry.py
index 4099492..58bd9d3 100644
--- a/src/hypervehicle/geometry/geometry.py
+++ b/src/hypervehicle/geometry/geometry.py
@@ -112,7 +112,7 @@ class OffsetPathFunction(Path):
         pos = self.underlying_line(t)
 
         # calculate local thickness
-        offset = self.offset_function(x=pos.x, y=pos.y)
+        offset = self.offset_function(pos.x, pos.y, pos.z)
 
         return pos + offset
 
@@ -342,7 +342,7 @@ class TrailingEdgePath(Path):
         # calculate postion
         pos = self.Line(r)
         # calculate local thickness
-        offset = self.thickness_function(x=pos.x, y=pos.y)
+        offset = self.thickness_function(pos.x, pos.y, pos.z)
         return pos + offset
 
 
-- 
2.43.0

