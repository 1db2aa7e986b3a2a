From c208cd0bc9dd721d39c33a6c5bf810ba8dc34c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 01/48] fix: MeshMerge works on copies of its items

add() shared memory with the input mesh and generate_mesh() overwrote the
CellGroup array of the items while their user_dict kept the former numbering,
so that a second call to generate_mesh() returned wrong cell groups.
---
 pvgridder/core/merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 7a55487..ab24d3c 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -59,7 +59,7 @@ class MeshMerge(MeshBase):
             Self (for daisy chaining).
 
         """
-        mesh = mesh.cast_to_unstructured_grid()
+        mesh = mesh.cast_to_unstructured_grid().copy()
 
         # Check for existing user_dict
         if "_PYVISTA_USER_DICT" not in mesh.field_data:
@@ -92,7 +92,7 @@ class MeshMerge(MeshBase):
         groups = {}
 
         for i, item in enumerate(self.items):
-            mesh_b = cast(pv.UnstructuredGrid, item.mesh)
+            mesh_b = cast(pv.UnstructuredGrid, item.mesh.copy())
             mesh_b.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_b, groups, default_group=item.group
             )
-- 
2.43.0


From f6d954395c3512e564a3342986dcad21f7cc54ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 02/48] fix: generate_mesh() of mesh stacks leaves the stacked
 items untouched

Items were cut in place, so that generating twice, or adding items after
generating, returned a different mesh.
---
 pvgridder/core/_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index e2263ee..a530da1 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
+from copy import copy
 from typing import TYPE_CHECKING, Union, cast
 
 import numpy as np
@@ -443,9 +444,13 @@ class MeshStackBase(MeshBase):
             raise ValueError("not enough items to stack")
 
         groups = {}
+        items = [copy(item) for item in self.items]
+
+        for item in items:
+            item._mesh = item.mesh.copy()
 
         # Cut intersecting meshes w.r.t. priority
-        for item1, item2 in zip(self.items[:-1], self.items[1:]):
+        for item1, item2 in zip(items[:-1], items[1:]):
             if item2.transition:
                 continue
 
@@ -476,7 +481,7 @@ class MeshStackBase(MeshBase):
         meshes = []
         n_layers = 0
 
-        for i, (item1, item2) in enumerate(zip(self.items[:-1], self.items[1:])):
+        for i, (item1, item2) in enumerate(zip(items[:-1], items[1:])):
             mesh_a = item1.mesh.copy()
             mesh_a.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_a, groups, item2.group
-- 
2.43.0


From 0c5c1fcf34e65215b3af816ca82df892a9a21431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 03/48] fix: MeshExtrude works on a copy of its base mesh

As for mesh stacks and Voronoi meshes, editing the input mesh after creating
the extrusion must not change the extruded mesh.
---
 pvgridder/core/extrude.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index b95a752..55ea39e 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -63,6 +63,7 @@ class MeshExtrude(MeshBase):
         if isinstance(mesh, (pv.ImageData, pv.RectilinearGrid)):
             mesh = mesh.cast_to_structured_grid()
 
+        mesh = mesh.copy()
         super().__init__(default_group, ignore_groups, items=[MeshItem(mesh)])
         self._mesh = mesh
         self._angle = angle
-- 
2.43.0


From b9de02bb79a0ff11e7e5024b781a1ad03769e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 04/48] fix: MeshStack3D.add_plane() does not modify the input
 angles

---
 pvgridder/core/stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index e5d1d9f..34098b7 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -207,7 +207,7 @@ class MeshStack3D(MeshStackBase):
         """
         from scipy.spatial.transform import Rotation
 
-        angles = np.asanyarray(angles)
+        angles = np.array(angles, dtype=float)
         point = np.asanyarray(point)
 
         angles[self.axis] = 0.0
-- 
2.43.0


From 5962dcbd85a078680c4b3f5db03f1a6f5bb1676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 05/48] fix: extruding a polygonal mesh does not reverse the
 polygons of the input mesh

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 09cdff9..e22d041 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -380,7 +380,7 @@ def generate_volume_from_two_surfaces(
         for ic, (i1, i2, celltype) in enumerate(
             zip(offset[:-1], offset[1:], celltypes)
         ):
-            cell = cell_connectivity[i1:i2]
+            cell = cell_connectivity[i1:i2].copy()
 
             # Handle pixel/voxel (convert to quad/hexahedron)
             if celltype == pv.CellType.VOXEL:
-- 
2.43.0


From f0fc2f5244ed4e9850c23c5ea14285da37c54504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 06/48] fix: VoronoiMesh2D.add() does not modify the input
 point array

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ff031ec..787beea 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -86,7 +86,7 @@ class VoronoiMesh2D(MeshBase):
         """
         if not isinstance(mesh_or_points, pv.DataSet):
             mesh_or_points = self._check_point_array(mesh_or_points)
-            mesh = pv.PolyData(mesh_or_points)
+            mesh = pv.PolyData(mesh_or_points.copy())
 
         else:
             mesh = mesh_or_points.copy()
-- 
2.43.0


From 72b5652d4c5adf540e360ce8c4c9b981b4d43eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 07/48] fix: get_cell_centers() and extract_cells() leave the
 input ghost cells untouched

The ghost array was temporarily removed from the input mesh: it was lost if the
call failed, moved to the end of the cell arrays otherwise, and missing for any
other thread reading the mesh in the meantime.
---
 pvgridder/utils/_misc.py       | 21 +++++++++------------
 pvgridder/utils/_properties.py | 10 ++++------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4a60381..892736f 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -510,21 +510,18 @@ def extract_cells(
 
     """
     ind = np.asanyarray(ind)
-    ghost_cells = (
-        mesh.cell_data.pop("vtkGhostType") if "vtkGhostType" in mesh.cell_data else None
-    )
+    ghost_cells = None
 
-    try:
-        cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
+    if "vtkGhostType" in mesh.cell_data:
+        mesh = mesh.copy(deep=False)
+        ghost_cells = mesh.cell_data.pop("vtkGhostType")
 
-        if ghost_cells is not None:
-            cells.cell_data["vtkGhostType"] = ghost_cells[
-                cells.cell_data["vtkOriginalCellIds"]
-            ]
+    cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
 
-    finally:
-        if ghost_cells is not None:
-            mesh.cell_data["vtkGhostType"] = ghost_cells
+    if ghost_cells is not None:
+        cells.cell_data["vtkGhostType"] = ghost_cells[
+            cells.cell_data["vtkOriginalCellIds"]
+        ]
 
     return cast(pv.UnstructuredGrid, cells)
 
diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index e602057..1226030 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -118,9 +118,10 @@ def get_cell_centers(
     from vtk import __version__ as vtk_version
 
     centers = np.full((mesh.n_cells, 3), np.nan)
-    ghost_cells = (
-        mesh.cell_data.pop("vtkGhostType") if "vtkGhostType" in mesh.cell_data else None
-    )
+
+    if "vtkGhostType" in mesh.cell_data:
+        mesh = mesh.copy(deep=False)
+        mesh.cell_data.pop("vtkGhostType")
 
     if not isinstance(mesh, pv.UnstructuredGrid):
         centers[:] = mesh.cell_centers().points
@@ -201,9 +202,6 @@ def get_cell_centers(
                     # Compute centroid
                     center[:] = np.average(tetras.mean(axis=1), axis=0, weights=volumes)
 
-    if ghost_cells is not None:
-        mesh.cell_data["vtkGhostType"] = ghost_cells
-
     return centers
 
 
-- 
2.43.0


From e94dbe4203d5da96130f065e739f4f4e117fb9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 08/48] fix: merge_lines() keeps the order of data arrays

The order of the arrays, and with it the active scalars, depended on the hash
seed of the interpreter.
---
 pvgridder/utils/_misc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 892736f..9ff0292 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1010,12 +1010,12 @@ def merge_lines(
 
     """
     # Find common point and cell data keys
-    point_data_keys = set(lines[0].point_data)
-    cell_data_keys = set(lines[0].cell_data)
+    point_data_keys = list(lines[0].point_data)
+    cell_data_keys = list(lines[0].cell_data)
 
     for lines_ in lines[1:]:
-        point_data_keys = point_data_keys.intersection(lines_.point_data)
-        cell_data_keys = cell_data_keys.intersection(lines_.cell_data)
+        point_data_keys = [k for k in point_data_keys if k in lines_.point_data]
+        cell_data_keys = [k for k in cell_data_keys if k in lines_.cell_data]
 
     point_data = {k: [] for k in point_data_keys}
     cell_data = {k: [] for k in cell_data_keys}
-- 
2.43.0


From b3fba16e390493a27fecd52a376ef04ad8c45e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 09/48] fix: interactive_lasso_selection() selects in the plane
 of the view

The lasso was drawn in the plane of the view but always compared with the X and
Y coordinates of the mesh.
---
 pvgridder/utils/_interactive.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_interactive.py b/pvgridder/utils/_interactive.py
index 6827312..5e01153 100644
--- a/pvgridder/utils/_interactive.py
+++ b/pvgridder/utils/_interactive.py
@@ -146,22 +146,23 @@ def interactive_lasso_selection(
 
     # Select cells or points within the lasso polygon
     if "x" not in view_:
-        points_ = np.delete(points.points, 0, axis=1)
+        axis = 0
 
     elif "y" not in view_:
-        points_ = np.delete(points.points, 1, axis=1)
+        axis = 1
 
     else:
-        points_ = np.delete(points.points, 2, axis=1)
+        axis = 2
 
+    points_ = np.delete(points.points, axis, axis=1)
     polygon_ = Polygon(points_)
 
     if preference == "cell":
         centers = get_cell_centers(mesh)
-        mask = contains_xy(polygon_, centers)
+        mask = contains_xy(polygon_, np.delete(centers, axis, axis=1))
 
     else:
-        mask = contains_xy(polygon_, mesh.points)
+        mask = contains_xy(polygon_, np.delete(mesh.points, axis, axis=1))
 
     ind = np.flatnonzero(mask)
 
-- 
2.43.0


From 901d2afdc16b52e79858a21f133c539966909eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 10/48] fix: column and layer IDs and line data follow the
 stacking axis

ColumnId and LayerId assumed that the stacking axis is the slowest varying one,
as did the data repeated by generate_surface_from_two_lines(): both were wrong
for structured grids stacked or extruded along another axis.
---
 pvgridder/core/_base.py    | 10 +++++-----
 pvgridder/core/_helpers.py | 14 ++++++++++++--
 pvgridder/core/extrude.py  | 10 +++++-----
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index a530da1..8c9e38b 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -493,15 +493,15 @@ class MeshStackBase(MeshBase):
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
 
             else:
+                mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
                 mesh_b = extrude(mesh_a, item2.mesh, item2.resolution, item2.method)
                 nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
-                mesh_b.cell_data["ColumnId"] = np.tile(
-                    np.arange(mesh_a.n_cells), nsub
-                ).copy()
 
-            mesh_b.cell_data["LayerId"] = np.repeat(
+            layers = np.empty(mesh_b.n_cells, dtype=int)
+            layers[np.argsort(mesh_b.cell_data["ColumnId"], kind="stable")] = np.tile(
                 np.arange(nsub) + n_layers, repeats
-            ).copy()
+            )
+            mesh_b.cell_data["LayerId"] = layers
             mesh_b.cell_data["StackItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index e22d041..ff7b800 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -210,13 +210,23 @@ def generate_surface_from_two_lines(
     mesh = pv.StructuredGrid(X, Y, Z)
 
     if isinstance(line_a, pv.PolyData):
+        transposed = plane in {"yx", "zx", "zy"}
+
         reps = (perc.size, 1)
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.point_data[k] = (
+                np.repeat(v, perc.size, axis=0)
+                if transposed
+                else np.tile(v, reps[: v.ndim])
+            ).copy()
 
         reps = (perc.size - 1, 1)
         for k, v in line_a.cell_data.items():
-            mesh.cell_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.cell_data[k] = (
+                np.repeat(v, perc.size - 1, axis=0)
+                if transposed
+                else np.tile(v, reps[: v.ndim])
+            ).copy()
 
     # Handle collapsed cells
     if "vtkGhostType" not in mesh.cell_data:
diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index 55ea39e..92627c3 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -176,17 +176,17 @@ class MeshExtrude(MeshBase):
                 mesh_a, groups, item2.group
             )
 
+            mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
             mesh_b = generate_volume_from_two_surfaces(
                 mesh_a, item2.mesh, item2.resolution, item2.method
             )
 
             nsub = mesh_b.n_cells // mesh_a.n_cells
-            mesh_b.cell_data["ColumnId"] = np.tile(
-                np.arange(mesh_a.n_cells), nsub
-            ).copy()
-            mesh_b.cell_data["LayerId"] = np.repeat(
+            layers = np.empty(mesh_b.n_cells, dtype=int)
+            layers[np.argsort(mesh_b.cell_data["ColumnId"], kind="stable")] = np.tile(
                 np.arange(nsub) + n_layers, mesh_a.n_cells
-            ).copy()
+            )
+            mesh_b.cell_data["LayerId"] = layers
             mesh_b.cell_data["ExtrudeItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
-- 
2.43.0


From c67d667b02af6e3300d4a34ab42f49ee19c749e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 11/48] fix: VoronoiMesh2D ignores items entirely out of the
 background mesh

Out of bound points were removed only if at least one point of the item was
within the background mesh.
---
 pvgridder/core/voronoi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 787beea..366cfce 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -386,9 +386,11 @@ class VoronoiMesh2D(MeshBase):
             mask = self.mesh.find_containing_cell(get_cell_centers(mesh_a)) != -1
             mask = cast(NDArray, mask)
 
-            if mask.any():
-                mesh_a = extract_cells(mesh_a, mask)
-                points_ = points_[mask]
+            if not mask.any():
+                continue
+
+            mesh_a = extract_cells(mesh_a, mask)
+            points_ = points_[mask]
 
             # Initialize item arrays
             item_group_array = self._initialize_group_array(mesh_a, groups, item.group)
-- 
2.43.0


From 639c2dcadc73311f0bea7bd6fdd8e2c46c218e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:13 +0000
Subject: [PATCH 12/48] fix: add_circle() and add_polyline() of VoronoiMesh2D
 add all their items or none

A failure in the course of the call, e.g., because of the last of several
polylines, left the items created so far in the mesh. The center of a plain
circle is copied: editing it afterwards changed the cells to fuse.
---
 pvgridder/core/voronoi.py | 74 ++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 366cfce..5218da5 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -84,6 +84,17 @@ class VoronoiMesh2D(MeshBase):
             Self (for daisy chaining).
 
         """
+        self.items.append(self._make_item(mesh_or_points, priority, group))
+
+        return self
+
+    def _make_item(
+        self,
+        mesh_or_points: pv.DataSet | ArrayLike,
+        priority: int = 0,
+        group: Optional[str] = None,
+    ) -> MeshItem:
+        """Make a new item."""
         if not isinstance(mesh_or_points, pv.DataSet):
             mesh_or_points = self._check_point_array(mesh_or_points)
             mesh = pv.PolyData(mesh_or_points.copy())
@@ -95,10 +106,8 @@ class VoronoiMesh2D(MeshBase):
             )
 
         mesh.points[:, self.axis] = 0.0  # type: ignore
-        item = MeshItem(mesh, group=group, priority=priority)
-        self.items.append(item)
 
-        return self
+        return MeshItem(mesh, group=group, priority=priority)
 
     def add_circle(
         self,
@@ -145,38 +154,48 @@ class VoronoiMesh2D(MeshBase):
         )
         dr = constraint_radius - radius
 
+        items, fuse_cells = [], []
+
         if dr > 0.0:
-            self.add(
-                (
-                    MeshMerge()
-                    .add(Circle(radius - dr, resolution, center=center))
-                    .add(Annulus(radius - dr, radius, 1, resolution, center=center))
-                    .generate_mesh()
-                ),
-                priority=priority,
-                group=group,
+            items.append(
+                self._make_item(
+                    (
+                        MeshMerge()
+                        .add(Circle(radius - dr, resolution, center=center))
+                        .add(Annulus(radius - dr, radius, 1, resolution, center=center))
+                        .generate_mesh()
+                    ),
+                    priority=priority,
+                    group=group,
+                )
             )
-            self.add(
-                Annulus(radius, radius + dr, 1, resolution, center=center),
-                priority=0,
+            items.append(
+                self._make_item(
+                    Annulus(radius, radius + dr, 1, resolution, center=center),
+                    priority=0,
+                )
             )
 
         elif dr == 0.0:
-            self.add(
-                Circle(radius, resolution, center=center),
-                priority=priority,
-                group=group,
+            items.append(
+                self._make_item(
+                    Circle(radius, resolution, center=center),
+                    priority=priority,
+                    group=group,
+                )
             )
 
         else:
             raise ValueError("invalid constraint radius")
 
         if plain:
-            center = np.zeros(3) if center is None else np.asanyarray(center)
+            center = np.zeros(3) if center is None else np.array(center)
             center = np.insert(center, self.axis, 0.0) if len(center) == 2 else center
-            self.fuse_cells.append(
-                lambda x: np.linalg.norm(x - center, axis=1) < radius
-            )
+            fuse_cells.append(lambda x: np.linalg.norm(x - center, axis=1) < radius)
+
+        # Add all items at once, once nothing can fail anymore
+        self.items.extend(items)
+        self.fuse_cells.extend(fuse_cells)
 
         return self
 
@@ -246,6 +265,8 @@ class VoronoiMesh2D(MeshBase):
         perc = [2.0 * perc[0] - perc[1], *perc.tolist(), 2.0 * perc[-1] - perc[-2]]
 
         # Loop over polylines
+        items = []
+
         for polyline in split_lines(mesh):
             # Remove axis from points
             points = np.delete(polyline.points, self.axis, axis=1)
@@ -314,10 +335,13 @@ class VoronoiMesh2D(MeshBase):
                 group=group,
                 priority=priority if priority else 0,
             )
-            self.items.append(item)
+            items.append(item)
 
             item = MeshItem(extract_cells(mesh, constraint_), group=None, priority=0)
-            self.items.append(item)
+            items.append(item)
+
+        # Add all items at once, once nothing can fail anymore
+        self.items.extend(items)
 
         return self
 
-- 
2.43.0


From c7743bcd2d8d80b24b915c40fe2ee6d58bf2827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:13 +0000
Subject: [PATCH 13/48] fix: extract_boundary_polygons() handles parts of a
 mesh within a hole

The boundary of a part of the mesh located within a hole of another part was
either returned as a hole or as a boundary, depending on the order in which the
boundaries were extracted.
---
 pvgridder/utils/_misc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 9ff0292..5e60174 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -252,16 +252,19 @@ def extract_boundary_polygons(
     # Identify holes
     if with_holes:
         holes = {}
+        parents = {}
         polygons = [shapely.Polygon(edge.points) for edge in edges]
 
         for i, j in itertools.permutations(range(len(polygons)), 2):
-            if i in holes or j in holes:
-                continue
-
             if polygons[i].area > polygons[j].area and polygons[i].contains(
                 polygons[j]
             ):
-                holes[j] = i
+                parents.setdefault(j, []).append(i)
+
+        # A polygon enclosed by an even number of polygons is not a hole
+        for j, parents_ in parents.items():
+            if len(parents_) % 2 == 1:
+                holes[j] = min(parents_, key=lambda i: polygons[i].area)
 
         # Group boundary edges and holes
         polygons = [[edge] if i not in holes else [] for i, edge in enumerate(edges)]
-- 
2.43.0


From 30bbd87e7826c998d6ac9ee3adaa5e2b14522261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:13 +0000
Subject: [PATCH 14/48] fix: Polygon() hands the Gmsh engine back as it found
 it

The SIGINT handler was replaced for good, a Gmsh session opened by the caller
was closed, and calls from several threads shared (and closed) the same session
or failed outside of the main thread.
---
 pvgridder/core/geometric_objects.py | 71 +++++++++++++++++++++++++++--
 1 file changed, 67 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 417b7ef..eb0939f 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from threading import RLock
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -566,9 +567,9 @@ def Polygon(
         mesh = pv.UnstructuredGrid(cells, celltypes, points)
 
     elif celltype in {"quad", "triangle"}:
-        try:
-            gmsh.initialize()
+        session = _open_gmsh_session()
 
+        try:
             # Generate plane surfaces from points
             if engine == "gmsh":
                 engine_ = gmsh.model.geo
@@ -642,8 +643,7 @@ def Polygon(
             mesh = pv.UnstructuredGrid(cells, points)
 
         finally:
-            gmsh.clear()
-            gmsh.finalize()
+            _close_gmsh_session(session)
 
     else:
         raise ValueError(f"invalid cell type '{celltype}'")
@@ -651,6 +651,69 @@ def Polygon(
     return mesh
 
 
+def _open_gmsh_session() -> dict | None:
+    """
+    Open a Gmsh session.
+
+    Gmsh is a process-wide engine: the session is exclusive until it is closed, does
+    not alter signal handlers, and is run in a model of its own if Gmsh has already
+    been initialized by the caller.
+
+    """
+    import gmsh
+
+    _gmsh_lock.acquire()
+
+    try:
+        if not gmsh.isInitialized():
+            gmsh.initialize(interruptible=False)
+
+            return None
+
+        session = {
+            "model": gmsh.model.getCurrent(),
+            "options": {k: gmsh.option.getNumber(k) for k in _gmsh_options},
+        }
+        gmsh.model.add("pvgridder.Polygon")
+
+        return session
+
+    except BaseException:
+        _gmsh_lock.release()
+        raise
+
+
+def _close_gmsh_session(session: dict | None) -> None:
+    """Close a Gmsh session."""
+    import gmsh
+
+    try:
+        if session is None:
+            gmsh.clear()
+            gmsh.finalize()
+
+        else:
+            gmsh.model.remove()
+            gmsh.model.setCurrent(session["model"])
+
+            for k, v in session["options"].items():
+                gmsh.option.setNumber(k, v)
+
+    finally:
+        _gmsh_lock.release()
+
+
+_gmsh_lock = RLock()
+_gmsh_options = (
+    "General.Verbosity",
+    "Mesh.Algorithm",
+    "Mesh.MeshSizeFromCurvature",
+    "Mesh.MeshSizeFromPoints",
+    "Mesh.MeshSizeMax",
+    "Mesh.MeshSizeMin",
+)
+
+
 def Quadrilateral(
     points: Optional[ArrayLike] = None,
     x_resolution: Optional[int | ArrayLike] = None,
-- 
2.43.0


From faaae7e12e0109ced49ad5c935c534621bce48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:30 +0000
Subject: [PATCH 15/48] fix: group mapping by name uses the group numbers of
 the base mesh

The group numbers of the base mesh were compared with those of the generated
mesh, which differ as soon as the groups of the base mesh are not numbered in
order from zero or some of them are ignored.
---
 pvgridder/core/_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 8c9e38b..17077a0 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -152,15 +152,17 @@ class MeshBase(ABC):
             if isinstance(group, str):
                 group = {group: np.ones(size, dtype=bool)}
 
+            labels = mesh.user_dict.get("CellGroup", groups)
+
             for k, v in group.items():
                 if hasattr(v, "__call__"):
                     mask = v(mesh)
 
                 elif isinstance(v, str):
                     mask = (
-                        mesh.cell_data["CellGroup"] != groups[v[1:]]
+                        mesh.cell_data["CellGroup"] != labels[v[1:]]
                         if v.startswith("~")
-                        else mesh.cell_data["CellGroup"] == groups[v]
+                        else mesh.cell_data["CellGroup"] == labels[v]
                     )
 
                 elif isinstance(v, (list, tuple, np.ndarray)) and all(
@@ -170,9 +172,9 @@ class MeshBase(ABC):
 
                     for cid in v:
                         mask |= (
-                            mesh.cell_data["CellGroup"] != groups[cid[1:]]
+                            mesh.cell_data["CellGroup"] != labels[cid[1:]]
                             if cid.startswith("~")
-                            else mesh.cell_data["CellGroup"] == groups[cid]
+                            else mesh.cell_data["CellGroup"] == labels[cid]
                         )
 
                 else:
-- 
2.43.0


From 91ace742696636cfda75015e3b98c08b293b27dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:30 +0000
Subject: [PATCH 16/48] fix: neighborhood and connectivity of meshes with edges
 or faces not shared by two cells

get_neighborhood() and get_connectivity() failed if no edge or face is shared
(e.g., a single cell) or if one is shared by more than two cells (e.g., stacked
unstructured meshes with collapsed cells).
---
 pvgridder/utils/_connectivity.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index f368aea..8d7d318 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -7,6 +8,7 @@ import pyvista as pv
 
 
 if TYPE_CHECKING:
+    from collections.abc import Iterator  # pragma: no cover
     from typing import Optional  # pragma: no cover
 
     from numpy.typing import ArrayLike, NDArray  # pragma: no cover
@@ -37,10 +39,7 @@ def get_neighborhood(
     neighbors = [[] for _ in range(mesh.n_cells)]
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
 
-    for i1, i2 in mesh["vtkOriginalCellIds"]:
-        if i1 == -1 or i2 == -1:
-            continue
-
+    for i1, i2 in _get_connected_cells(mesh):
         neighbors[i1].append(i2)
         neighbors[i2].append(i1)
 
@@ -82,7 +81,13 @@ def get_connectivity(
         )
 
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
-    lines = [(i1, i2) for i1, i2 in mesh["vtkOriginalCellIds"] if i1 != -1 and i2 != -1]
-    lines = np.column_stack((np.full(len(lines), 2), lines)).ravel()
+    lines = [(2, i1, i2) for i1, i2 in _get_connected_cells(mesh)]
+    lines = np.ravel(lines).astype(int)
 
     return pv.PolyData(cell_centers, lines=lines)
+
+
+def _get_connected_cells(mesh: pv.PolyData) -> Iterator[tuple[int, int]]:
+    """Get pairs of cells sharing an edge or a face of a cell geometry."""
+    for ids in np.reshape(mesh["vtkOriginalCellIds"], (mesh.n_cells, -1)):
+        yield from itertools.combinations(np.unique(ids[ids != -1]), 2)
-- 
2.43.0


From 8581903cea15edc20b9f41df6fea6e276d170abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:10 +0000
Subject: [PATCH 17/48] fix: orientation of Voronoi cells

The signed area was computed from the first three vertices only, without closing
the polygon, so that its sign depended on the location of the cell.
---
 pvgridder/core/voronoi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 5218da5..0206258 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -500,7 +500,7 @@ class VoronoiMesh2D(MeshBase):
             cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
             # Ensure correct orientation
-            signed_area = self._compute_signed_area(points_[:3])
+            signed_area = self._compute_signed_area(points_)
 
             if (orientation == "CCW" and signed_area < 0.0) or (
                 orientation == "CW" and signed_area > 0.0
@@ -535,7 +535,7 @@ class VoronoiMesh2D(MeshBase):
     @staticmethod
     def _compute_signed_area(points: NDArray) -> float:
         """Compute signed area of a polygon given its vertices."""
-        x, y = points.T
+        x, y = (points - points[0]).T
 
         return 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])
 
-- 
2.43.0


From 6483144990b37d247988d1a93c45c1cecd2a5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:43 +0000
Subject: [PATCH 18/48] fix: group mapping of a mesh without groups does not
 give it a user dictionary

---
 pvgridder/core/_base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 17077a0..96d83de 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -134,13 +134,16 @@ class MeshBase(ABC):
             size = mesh_or_size
 
         arr = np.full(size, -1, dtype=int)
+        labels = groups
 
         if (
             mesh is not None
             and "CellGroup" in mesh.cell_data
             and "CellGroup" in mesh.user_dict
         ):
-            for k, v in mesh.user_dict["CellGroup"].items():
+            labels = dict(mesh.user_dict["CellGroup"])
+
+            for k, v in labels.items():
                 if k in self.ignore_groups:
                     continue
 
@@ -152,8 +155,6 @@ class MeshBase(ABC):
             if isinstance(group, str):
                 group = {group: np.ones(size, dtype=bool)}
 
-            labels = mesh.user_dict.get("CellGroup", groups)
-
             for k, v in group.items():
                 if hasattr(v, "__call__"):
                     mask = v(mesh)
-- 
2.43.0


From 41b18cc93d976aa15cf435d76a9f70e5869fdfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:02 +0000
Subject: [PATCH 19/48] fix: extract_cells() does not add arrays to an input
 polydata

---
 pvgridder/utils/_misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 5e60174..8fc9c0e 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -515,8 +515,10 @@ def extract_cells(
     ind = np.asanyarray(ind)
     ghost_cells = None
 
+    # VTK adds original IDs to the input if it is a polydata
+    mesh = mesh.copy(deep=False)
+
     if "vtkGhostType" in mesh.cell_data:
-        mesh = mesh.copy(deep=False)
         ghost_cells = mesh.cell_data.pop("vtkGhostType")
 
     cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
-- 
2.43.0


From 6651724676d85a1b831ba6aa89e444854746ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:55 +0000
Subject: [PATCH 20/48] fix: average_points() averages the points of a cloud

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 8fc9c0e..ca1b40e 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -75,7 +75,7 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
             continue
 
         point_map[group] = group[0]
-        new_points[group[0]] = points[group].mean(axis=0)
+        new_points[group] = points[group].mean(axis=0)
 
     if mesh.n_faces_strict:
         irregular_faces = [
-- 
2.43.0


From 89ee6e83f680102577d502a026c4db5e8a612320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:53 +0000
Subject: [PATCH 21/48] fix: VoronoiMesh2D handles almost aligned points on the
 convex hull

---
 pvgridder/core/voronoi.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 0206258..c6f57dd 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -555,6 +555,13 @@ class VoronoiMesh2D(MeshBase):
         """
         voronoi = Voronoi(points, qhull_options=qhull_options)
 
+        center = voronoi.points.mean(axis=0)
+        length = np.ptp(self.mesh.points).max()
+
+        # Vertices too far away (almost aligned points) are considered at infinity
+        at_infinity = np.linalg.norm(voronoi.vertices - center, axis=1) > 1.0e6 * length
+        at_infinity = np.append(at_infinity, True)  # index -1
+
         # Construct a map containing all ridges for a given point
         ridges = {}
 
@@ -563,42 +570,46 @@ class VoronoiMesh2D(MeshBase):
             ridges.setdefault(p2, []).append((p1, v1, v2))
 
         # Reconstruct infinite regions
-        center = voronoi.points.mean(axis=0)
-        radius = infinity if infinity else np.ptp(self.mesh.points).max() * 1.0e3
+        radius = infinity if infinity else length * 1.0e3
         new_vertices = voronoi.vertices.tolist()
         new_regions = []
 
         for p1, region in enumerate(voronoi.point_region):
             vertices = voronoi.regions[region]
 
-            if -1 not in vertices:
+            if not at_infinity[vertices].any():
                 new_regions.append(vertices)
 
             else:
                 ridge = ridges[p1]
-                new_region = [v for v in vertices if v >= 0]
+                new_region = [v for v in vertices if not at_infinity[v]]
 
                 for p2, v1, v2 in ridge:
-                    if v2 < 0:
+                    if at_infinity[v2]:
                         v1, v2 = v2, v1
 
-                    if v1 >= 0:
+                    if not at_infinity[v1] or at_infinity[v2]:
                         continue
 
                     t = voronoi.points[p2] - voronoi.points[p1]
                     t /= np.linalg.norm(t)
                     n = np.array([-t[1], t[0]])
 
-                    midpoint = voronoi.points[[p1, p2]].mean(axis=0)
-                    direction = np.sign(np.dot(midpoint - center, n)) * n
+                    if v1 >= 0:
+                        outward = voronoi.vertices[v1] - voronoi.vertices[v2]
+
+                    else:
+                        outward = voronoi.points[[p1, p2]].mean(axis=0) - center
+
+                    direction = np.sign(np.dot(outward, n)) * n
                     far_point = voronoi.vertices[v2] + direction * radius
 
                     new_region.append(len(new_vertices))
                     new_vertices.append(far_point.tolist())
 
-                # Sort region counterclockwise
+                # Sort region counterclockwise around its point
                 vs = np.array([new_vertices[v] for v in new_region])
-                c = vs.mean(axis=0)
+                c = voronoi.points[p1]
                 angles = np.arctan2(vs[:, 1] - c[1], vs[:, 0] - c[0])
                 new_regions.append([new_region[i] for i in np.argsort(angles)])
 
-- 
2.43.0


From 5b2f827ed2f248139229a05956276137562be9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:08 +0000
Subject: [PATCH 22/48] fix: mesh stacks cut crossing items and honour
 thickness from top to bottom

---
 pvgridder/core/_base.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 96d83de..22cdf26 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -457,27 +457,19 @@ class MeshStackBase(MeshBase):
             if item2.transition:
                 continue
 
-            shift = (
-                item2.mesh.points[:, self.axis]
-                - item1.mesh.points[:, self.axis]
-                - item2.thickness
-            )
-
-            if not self.bottom_up:
-                shift *= -1.0
+            sign = 1.0 if self.bottom_up else -1.0
+            z1 = item1.mesh.points[:, self.axis]
+            z2 = item2.mesh.points[:, self.axis]
+            mask = sign * (z2 - z1) < item2.thickness
 
             if item2.priority < item1.priority:
                 item2.mesh.points[:, self.axis] = np.where(  # type: ignore
-                    shift < 0.0,
-                    item2.mesh.points[:, self.axis] - shift,
-                    item2.mesh.points[:, self.axis],
+                    mask, z1 + sign * item2.thickness, z2
                 )
 
             else:
                 item1.mesh.points[:, self.axis] = np.where(  # type: ignore
-                    shift < 0.0,
-                    item1.mesh.points[:, self.axis] + shift,
-                    item1.mesh.points[:, self.axis],
+                    mask, z2 - sign * item2.thickness, z1
                 )
 
         # Generate submeshes
-- 
2.43.0


From 8a139067c2f722335f9a51beb27427dfe9c38d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:04 +0000
Subject: [PATCH 23/48] fix: collapsed cells of structured and unstructured
 meshes are those without thickness

---
 pvgridder/core/_helpers.py | 48 +++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index ff7b800..9ca7d9c 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -235,7 +235,15 @@ def generate_surface_from_two_lines(
     areas = mesh.compute_cell_sizes(length=False, area=True, volume=False).cell_data[
         "Area"
     ]
-    mesh.cell_data["vtkGhostType"][np.abs(areas) == 0.0] = 32
+    inactive = np.abs(areas) == 0.0
+    mask = are_coincident(line_points_a, line_points_b)
+    mask = mask[:-1] & mask[1:]
+    inactive |= (
+        np.repeat(mask, perc.size - 1)
+        if plane in {"yx", "zx", "zy"}
+        else np.tile(mask, perc.size - 1)
+    )
+    mesh.cell_data["vtkGhostType"][inactive] = 32
 
     return mesh
 
@@ -346,12 +354,6 @@ def generate_volume_from_two_surfaces(
         Z = za + perc * (zb - za)
         mesh = pv.StructuredGrid(X, Y, Z)
 
-        # Handle collapsed cells
-        volumes = mesh.compute_cell_sizes(
-            length=False, area=False, volume=True
-        ).cell_data["Volume"]
-        inactive = np.abs(volumes) == 0.0
-
         # Repeat data
         shape = surface_a.dimensions
         for k, v in surface_a.point_data.items():
@@ -361,6 +363,16 @@ def generate_volume_from_two_surfaces(
         for k, v in surface_a.cell_data.items():
             mesh.cell_data[k] = repeat_structured_data(shape, v, perc.size - 1, axis)
 
+        # Handle collapsed cells
+        mask = are_coincident(surface_a.points, surface_b.points)
+        mask = mask.reshape(surface_a.dimensions, order="F")
+
+        for i, n in enumerate(surface_a.dimensions):
+            if n > 1:
+                mask = np.delete(mask, -1, axis=i) & np.delete(mask, 0, axis=i)
+
+        inactive = np.repeat(mask, perc.size - 1, axis=axis).ravel(order="F")
+
     elif isinstance(surface_a, pv.UnstructuredGrid):
         if not (_extruded_celltype_map[surface_a.celltypes] != -1).all():
             raise ValueError(
@@ -400,7 +412,7 @@ def generate_volume_from_two_surfaces(
             faces = [cell, cell + n_points]
 
             # Handle collapsed cells
-            is_collapsed = np.allclose(*points[faces])
+            is_collapsed = are_coincident(points_a[cell], points_b[cell]).all()
 
             if celltype == pv.CellType.POLYHEDRON:
                 if invert_polyhedron_faces:
@@ -468,6 +480,26 @@ def generate_volume_from_two_surfaces(
     return mesh
 
 
+def are_coincident(points_a: ArrayLike, points_b: ArrayLike) -> NDArray:
+    """
+    Determine which points of two arrays coincide.
+
+    Parameters
+    ----------
+    points_a : ArrayLike
+        First point array.
+    points_b : ArrayLike
+        Second point array.
+
+    Returns
+    -------
+    NDArray
+        Mask array of points that coincide.
+
+    """
+    return np.isclose(points_a, points_b, rtol=0.0, atol=1.0e-8).all(axis=-1)
+
+
 def resolution_to_perc(
     resolution: int | ArrayLike | None,
     method: Optional[Literal["constant", "log", "log_r"]] = None,
-- 
2.43.0


From dce831a49b1adbf287c742ce675ff96d5a64aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:39 +0000
Subject: [PATCH 24/48] fix: group mapping by a callable returning indices can
 be inverted

---
 pvgridder/core/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 22cdf26..8395b96 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -157,9 +157,9 @@ class MeshBase(ABC):
 
             for k, v in group.items():
                 if hasattr(v, "__call__"):
-                    mask = v(mesh)
+                    v = v(mesh)
 
-                elif isinstance(v, str):
+                if isinstance(v, str):
                     mask = (
                         mesh.cell_data["CellGroup"] != labels[v[1:]]
                         if v.startswith("~")
@@ -181,7 +181,7 @@ class MeshBase(ABC):
                 else:
                     mask = np.asanyarray(v)
 
-                    if mask.dtype.kind.startswith("i"):
+                    if mask.dtype.kind in {"i", "u"}:
                         mask_ = np.zeros(size, dtype=bool)
                         mask_[mask] = True
                         mask = mask_
-- 
2.43.0


From 0e562ccb0468013162b3cab68863d4ed98a8d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:09 +0000
Subject: [PATCH 25/48] fix: circles of a Voronoi mesh without a group get its
 default group

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index c6f57dd..587ba0b 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -160,7 +160,7 @@ class VoronoiMesh2D(MeshBase):
             items.append(
                 self._make_item(
                     (
-                        MeshMerge()
+                        MeshMerge(self.default_group)
                         .add(Circle(radius - dr, resolution, center=center))
                         .add(Annulus(radius - dr, radius, 1, resolution, center=center))
                         .generate_mesh()
-- 
2.43.0


From a09b97bd35881821bca0b1722cb0cb6e43684c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:09 +0000
Subject: [PATCH 26/48] fix: plain circles of a Voronoi mesh with a centre out
 of its plane

---
 pvgridder/core/voronoi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 587ba0b..6555bb4 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -191,6 +191,7 @@ class VoronoiMesh2D(MeshBase):
         if plain:
             center = np.zeros(3) if center is None else np.array(center)
             center = np.insert(center, self.axis, 0.0) if len(center) == 2 else center
+            center[self.axis] = 0.0
             fuse_cells.append(lambda x: np.linalg.norm(x - center, axis=1) < radius)
 
         # Add all items at once, once nothing can fail anymore
-- 
2.43.0


From 46aa5df20bc04f15bea2db5e6c6205c395350a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:09 +0000
Subject: [PATCH 27/48] fix: direction of Voronoi cells of aligned points on
 the hull

---
 pvgridder/core/voronoi.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 6555bb4..ca89c43 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -596,13 +596,8 @@ class VoronoiMesh2D(MeshBase):
                     t /= np.linalg.norm(t)
                     n = np.array([-t[1], t[0]])
 
-                    if v1 >= 0:
-                        outward = voronoi.vertices[v1] - voronoi.vertices[v2]
-
-                    else:
-                        outward = voronoi.points[[p1, p2]].mean(axis=0) - center
-
-                    direction = np.sign(np.dot(outward, n)) * n
+                    midpoint = voronoi.points[[p1, p2]].mean(axis=0)
+                    direction = np.sign(np.dot(midpoint - center, n)) * n
                     far_point = voronoi.vertices[v2] + direction * radius
 
                     new_region.append(len(new_vertices))
-- 
2.43.0


From 994f063c3be250f627a04a5a9d101bd672207e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:35 +0000
Subject: [PATCH 28/48] fix: cell geometry of a mesh with a single cell left
 without its collapsed edges or faces

---
 pvgridder/utils/_misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index ca1b40e..627471a 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -415,7 +415,7 @@ def extract_cell_geometry(
             if not mask.all():
                 lines = poly.lines.reshape((poly.n_lines, 3))[mask]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, (tmp != -1).any(axis=0)]
 
                 poly = pv.PolyData(poly.points, lines=lines)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
@@ -475,7 +475,7 @@ def extract_cell_geometry(
                     face for face, mask_ in zip(poly.irregular_faces, mask) if mask_
                 ]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, (tmp != -1).any(axis=0)]
 
                 poly = pv.PolyData().from_irregular_faces(poly.points, faces)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
-- 
2.43.0


From 16ecb049f8bb2207677753e67bc76c1ecf8510b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:07 +0000
Subject: [PATCH 29/48] fix: neighborhood and connectivity of a mesh with ghost
 cells only

---
 pvgridder/utils/_connectivity.py | 3 +++
 pvgridder/utils/_misc.py         | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index 8d7d318..ae2dcb4 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -89,5 +89,8 @@ def get_connectivity(
 
 def _get_connected_cells(mesh: pv.PolyData) -> Iterator[tuple[int, int]]:
     """Get pairs of cells sharing an edge or a face of a cell geometry."""
+    if mesh.n_cells == 0:
+        return
+
     for ids in np.reshape(mesh["vtkOriginalCellIds"], (mesh.n_cells, -1)):
         yield from itertools.combinations(np.unique(ids[ids != -1]), 2)
diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 627471a..654371d 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -344,6 +344,13 @@ def extract_cell_geometry(
                     cells_.append(c)
                     lines_or_faces += [len(c), *cells_[idx]]
 
+        # No cell left (e.g., ghost cells only)
+        if not cell_ids:
+            poly = pv.PolyData(points, **{key: np.array([], dtype=int)})
+            poly.cell_data["vtkOriginalCellIds"] = np.array([], dtype=int)
+
+            return poly
+
         tmp = -np.ones((len(cell_ids), len(max(cell_ids, key=len))), dtype=int)
         for i, ids in enumerate(cell_ids):
             tmp[i, : len(ids)] = ids
@@ -422,7 +429,7 @@ def extract_cell_geometry(
 
     else:
         # Generate face data
-        if np.ptp(celltypes) == 0:
+        if np.ptp(celltypes) == 0 and celltypes[0] != pv.CellType.EMPTY_CELL:
             celltype = celltypes[0]
             cell_faces = (
                 [
-- 
2.43.0


From 8835c031ffe5f1225123ac0fb2fc86ad733420be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:31 +0000
Subject: [PATCH 30/48] fix: neighborhood and connectivity leave out ghost
 cells of unstructured meshes

---
 pvgridder/utils/_misc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 654371d..aa6086d 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -375,6 +375,14 @@ def extract_cell_geometry(
     celltypes = mesh.celltypes
     connectivity = get_cell_connectivity(mesh)
 
+    # Ghost cells of unstructured meshes are not converted to empty cells
+    if "vtkGhostType" in mesh.cell_data:
+        ghost_cells = (mesh.cell_data["vtkGhostType"] & 32).astype(bool)
+        celltypes = np.where(ghost_cells, pv.CellType.EMPTY_CELL, celltypes)
+        connectivity = tuple(
+            [] if ghost else cell for cell, ghost in zip(connectivity, ghost_cells)
+        )
+
     if ndim in {1, 2}:
         supported_celltypes = {
             pv.CellType.EMPTY_CELL,
-- 
2.43.0


From f49dfa5d8946e4c91f0434a60b8123cffc0c81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:31 +0000
Subject: [PATCH 31/48] fix: dimension of convex point sets

---
 pvgridder/utils/_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index 1226030..44c9fb3 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -313,7 +313,7 @@ _dimension_map = np.array(
         -1,
         -1,
         -1,
-        0,  # CONVEX_POINT_SET
+        3,  # CONVEX_POINT_SET
         3,  # POLYHEDRON
         -1,
         -1,
-- 
2.43.0


From d98c977dc9bc1a013654778885d2418d89e97d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:51 +0000
Subject: [PATCH 32/48] fix: extract_cells() of no cell of a mesh with ghost
 cells

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index aa6086d..34d55ac 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -538,7 +538,7 @@ def extract_cells(
 
     cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
 
-    if ghost_cells is not None:
+    if ghost_cells is not None and cells.n_cells > 0:
         cells.cell_data["vtkGhostType"] = ghost_cells[
             cells.cell_data["vtkOriginalCellIds"]
         ]
-- 
2.43.0


From 87d5ba2a2d40f187ff6633c38eade128bdc2601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:09 +0000
Subject: [PATCH 33/48] fix: connectivity of the last cell of a mesh whose
 cells have been removed in place

---
 pvgridder/utils/_properties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index 44c9fb3..ed221b7 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -62,6 +62,10 @@ def get_cell_connectivity(
     # Generate cells
     cells: list[NDArray | list[NDArray]] = list(_get_irregular_cells(mesh.GetCells()))
 
+    # Connectivity array may be too long (e.g., cells removed in place)
+    if cells:
+        cells[-1] = cells[-1][: mesh.offset[-1] - mesh.offset[-2]]
+
     # Generate polyhedral cell faces if any
     if (mesh.celltypes == pv.CellType.POLYHEDRON).any():
         faces = _get_irregular_cells(mesh.GetPolyhedronFaces())
-- 
2.43.0


From 22a4aadcd87a6a10b23ab4e1cb9de3a4209aa5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:56 +0000
Subject: [PATCH 34/48] fix: remap_categorical_data() keeps the labels that are
 not remapped

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 34d55ac..1c7a13a 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1399,7 +1399,7 @@ def remap_categorical_data(
 
     remapped_data = data.copy()
     data_labels_map = {v: k for k, v in data_labels.items()}
-    unused_labels = set(list(data_labels))
+    unused_labels = {k for k, v in data_labels.items() if not (data == v).any()}
 
     for k, v in mapping.items():
         if isinstance(k, str):
-- 
2.43.0


From 9036a465d005e888cd3428198640ccb91c0fd767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:56 +0000
Subject: [PATCH 35/48] fix: merge() handles structured grids with vector data

---
 pvgridder/utils/_misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 1c7a13a..22741a2 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -987,11 +987,13 @@ def merge(
                     {
                         k: np.concatenate(
                             (
-                                v.reshape(shape_a, order="F"),
-                                mesh_b.cell_data[k].reshape(shape_b, order="F"),
+                                v.reshape((*shape_a, *v.shape[1:]), order="F"),
+                                mesh_b.cell_data[k].reshape(
+                                    (*shape_b, *v.shape[1:]), order="F"
+                                ),
                             ),
                             axis=axis,
-                        ).ravel(order="F")
+                        ).reshape((-1, *v.shape[1:]), order="F")
                         for k, v in mesh_a.cell_data.items()
                         if k in mesh_b.cell_data
                     }
-- 
2.43.0


From effdc94dcf6d715521c3c16b8630abe8518f8658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:03 +0000
Subject: [PATCH 36/48] fix: MeshMerge of a mesh with field data that the first
 one lacks

---
 pvgridder/core/merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index ab24d3c..8ba97eb 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -98,6 +98,10 @@ class MeshMerge(MeshBase):
             )
 
             if i > 0:
+                # Field data missing in the first mesh cannot be merged
+                for key in set(mesh_b.field_data) - set(mesh.field_data):
+                    mesh_b.field_data.remove(key)
+
                 mesh = pv.merge((mesh, mesh_b))
 
             else:
-- 
2.43.0


From 25b2e003ef1eecc7775b5b3a84dc38b12732de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:03 +0000
Subject: [PATCH 37/48] fix: merge() of a mesh with field data that the first
 one lacks

---
 pvgridder/utils/_misc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 22741a2..ac75b48 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1002,7 +1002,14 @@ def merge(
             mesh_a = mesh
 
     else:
-        mesh = pv.merge(dataset, merge_points=merge_points)
+        # Field data missing in the first mesh cannot be merged
+        datasets = [dataset[0], *(mesh.copy(deep=False) for mesh in dataset[1:])]
+
+        for mesh in datasets[1:]:
+            for key in set(mesh.field_data) - set(datasets[0].field_data):
+                mesh.field_data.remove(key)
+
+        mesh = pv.merge(datasets, merge_points=merge_points)
 
     return mesh
 
-- 
2.43.0


From a407f1fc899c5a9a10e58b7911f03df00aa48490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:34 +0000
Subject: [PATCH 38/48] fix: vector data of a surface of a single cell are kept
 when it is extruded

---
 pvgridder/core/_helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 9ca7d9c..c992b5c 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -575,9 +575,10 @@ def repeat_structured_data(
 
     """
     data = np.asanyarray(data)
-    data = data if data.ndim == 2 else data[:, np.newaxis]
+    ndim = data.ndim
+    data = data if ndim == 2 else data[:, np.newaxis]
 
-    return np.column_stack(
+    data = np.column_stack(
         [
             np.repeat(
                 v.reshape(shape, order="F"),
@@ -586,7 +587,9 @@ def repeat_structured_data(
             ).ravel(order="F")
             for v in data.T
         ]
-    ).squeeze()
+    )
+
+    return data if ndim == 2 else data[:, 0]
 
 
 def translate(
-- 
2.43.0


From c146256d4e5b0038d45223aa0901abd086aa21ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:48 +0000
Subject: [PATCH 39/48] fix: Voronoi regions far away from the origin

---
 pvgridder/core/voronoi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ca89c43..777c7bb 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -554,10 +554,12 @@ class VoronoiMesh2D(MeshBase):
         See <https://stackoverflow.com/a/43023639>.
 
         """
-        voronoi = Voronoi(points, qhull_options=qhull_options)
+        # Qhull is not accurate far away from the origin
+        origin = np.mean(points, axis=0)
+        voronoi = Voronoi(points - origin, qhull_options=qhull_options)
 
         center = voronoi.points.mean(axis=0)
-        length = np.ptp(self.mesh.points).max()
+        length = np.ptp(self.mesh.points, axis=0).max()
 
         # Vertices too far away (almost aligned points) are considered at infinity
         at_infinity = np.linalg.norm(voronoi.vertices - center, axis=1) > 1.0e6 * length
@@ -609,7 +611,7 @@ class VoronoiMesh2D(MeshBase):
                 angles = np.arctan2(vs[:, 1] - c[1], vs[:, 0] - c[0])
                 new_regions.append([new_region[i] for i in np.argsort(angles)])
 
-        return new_regions, np.array(new_vertices)
+        return new_regions, np.array(new_vertices) + origin
 
     @property
     def mesh(self) -> pv.DataSet:
-- 
2.43.0


From 828a0000edf46986294b5856500f6d82c2cdd111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:48 +0000
Subject: [PATCH 40/48] fix: polylines added to a Voronoi mesh keep their
 coordinates in double precision

---
 pvgridder/core/voronoi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 777c7bb..3eabda9 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -250,7 +250,9 @@ class VoronoiMesh2D(MeshBase):
         from .. import extract_cells, split_lines
 
         if not isinstance(mesh_or_points, pv.PolyData):
-            mesh = pv.MultipleLines(np.asanyarray(mesh_or_points))
+            points = np.asanyarray(mesh_or_points, dtype=float)
+            mesh = pv.MultipleLines(points)
+            mesh.points = points  # single precision otherwise
 
         else:
             mesh = mesh_or_points.copy()
-- 
2.43.0


From 57177de3cf1a8b90fd85054924f8a8758bf12569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:48 +0000
Subject: [PATCH 41/48] fix: RegularLine keeps the coordinates of its points in
 double precision

---
 pvgridder/core/geometric_objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index eb0939f..c285172 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -941,6 +941,7 @@ def RegularLine(points: ArrayLike, resolution: Optional[int] = None) -> pv.PolyD
     x = np.linspace(0.0, xp.max(), resolution + 1)
     points = np.column_stack([np.interp(x, xp, fp) for fp in points.T])
     mesh = pv.MultipleLines(points)
+    mesh.points = points  # single precision otherwise
     mesh.clear_data()
 
     return mesh
-- 
2.43.0


From 35ec61c098970f99112fddb55677bccbb7e803fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:07 +0000
Subject: [PATCH 42/48] fix: split_lines keeps the coordinates of the lines in
 double precision

---
 pvgridder/utils/_misc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index ac75b48..00684cc 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1469,13 +1469,10 @@ def split_lines(mesh: pv.PolyData, as_lines: bool = True) -> Sequence[pv.PolyDat
     """
     from pyvista.core.cell import _get_irregular_cells
 
-    mesh = cast(
-        pv.PolyData,
-        mesh.extract_cells_by_type((pv.CellType.LINE, pv.CellType.POLY_LINE)),
-    )
     lines = []
 
-    for i, line_ids in enumerate(_get_irregular_cells(mesh.GetLines())):
+    # Cells of a polydata are sorted by type, vertices come before lines
+    for i, line_ids in enumerate(_get_irregular_cells(mesh.GetLines()), mesh.n_verts):
         lines_ = (
             np.insert(
                 np.column_stack(
-- 
2.43.0


From 88be34607521080cac006cdd4ccc839db415ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:07 +0000
Subject: [PATCH 43/48] fix: intersect_polyline keeps the coordinates of its
 points in double precision

---
 pvgridder/utils/_misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 00684cc..9435dcd 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -889,7 +889,9 @@ def intersect_polyline(
         line_ids = line_ids[count:]
         cell_ids = cell_ids[count:]
 
-    polyline = split_lines(pv.MultipleLines(points))[0].compute_cell_sizes(
+    polyline = pv.MultipleLines(points)
+    polyline.points = np.array(points)  # single precision otherwise
+    polyline = split_lines(polyline)[0].compute_cell_sizes(
         length=True, area=False, volume=False
     )
     polyline.cell_data["vtkOriginalCellIds"] = line_ids
-- 
2.43.0


From 77fe3aaae2833b5803877efeaab5edcd4fd7c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:07 +0000
Subject: [PATCH 44/48] fix: MeshMerge keeps the coordinates of its items in
 double precision

---
 pvgridder/core/merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 8ba97eb..aa0610b 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, cast
 
+import numpy as np
 import pyvista as pv
 
 from ._base import MeshBase, MeshItem
@@ -59,7 +60,9 @@ class MeshMerge(MeshBase):
             Self (for daisy chaining).
 
         """
+        points = np.array(mesh.points, dtype=float)
         mesh = mesh.cast_to_unstructured_grid().copy()
+        mesh.points = points  # single precision otherwise, also once merged
 
         # Check for existing user_dict
         if "_PYVISTA_USER_DICT" not in mesh.field_data:
-- 
2.43.0


From 03e7aeb8cfa1459652dc86d919e3b105f65a27c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:07 +0000
Subject: [PATCH 45/48] fix: cells extracted from images keep their coordinates
 in double precision

---
 pvgridder/utils/_misc.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 9435dcd..2561b32 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -227,7 +227,7 @@ def extract_boundary_polygons(
 
     else:
         edges = (
-            mesh.cast_to_unstructured_grid()
+            _cast_to_unstructured_grid(mesh)
             .clean()
             .extract_feature_edges(
                 boundary_edges=True,
@@ -371,7 +371,7 @@ def extract_cell_geometry(
         mesh.clear_data()
 
     ndim = get_dimension(mesh)
-    mesh = mesh.cast_to_unstructured_grid()
+    mesh = _cast_to_unstructured_grid(mesh)
     celltypes = mesh.celltypes
     connectivity = get_cell_connectivity(mesh)
 
@@ -576,7 +576,7 @@ def extract_cells_by_dimension(
     from ._properties import _dimension_map
     from .. import get_dimension
 
-    mesh = mesh.cast_to_unstructured_grid()
+    mesh = _cast_to_unstructured_grid(mesh)
     ndim = ndim if ndim is not None else get_dimension(mesh)
 
     if method == "upper":
@@ -620,7 +620,7 @@ def fuse_cells(
 
     indices = [ind] if np.ndim(ind[0]) == 0 else ind
     indices = cast(Sequence[Sequence[int]], indices)
-    mesh = mesh.cast_to_unstructured_grid()
+    mesh = _cast_to_unstructured_grid(mesh)
     connectivity = list(get_cell_connectivity(mesh))
     celltypes = mesh.celltypes.copy()
     mask = np.ones(mesh.n_cells, dtype=bool)
@@ -1586,3 +1586,14 @@ _celltype_to_faces = {
         ),
     },
 }
+
+
+def _cast_to_unstructured_grid(mesh: pv.DataSet) -> pv.UnstructuredGrid:
+    """Cast a mesh to an unstructured grid, in double precision."""
+    points = mesh.points
+    mesh_ = mesh.cast_to_unstructured_grid()
+
+    if isinstance(mesh, (pv.ImageData, pv.RectilinearGrid)):
+        mesh_.points = np.array(points, dtype=float)
+
+    return mesh_
-- 
2.43.0


From 9c1d592aa3aa27f619a59eb430a70c1623f69213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:30 +0000
Subject: [PATCH 46/48] fix: merge() of structured grids far away from the
 origin that do not meet

---
 pvgridder/utils/_misc.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 2561b32..aeddce6 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -939,13 +939,14 @@ def merge(
             raise ValueError("could not merge structured grids with None axis")
 
         mesh_a = dataset[0]
+        x0, y0, z0 = mesh_a.center  # tolerance relative to the size of the mesh
 
         for mesh_b in dataset[1:]:
             if axis == 0:
                 if not (
-                    np.allclose(mesh_a.x[-1], mesh_b.x[0])
-                    and np.allclose(mesh_a.y[-1], mesh_b.y[0])
-                    and np.allclose(mesh_a.z[-1], mesh_b.z[0])
+                    np.allclose(mesh_a.x[-1] - x0, mesh_b.x[0] - x0)
+                    and np.allclose(mesh_a.y[-1] - y0, mesh_b.y[0] - y0)
+                    and np.allclose(mesh_a.z[-1] - z0, mesh_b.z[0] - z0)
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching east and west interfaces"
@@ -955,9 +956,9 @@ def merge(
 
             elif axis == 1:
                 if not (
-                    np.allclose(mesh_a.x[:, -1], mesh_b.x[:, 0])
-                    and np.allclose(mesh_a.y[:, -1], mesh_b.y[:, 0])
-                    and np.allclose(mesh_a.z[:, -1], mesh_b.z[:, 0])
+                    np.allclose(mesh_a.x[:, -1] - x0, mesh_b.x[:, 0] - x0)
+                    and np.allclose(mesh_a.y[:, -1] - y0, mesh_b.y[:, 0] - y0)
+                    and np.allclose(mesh_a.z[:, -1] - z0, mesh_b.z[:, 0] - z0)
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching north and south interfaces"
@@ -967,9 +968,9 @@ def merge(
 
             else:
                 if not (
-                    np.allclose(mesh_a.x[..., -1], mesh_b.x[..., 0])
-                    and np.allclose(mesh_a.y[..., -1], mesh_b.y[..., 0])
-                    and np.allclose(mesh_a.z[..., -1], mesh_b.z[..., 0])
+                    np.allclose(mesh_a.x[..., -1] - x0, mesh_b.x[..., 0] - x0)
+                    and np.allclose(mesh_a.y[..., -1] - y0, mesh_b.y[..., 0] - y0)
+                    and np.allclose(mesh_a.z[..., -1] - z0, mesh_b.z[..., 0] - z0)
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching top and bottom interfaces"
-- 
2.43.0


From 44fbbb413e794bce015e1ecdc36090762839539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:30 +0000
Subject: [PATCH 47/48] fix: mesh items do not share subdivisions and group
 mappings with the caller

---
 pvgridder/core/_base.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 8395b96..af24de9 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -45,6 +45,16 @@ class MeshItem:
         self._mesh = mesh
 
         for k, v in kwargs.items():
+            # Do not share subdivisions and group mappings with the caller
+            if isinstance(v, dict):
+                v = {
+                    k_: copy(v_) if isinstance(v_, (list, np.ndarray)) else v_
+                    for k_, v_ in v.items()
+                }
+
+            elif isinstance(v, (list, np.ndarray)):
+                v = copy(v)
+
             setattr(self, k, v)
 
     @property
-- 
2.43.0


From c822dffbf148ecaa09acb9388dd6c113a3202ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:30 +0000
Subject: [PATCH 48/48] fix: profiles added to a mesh stack in any order of
 their points

---
 pvgridder/core/_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index af24de9..843aaac 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -557,13 +557,11 @@ class MeshStackBase(MeshBase):
 
         else:
             idx = idx[0]
+            points = points[np.argsort(points[:, idx], kind="stable")]
             x = mesh.points[:, idx]
             xp = points[:, idx]
 
-            if (
-                not (xp[0] <= x[0] <= xp[-1] and xp[0] <= x[-1] <= xp[-1])
-                and not extrapolation
-            ):
+            if not (xp[0] <= x.min() and x.max() <= xp[-1]) and not extrapolation:
                 raise ValueError(
                     "could not interpolate from points not fully enclosing base mesh"
                 )
-- 
2.43.0

