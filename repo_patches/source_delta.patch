From d6517458d4fff54d25e0b0c1d4ea56c1b10c9b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 01/54] fix: build the Nedelec second kind element for family
 N2E instead of the first kind

---
 src/basis/element_family.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/element_family.py b/src/basis/element_family.py
index 8b902de..996eff2 100644
--- a/src/basis/element_family.py
+++ b/src/basis/element_family.py
@@ -7,7 +7,7 @@ def family_by_name(family):
         "BDM": ElementFamily.BDM,
         "RT": ElementFamily.RT,
         "N1E": ElementFamily.N1E,
-        "N2E": ElementFamily.N1E,
+        "N2E": ElementFamily.N2E,
     }
     return families[family]
 
-- 
2.43.0


From 867ead336fcbfcdfa21c9bdaf8dca87391299ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 02/54] fix: keep tagged facets shared by two tetrahedra
 oriented like any other interior facet

---
 src/spaces/discrete_space.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spaces/discrete_space.py b/src/spaces/discrete_space.py
index 76b2eac..3c8a6aa 100644
--- a/src/spaces/discrete_space.py
+++ b/src/spaces/discrete_space.py
@@ -149,6 +149,7 @@ class DiscreteSpace:
                 )
             )
 
+        self._filter_interior_bc_entities()
         self.id_to_element = dict(zip(self.element_ids, range(len(self.element_ids))))
         if timing_q:
             et = time.time()
@@ -160,6 +161,17 @@ class DiscreteSpace:
             )
         print(self.name + "_fe_space:: Number elements:", len(self.elements))
 
+    def _filter_interior_bc_entities(self):
+        # A facet shared by several elements is not a boundary, even if it is tagged
+        if self.dimension == 0:
+            return
+        facet_dim = self.dimension - 1
+        facet_map = self.mesh_topology.entity_map_by_dimension(facet_dim)
+        for element in self.elements:
+            for i, facet_id in enumerate(element.data.cell.sub_cells_ids[facet_dim]):
+                if facet_map.in_degree((facet_dim, facet_id)) > 1:
+                    element.data.bc_entities[i] = False
+
     def _build_bc_elements(self, b_physical_tags, timing_q=False):
         if timing_q:
             st = time.time()
-- 
2.43.0


From 015e944c85d7f50e16512bf6f19079b8501605c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 03/54] fix: forget the boundary elements of an earlier build
 when a space is rebuilt without boundary tags

---
 src/spaces/discrete_space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spaces/discrete_space.py b/src/spaces/discrete_space.py
index 3c8a6aa..506dc5d 100644
--- a/src/spaces/discrete_space.py
+++ b/src/spaces/discrete_space.py
@@ -60,6 +60,10 @@ class DiscreteSpace:
 
     def build_boundary_structures(self, bc_physical_tags=[None]):
         if len(bc_physical_tags) == 0:
+            # drop the boundary elements of a previous build
+            self.bc_elements = []
+            self.bc_element_ids = []
+            self.id_to_bc_element = {}
             return
         self._build_bc_elements(bc_physical_tags)
 
-- 
2.43.0


From 29857c61911e094b16fecdf5b964f96584e6ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 04/54] fix: allow a vertex (0-dimensional) field in a product
 space

---
 src/spaces/product_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spaces/product_space.py b/src/spaces/product_space.py
index 806c97b..0decf47 100644
--- a/src/spaces/product_space.py
+++ b/src/spaces/product_space.py
@@ -41,6 +41,8 @@ class ProductSpace:
         self.bc_quadrature = [None, None, None, None]
         for dim in dims:
             dim -= 1
+            if dim < 0:
+                continue
             if dim == 0:
                 self.bc_quadrature[dim] = (np.array([1.0]), np.array([1.0]))
             else:
-- 
2.43.0


From 6282d965bae4b4f71918751f165fc6bb4d86f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 05/54] fix: vertices created by fracture cutting list their
 own cell id, not their node tag, as 0-dimensional sub-cell

---
 src/mesh/mesh.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 50812da..49ae95a 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -875,9 +875,7 @@ class Mesh:
                     0, np.array([new_node_tags_p[i]]), cell_id, mat_id_p
                 )
                 mesh_cell.set_physical_name("sp_" + str(mat_id))
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_p[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_p[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
@@ -894,9 +892,7 @@ class Mesh:
                     0, np.array([new_node_tags_n[i]]), cell_id, mat_id_n
                 )
                 mesh_cell.set_physical_name("sm_" + str(mat_id))
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_n[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_n[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
@@ -1121,9 +1117,7 @@ class Mesh:
                 mesh_cell = self.create_cell(
                     0, np.array([new_node_tags_p[i]]), cell_id, mat_id_p
                 )
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_p[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_p[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
@@ -1139,9 +1133,7 @@ class Mesh:
                 mesh_cell = self.create_cell(
                     0, np.array([new_node_tags_n[i]]), cell_id, mat_id_n
                 )
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_n[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_n[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
-- 
2.43.0


From 325efe208867c943e69deb4d070bb63ac1fb9874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 06/54] fix: cut along a line whose single edge has both ends
 marked as tips

---
 src/mesh/mesh.py            | 2 ++
 src/mesh/mesh_operations.py | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 49ae95a..faf150b 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -114,6 +114,8 @@ class Mesh:
         return self.cells.shape[0]
 
     def append_cells(self, cells: np.array):
+        if len(cells) == 0:
+            return
         min_cell_id = np.min(np.array([cell.id for cell in cells]))
         if self.max_cell_id() - 1 >= min_cell_id:
             raise ValueError(
diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index 8a08313..ad62b7d 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -171,6 +171,8 @@ def __duplicate_cells(cell_id, cells, physical_tag_map={}):
 
 
 def duplicate_mesh_points_from_0d_cells(cells_0d, mesh, bump_args=None):
+    if len(cells_0d) == 0:
+        return
     node_tags = np.concatenate([cell.node_tags for cell in cells_0d])
     new_points = mesh.points[node_tags].copy()
     if bump_args is not None:
@@ -301,6 +303,7 @@ def cut_conformity_along_c1_line(
 
     # classify associated c0 cells
     g_d_0d = mesh.build_graph(mesh.dimension, mesh.dimension)
+    g_d_1d = mesh.build_graph(mesh.dimension, 1)
     g_d1_0d = mesh.build_graph(mesh.dimension - 1, mesh.dimension - 1)
 
     # collect c2 cells
@@ -314,6 +317,8 @@ def cut_conformity_along_c1_line(
     ]
 
     c0_cells_data = [list(g_d_0d.predecessors(cell.index())) for cell in c2_cells]
+    # c1 cells without internal points still have to be detached from their c0 cells
+    c0_cells_data += [list(g_d_1d.predecessors(cell.index())) for cell in c1_cells]
     c0_cells_idx = np.array(list(itertools.chain(*c0_cells_data)))
     c0_cell_ids = np.unique([cell_idx[1] for cell_idx in c0_cells_idx])
     c0_cells = np.array([mesh.cells[c0_id] for c0_id in c0_cell_ids])
@@ -376,6 +381,9 @@ def cut_conformity_along_c1_line(
     interface["c1"] = [c1_cells, positive_c1_cells, negative_c1_cells]
     interface["c2"] = [c2_cells, positive_c2_cells, negative_c2_cells]
 
+    if len(c2_cells) == 0:  # no internal points to process
+        return interface
+
     # update c1 cells
     # # classify associated c1 cells
     # g_d1_0d = mesh.build_graph(mesh.dimension - 1, mesh.dimension - 1)
-- 
2.43.0


From 476acee5c6ce9857327c0647b22ade98a148115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:10 +0000
Subject: [PATCH 07/54] fix: line cut no longer moves the line's own cells to
 one side by rounding

---
 src/mesh/mesh_operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index ad62b7d..9ece3c6 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -390,6 +390,8 @@ def cut_conformity_along_c1_line(
     c1_cells_data = [list(g_d1_0d.predecessors(cell.index())) for cell in c2_cells]
     c1_cells_idx = np.array(list(itertools.chain(*c1_cells_data)))
     c1_cell_ids = np.unique([cell_idx[1] for cell_idx in c1_cells_idx])
+    # the cells on the line belong to no side, whatever the rounding of their centroids
+    c1_cell_ids = np.setdiff1d(c1_cell_ids, [cell.id for cell in c1_cells])
     c1_cells = np.array([mesh.cells[c1_id] for c1_id in c1_cell_ids])
     c1_xcs = np.array([cell_centroid(cell, mesh) for cell in c1_cells])
     c1_dirs = c1_xcs - np.mean([a, b], axis=0)
-- 
2.43.0


From 1b53195ff53f4e1f233773df5e7d5df920d1aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 08/54] fix: segment intersection reports a collinear segment
 contained in the first one

---
 src/geometry/operations/line_geometry_operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index 2b33ca1..ba86592 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -24,6 +24,11 @@ def line_line_intersection(
             assert np.all(np.isclose(out, np.array([a, b])[intx_q]))
             return out
 
+    # collinear case with the segment c-d contained in a-b
+    out, intx_q = points_line_intersection(np.array([c, d]), a, b, p_incidence_tol)
+    if np.sum(intx_q) > 1:
+        return out, intx_q
+
     # Direction vectors
     d1 = b - a
     d2 = d - c
-- 
2.43.0


From 52a0e49585e48be2298f3d7fe8e9a03fe55f031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:50 +0000
Subject: [PATCH 09/54] fix: intersections of several segments with one segment
 accept overlapping segments

---
 src/geometry/operations/line_geometry_operations.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index ba86592..8ca8e27 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -66,9 +66,12 @@ def lines_line_intersection(
     line_line_intx = partial(line_line_intersection, c=a, d=b, eps=eps)
     result = [line_line_intx(line[0], line[1]) for line in lines]
 
-    # filter lines outside segment
-    result = np.array(list(filter(lambda x: x is not None, result)))
-    return result
+    # filter lines outside segment, overlapping lines contribute each of their points
+    points = []
+    for out in filter(lambda x: x is not None, result):
+        out = out[0] if isinstance(out, tuple) else out
+        points += [[point] for point in out]
+    return np.array(points)
 
 
 def lines_lines_intersection(
-- 
2.43.0


From 658d9de61ed230c8b870dec581c1bfc25e2d31c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 10/54] fix: polygon normal from the area vector, non-zero
 whatever the order of the vertices

---
 .../operations/polygon_geometry_operations.py | 21 +++----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/geometry/operations/polygon_geometry_operations.py b/src/geometry/operations/polygon_geometry_operations.py
index e06868a..683e478 100644
--- a/src/geometry/operations/polygon_geometry_operations.py
+++ b/src/geometry/operations/polygon_geometry_operations.py
@@ -34,24 +34,9 @@ def polygon_normal(points: np.array):
     # centroid
     xc = np.mean(points, axis=0)
 
-    # get two relevant in-plane directions
-    dxc = np.array([np.linalg.norm(point - xc) for point in points])
-    if np.isclose(np.max(dxc), np.min(dxc)):
-        pa = points[0]
-        pb = points[1]
-        pc = points[2]
-    else:
-        pa = points[np.argmax(dxc)]
-        points_red = np.delete(points, np.argmax(dxc), axis=0)
-        points_red = np.vstack((points_red, np.mean(points_red, axis=0)))
-        dxc_red = np.delete(dxc, np.argmax(dxc), axis=0)
-        overall_dxc_red = np.linalg.norm(np.mean(points_red, axis=0) - xc)
-        dxc_red = np.append(dxc_red, overall_dxc_red)
-        pb = points_red[np.argmax(dxc_red)]
-        pc = points_red[np.argmin(dxc_red)]
-
-    # normal vector of the polygon
-    normal = __normalize(np.cross(pb - pa, pc - pa))
+    # area vector of the polygon
+    dxc = points - xc
+    normal = __normalize(np.sum(np.cross(dxc, np.roll(dxc, -1, axis=0)), axis=0))
     return normal
 
 
-- 
2.43.0


From d146db30de86b0558d78257027f971b12539816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:00 +0000
Subject: [PATCH 11/54] fix: a segment that misses a triangle's plane reports
 no intersection instead of False

---
 src/geometry/operations/line_geometry_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index 8ca8e27..c36ae48 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -226,7 +226,7 @@ def line_triangle_intersection(
     # Calculate the distance from line_start to the plane of the triangle
     d = np.dot(normal, a - p) / denom
     if d < 0 or d > 1:
-        return False
+        return None
 
     # Calculate the intersection point on the line
     intx_point = p + d * line_dir
-- 
2.43.0


From 78de3cadf0e2b20b4af363b3a376e57dd2500f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 12/54] fix: intersections of several segments with a triangle
 or polygon may differ in number of points

---
 .../operations/line_geometry_operations.py         | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index c36ae48..a1160bc 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -237,6 +237,16 @@ def line_triangle_intersection(
         return np.array([intx_point])
 
 
+def __stack_intersections(data: list) -> np.array:
+    # one row per line; lines may contribute different numbers of points
+    if len(set(points.shape for points in data)) < 2:
+        return np.array(data)
+    result = np.empty(len(data), dtype=object)
+    for i, points in enumerate(data):
+        result[i] = points
+    return result
+
+
 def lines_triangle_intersection(
     lines: np.array, a: np.array, b: np.array, c: np.array, eps: float = s_incidence_tol
 ) -> np.array:
@@ -254,7 +264,7 @@ def lines_triangle_intersection(
     intx_q = np.array([data_type(data) for data in result])
 
     # filter points outside segment
-    result = np.array(list(filter(lambda x: x is not None, result)))
+    result = __stack_intersections(list(filter(lambda x: x is not None, result)))
     return result, intx_q
 
 
@@ -329,5 +339,5 @@ def lines_polygon_intersection(
     intx_q = np.array([data_type(data) for data in result])
 
     # filter points outside segment
-    result = np.array(list(filter(lambda x: x is not None, result)))
+    result = __stack_intersections(list(filter(lambda x: x is not None, result)))
     return result, intx_q
-- 
2.43.0


From 63c3332103400add79e5b30f18ef97eacf43e111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:00 +0000
Subject: [PATCH 13/54] fix: intersection of a domain with points keeps one tag
 per vertex and accepts edges without points

---
 src/topology/operations/vertex_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 1c9a3f7..efbc70f 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -149,7 +149,7 @@ def vertices_edges_intersection(
         shape_intx, shapes_tool = vertices_edge_intersection(
             vertices_tool, edge, tag, eps
         )
-        tag = np.max([shape.tag for shape in shape_intx])
+        tag += len(shape_intx)
         output.append((edge, shape_intx, shapes_tool))
     return output
 
-- 
2.43.0


From eeebb17c8c70808e17fdc95efe20b08eb91f2ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:00 +0000
Subject: [PATCH 14/54] fix: union of domains reconnects every edge at a
 replaced vertex, not only the first

---
 src/topology/operations/domain_operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/topology/operations/domain_operations.py b/src/topology/operations/domain_operations.py
index 305c906..eff98b8 100644
--- a/src/topology/operations/domain_operations.py
+++ b/src/topology/operations/domain_operations.py
@@ -185,7 +185,11 @@ def domain_union(
         ]
         # filter v_tool if is included already in the graph
         chunk = [index for index in chunk if index != v_tool_index]
-        predecessors = [list(md_G_partial.predecessors(index))[0] for index in chunk]
+        predecessors = [
+            predecessor
+            for index in chunk
+            for predecessor in md_G_partial.predecessors(index)
+        ]
         [md_G_partial.add_edge(index, v_tool_index) for index in predecessors]
         md_G_partial.remove_nodes_from(chunk)
 
-- 
2.43.0


From 104c05d49c1ea3d31869858fe895d799c9dd174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 15/54] fix: intersection of a domain with points no longer
 retags the domain's own vertices

---
 src/topology/operations/vertex_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index efbc70f..af48611 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 from typing import Union, List, Tuple
 from topology.vertex import Vertex
@@ -128,6 +130,7 @@ def vertices_edge_intersection(
     for idx, shape in enumerate(resulting_shapes):
         if shape is None:
             continue
+        shape = copy.copy(shape)  # it may be a vertex of the edge
         shape.tag = tag
         tag += 1
         shape_intx.append(shape)
-- 
2.43.0


From 2214bb47413f72adb74b58c2dd2c85f15c8fbd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 16/54] fix: the vertex where two edges cross has a single
 point, also when they overlap

---
 src/topology/operations/edge_operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology/operations/edge_operations.py b/src/topology/operations/edge_operations.py
index d73fb0f..2e89342 100644
--- a/src/topology/operations/edge_operations.py
+++ b/src/topology/operations/edge_operations.py
@@ -87,4 +87,6 @@ def edge_edge_intersection(
     if out is None:
         return None
     else:
-        return Vertex(tag, out)
+        # overlapping edges report all their common ends
+        points = out[0] if isinstance(out, tuple) else out
+        return Vertex(tag, points[0])
-- 
2.43.0


From 1e9299da23e280848b49199feb9857b5470159b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 17/54] fix: the boundary wire of a fractured box lists the
 pieces of its last side in loop order

---
 src/topology/domain_market.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 307f8bc..f153a09 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -274,14 +274,15 @@ def create_md_box_2D(
     edges = edges[e_intx_q]
 
     wire_edges = []
-    for boundary_edge in rock_domain_edges:
+    for i, boundary_edge in enumerate(rock_domain_edges):
         sub_edges = np.array(
             [edge for edge in edges if edge.physical_tag == boundary_edge.physical_tag]
         )
         sub_edges_xcs = np.array(
             [np.mean(sub_edge.boundary_points(), axis=0) for sub_edge in sub_edges]
         )
-        a, b = boundary_edge.boundary_points()
+        # in the sense of the loop, the edge itself lists its vertices by tag
+        a, b = box_points[i], box_points[(i + 1) % len(box_points)]
         idx = points_line_argsort(sub_edges_xcs, a, b)
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
-- 
2.43.0


From 97cf459a5f69980d9918085ecec602dcdd3d155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 18/54] fix: fractures meeting on the boundary of a box share
 one boundary vertex

---
 src/topology/domain_market.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index f153a09..4fa81e2 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -228,6 +228,9 @@ def create_md_box_2D(
             tag += 1
 
     for point in fracture_intx:
+        # fractures meeting on the boundary share the boundary vertex
+        if any(np.all(np.isclose(point, b_point)) for b_point in b_points):
+            continue
         v: Vertex = Vertex(tag, point)
         v.physical_tag = fracture_physical_tags["point"]
         vertices.append(v)
-- 
2.43.0


From a9e8361fc40b156e618add6acd08bde0aeb8ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 19/54] fix: the wire and face of a fractured box take tags not
 used by its edges

---
 src/topology/domain_market.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 4fa81e2..49e40ae 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -290,6 +290,7 @@ def create_md_box_2D(
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
     wire_boundary = wire_edges[0].boundary_shapes[[0]]  # closed
+    tag = md_domain_c1.max_tag() + 1
     wire0: Wire = Wire(tag, wire_edges, wire_boundary)
     tag += 1
     face0: Face = Face(tag, np.array([wire0]))
-- 
2.43.0


From 0c257b1b5b87c134e67c0ce590cd1b87ea1cfd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 20/54] fix: a wire is oriented along its path also when its
 first edge starts at the vertex with the higher tag

---
 src/topology/wire.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/topology/wire.py b/src/topology/wire.py
index e04df3c..edafb91 100644
--- a/src/topology/wire.py
+++ b/src/topology/wire.py
@@ -40,11 +40,20 @@ class Wire(Shape):
                 self.admissible_dimensions(),
             )
 
+    def __seed_vertex(self, edges):
+        # vertex of the first edge where the path does not continue
+        seed_vertex, end_vertex = edges[0].boundary_shapes
+        if len(edges) > 1:
+            next_vertices = edges[1].boundary_shapes
+            seed_shared_q = any(seed_vertex == vertex for vertex in next_vertices)
+            end_shared_q = any(end_vertex == vertex for vertex in next_vertices)
+            if seed_shared_q and not end_shared_q:
+                return end_vertex
+        return seed_vertex
+
     def orient_immersed_edges(self):
         edges = self.immersed_shapes
-        seed_vertex = edges[0].boundary_shapes[0]
-        if seed_vertex.tag > edges[0].boundary_shapes[1].tag:
-            seed_vertex = edges[0].boundary_shapes[1]
+        seed_vertex = self.__seed_vertex(edges)
 
         self.orientation = []
         for edge in edges:
@@ -58,9 +67,7 @@ class Wire(Shape):
 
     def orient_immersed_vertices(self):
         edges = self.immersed_shapes
-        seed_vertex = edges[0].boundary_shapes[0]
-        if seed_vertex.tag > edges[0].boundary_shapes[1].tag:
-            seed_vertex = edges[0].boundary_shapes[1]
+        seed_vertex = self.__seed_vertex(edges)
 
         vertices = []
         for edge in edges:
-- 
2.43.0


From 5a7c0d56f5960a61a8fd2a433bedeb6cdd41d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:58 +0000
Subject: [PATCH 21/54] fix: values of vector families on lines with any number
 of evaluation points

---
 src/basis/finite_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/finite_element.py b/src/basis/finite_element.py
index 08088ce..a7784f9 100644
--- a/src/basis/finite_element.py
+++ b/src/basis/finite_element.py
@@ -177,8 +177,8 @@ class FiniteElement:
         ]:
             # TODO: implement covariant Piola transformation for  types (N1E, N2E)
             # Contravariant Piola transformation for 1d cells with vector families
-            phi_mapped[:, :, 0] = (1.0 / det_jac) * phi_mapped[:, :, 0] * (
-                    jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))
+            scale = (1.0 / det_jac) * (jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))
+            phi_mapped[:, :, 0] = scale[:, np.newaxis] * phi_mapped[:, :, 0]
             if phi_tab[0].shape == phi_mapped.shape:
                 phi_tab[0] = phi_mapped
 
-- 
2.43.0


From 3d49ca433f6691e24340d6971b983a16f07e5f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 22/54] fix: l2_projector keeps small mass matrix entries

Entries were dropped with np.isclose(data, 1e-16), whose absolute
tolerance of 1e-8 removes the whole mass matrix on small elements and
leaves a silently wrong (or singular) projection.
---
 src/postprocess/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index 963a091..d088dfe 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -41,7 +41,7 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
         row = np.repeat(dest, len(dest))
         col = np.tile(dest, len(dest))
         nnz = data.shape[0]
-        nnz_idx = np.where(np.logical_not(np.isclose(data, 1.0e-16)))[0]
+        nnz_idx = np.nonzero(data)[0]
         if symmetric_solver_q:
             [
                 A.setValue(row=row[idx], col=col[idx], value=data[idx], addv=True)
-- 
2.43.0


From b6849d4eaeed65b9fae037b6ab760bdb7f29f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 23/54] fix: l2_projector is local whatever dof_shift the space
 carries

The shift of the space was already set to zero for the projection; adding
the caller's -dof_shift on top made the destinations negative.
---
 src/postprocess/projectors.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index d088dfe..ae00411 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -29,7 +29,6 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
     def scatter_form_data(A, i, weak_form):
         # destination indexes
         dest = weak_form.space.destination_indexes(i)
-        dest += dof_shift
         alpha_l = alpha[dest]
         r_el, j_el = weak_form.evaluate_form(i, alpha_l)
 
-- 
2.43.0


From 4130cb25ffbb65f2f3ec7bd0c1a398f3e3953071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 24/54] fix: div_norm reports flux fields in one dimension too

space.family is Lagrange for every 1-D space, so the norm of the
divergence (reported by div_error) was silently left out.
---
 src/postprocess/solution_norms_post_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index d6a2aa2..1204197 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -60,7 +60,7 @@ def div_norm(dim, fe_space, functions, skip_fields=[]):
     div_norms = []
     for item in fe_space.discrete_spaces.items():
         name, space = item
-        if space.family not in vec_families:
+        if space.generator_family not in vec_families:
             continue
         if name in skip_fields:
             continue
-- 
2.43.0


From ddcdff6cf0899b1f53baeba74a0d7cef4852f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 25/54] fix: grad_error uses the current quadrature and mapping
 interface

It read el_data.quadrature and el_data.mapping, which no longer exist or
are unset, and failed on every input.
---
 src/postprocess/l2_error_post_processor.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index e21d6d8..46418df 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -123,6 +123,7 @@ def grad_error(dim, fe_space, functions, alpha):
     e2 = np.array([0, 1, 0])
     e3 = np.array([0, 0, 1])
 
+    points, weights = fe_space.quadrature[dim]
     grad_errors = []
     for item in fe_space.discrete_spaces.items():
         name, space = item
@@ -136,13 +137,8 @@ def grad_error(dim, fe_space, functions, alpha):
             n_components = space.n_comp
             el_data = space.elements[idx].data
             cell = el_data.cell
-            points = el_data.quadrature.points
-            weights = el_data.quadrature.weights
-            phi_tab = space.elements[idx].evaluate_basis(points)
-
-            x = el_data.mapping.x
-            det_jac = el_data.mapping.det_jac
-            inv_jac = el_data.mapping.inv_jac
+            x, jac, det_jac, inv_jac = space.elements[idx].evaluate_mapping(points)
+            phi_tab = space.elements[idx].evaluate_basis(points, jac, det_jac, inv_jac)
 
             # scattering dof
             dest = fe_space.discrete_spaces_destination_indexes(idx)[name]
-- 
2.43.0


From cbcab166ab17c81884abd94661d7f924a07c150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 26/54] fix: devia_l2_error and devia_l2_norm subtract the mean
 of the whole domain

Both failed on every input (the quadrature is indexed by dimension now),
and the average was that of the last cell only, not divided by the
measure of the domain.
---
 src/postprocess/l2_error_post_processor.py       | 10 ++++++----
 src/postprocess/solution_norms_post_processor.py |  8 +++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index 46418df..7b907c9 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -307,7 +307,7 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
         family_by_name("BDM"),
     ]
 
-    points, weights = fe_space.quadrature
+    points, weights = fe_space.quadrature[dim]
 
     # Compute volumetric integral
     tr_T_avgs = {}
@@ -317,6 +317,7 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
             continue
         if name in skip_fields:
             continue
+        measure = 0.0
         tr_T_e_avg = 0.0
         tr_T_h_avg = 0.0
         exact = functions[name]
@@ -353,14 +354,15 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
                     for k in range(len(points))
                 ]
             )
-            tr_T_e_avg = np.sum(
+            measure += np.sum(det_jac * weights)
+            tr_T_e_avg += np.sum(
                 (det_jac * weights * np.trace(f_e, axis1=1, axis2=2) / float(dim))
             )
-            tr_T_h_avg = np.sum(
+            tr_T_h_avg += np.sum(
                 (det_jac * weights * np.trace(f_h, axis1=1, axis2=2) / float(dim))
             )
 
-        tr_T_avgs.__setitem__(name, (tr_T_e_avg, tr_T_h_avg))
+        tr_T_avgs.__setitem__(name, (tr_T_e_avg / measure, tr_T_h_avg / measure))
 
     l2_errors = []
     for item in fe_space.discrete_spaces.items():
diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index 1204197..e9fbab5 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -84,7 +84,7 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
         family_by_name("BDM"),
     ]
 
-    points, weights = fe_space.quadrature
+    points, weights = fe_space.quadrature[dim]
 
     # Compute volumetric integral
     tr_T_avgs = {}
@@ -94,6 +94,7 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
             continue
         if name in skip_fields:
             continue
+        measure = 0.0
         tr_T_e_avg = 0.0
         exact = functions[name]
         indexes = [
@@ -109,11 +110,12 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
 
             # vectorization
             f_e = np.array([exact(xv[0], xv[1], xv[2]) for xv in x])
-            tr_T_e_avg = np.sum(
+            measure += np.sum(det_jac * weights)
+            tr_T_e_avg += np.sum(
                 (det_jac * weights * np.trace(f_e, axis1=1, axis2=2) / float(dim))
             )
 
-        tr_T_avgs.__setitem__(name, tr_T_e_avg)
+        tr_T_avgs.__setitem__(name, tr_T_e_avg / measure)
 
     l2_norms = []
     for item in fe_space.discrete_spaces.items():
-- 
2.43.0


From 430f2ef8bb7f3cdb8a8a77fdd6d4d43609ffc53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 27/54] fix: Laplace primal weak forms follow the per-dimension
 quadrature and impose boundary data with the boundary element's own basis

---
 src/weak_forms/laplace_primal_weak_form.py | 42 +++-------------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/src/weak_forms/laplace_primal_weak_form.py b/src/weak_forms/laplace_primal_weak_form.py
index be6fb3d..2862965 100644
--- a/src/weak_forms/laplace_primal_weak_form.py
+++ b/src/weak_forms/laplace_primal_weak_form.py
@@ -2,8 +2,6 @@ import auto_diff as ad
 import numpy as np
 
 from basis.element_data import ElementData
-from basis.parametric_transformation import transform_lower_to_higher
-from mesh.topological_queries import find_higher_dimension_neighs
 from weak_forms.weak_from import WeakForm
 
 
@@ -23,7 +21,7 @@ class LaplacePrimalWeakForm(WeakForm):
 
         cell = p_data.cell
         dim = cell.dimension
-        points, weights = self.space.quadrature
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.elements[iel].evaluate_mapping(points)
 
         # basis
@@ -84,8 +82,8 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         p_data: ElementData = p_space.bc_elements[iel].data
 
         cell = p_data.cell
-        points, weights = self.space.bc_quadrature
         dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.bc_elements[iel].evaluate_mapping(points)
 
         # basis
@@ -102,43 +100,11 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         j_el = np.zeros(js)
         r_el = np.zeros(rs)
 
-        # find high-dimension neigh
-        neigh_list = find_higher_dimension_neighs(cell, p_space.dof_map.mesh_topology)
-        neigh_check_q = len(neigh_list) > 0
-        assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
-        neigh_cell_index = p_space.id_to_element[neigh_cell_id]
-        neigh_element = p_space.elements[neigh_cell_index]
-        neigh_cell = neigh_element.data.cell
-
-        # compute trace space
-        mapped_points = transform_lower_to_higher(points, p_data, neigh_element.data)
-        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
-            mapped_points
-        )
-        p_tr_phi_tab = neigh_element.evaluate_basis(
-            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
-        )
-        # collect all supported dofs
-        dof_idxs = []
-        for entity_dim in range(0, cell.dimension + 1):
-            dof_idxs_per_entity = []
-            for id in cell.sub_cells_ids[entity_dim]:
-                index = neigh_cell.sub_cells_ids[entity_dim].tolist().index(id)
-                if len(neigh_element.data.dof.entity_dofs[entity_dim][index]) == 0:
-                    continue
-                dof_n_index = neigh_element.data.dof.entity_dofs[entity_dim][index][0]
-                dof_idxs_per_entity.append(dof_n_index)
-            if len(dof_idxs_per_entity) == 0:
-                continue
-            dof_idxs.append(dof_idxs_per_entity)
-        dof_n_index = np.concatenate(dof_idxs)
-
         # local blocks
         beta = 1.0e12
         jac_block_p = np.zeros((n_p_phi, n_p_phi))
         for i, omega in enumerate(weights):
-            phi = p_tr_phi_tab[0, i, dof_n_index, 0]
+            phi = p_phi_tab[0, i, :, 0]
             jac_block_p += beta * det_jac[i] * omega * np.outer(phi, phi)
 
         for c in range(p_components):
@@ -147,7 +113,7 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
 
             res_block_p = np.zeros(n_p_phi)
             for i, omega in enumerate(weights):
-                phi = p_tr_phi_tab[0, i, dof_n_index, 0]
+                phi = p_phi_tab[0, i, :, 0]
                 p_D_v = p_D(x[i, 0], x[i, 1], x[i, 2])
                 res_block_p -= beta * det_jac[i] * omega * p_D_v[c] * phi
 
-- 
2.43.0


From 4a80e7397a57465c6438058f64f05bff3d6fbdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 28/54] fix: stress weak form and its traction condition use
 the current quadrature and mapping interface

---
 src/weak_forms/le_dual_weak_form.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/weak_forms/le_dual_weak_form.py b/src/weak_forms/le_dual_weak_form.py
index d1bc431..e97c938 100644
--- a/src/weak_forms/le_dual_weak_form.py
+++ b/src/weak_forms/le_dual_weak_form.py
@@ -31,8 +31,8 @@ class LEDualWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
@@ -589,13 +589,13 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         s_data: ElementData = s_space.bc_elements[iel].data
 
         cell = s_data.cell
-        points = s_data.quadrature.points
-        weights = s_data.quadrature.weights
-        x = s_data.mapping.x
-        det_jac = s_data.mapping.det_jac
-        inv_jac = s_data.mapping.inv_jac
+        dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
+        x, jac, det_jac, inv_jac = s_space.bc_elements[iel].evaluate_mapping(points)
 
-        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(points)
+        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
         n_s_phi = s_phi_tab.shape[2]
 
         n_s_dof = n_s_phi * s_components
@@ -610,14 +610,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, s_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = s_space.id_to_element[neigh_cell_id]
         neigh_element = s_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute S trace space
         mapped_points = transform_lower_to_higher(points, s_data, neigh_element.data)
-        s_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        s_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_s_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
-- 
2.43.0


From a267570d71d9bcc7356625060b56226da0823d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 29/54] fix: scaled couple stress traction condition uses the
 current quadrature and mapping interface

---
 src/weak_forms/lce_scaled_dual_weak_form.py | 34 ++++++++++++++-------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/weak_forms/lce_scaled_dual_weak_form.py b/src/weak_forms/lce_scaled_dual_weak_form.py
index bab11ed..a77fe84 100644
--- a/src/weak_forms/lce_scaled_dual_weak_form.py
+++ b/src/weak_forms/lce_scaled_dual_weak_form.py
@@ -827,14 +827,16 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         m_data: ElementData = m_space.bc_elements[iel].data
 
         cell = s_data.cell
-        points = s_data.quadrature.points
-        weights = s_data.quadrature.weights
-        x = s_data.mapping.x
-        det_jac = s_data.mapping.det_jac
-        inv_jac = s_data.mapping.inv_jac
+        dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
+        x, jac, det_jac, inv_jac = s_space.bc_elements[iel].evaluate_mapping(points)
 
-        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(points)
-        m_phi_tab = m_space.bc_elements[iel].evaluate_basis(points)
+        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
+        m_phi_tab = m_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
 
         n_s_phi = s_phi_tab.shape[2]
         n_m_phi = m_phi_tab.shape[2]
@@ -852,14 +854,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, s_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = s_space.id_to_element[neigh_cell_id]
         neigh_element = s_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute S trace space
         mapped_points = transform_lower_to_higher(points, s_data, neigh_element.data)
-        s_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        s_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_s_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
@@ -870,14 +877,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, m_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = m_space.id_to_element[neigh_cell_id]
         neigh_element = m_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute M trace space
         mapped_points = transform_lower_to_higher(points, m_data, neigh_element.data)
-        m_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        m_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_m_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
-- 
2.43.0


From aa475ac002cb4fbd96e256c90bbb9b389d229df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 30/54] fix: stress Riesz map form uses the per-dimension
 quadrature

---
 src/weak_forms/le_riesz_map_weak_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_forms/le_riesz_map_weak_form.py b/src/weak_forms/le_riesz_map_weak_form.py
index f2484d8..b2b7724 100644
--- a/src/weak_forms/le_riesz_map_weak_form.py
+++ b/src/weak_forms/le_riesz_map_weak_form.py
@@ -27,8 +27,8 @@ class LERieszMapWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
-- 
2.43.0


From e6e35337f5d5ef5118626886fe22a00be447cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 31/54] fix: normal displacement condition couples the
 components on facets with an oblique normal

---
 src/weak_forms/le_primal_weak_form.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/weak_forms/le_primal_weak_form.py b/src/weak_forms/le_primal_weak_form.py
index 3019527..e30831b 100644
--- a/src/weak_forms/le_primal_weak_form.py
+++ b/src/weak_forms/le_primal_weak_form.py
@@ -268,7 +268,7 @@ class LEPrimalWeakFormBCNormalDirichlet(WeakForm):
 
             jac_block_u = np.zeros((n_u_phi, n_u_phi))
             for i, omega in enumerate(weights):
-                phi = u_phi_tab[0, i, :, 0] * n[c]
+                phi = u_phi_tab[0, i, :, 0]
                 jac_block_u += beta * det_jac[i] * omega * np.outer(phi, phi)
 
             res_block_u = np.zeros(n_u_phi)
@@ -281,6 +281,10 @@ class LEPrimalWeakFormBCNormalDirichlet(WeakForm):
                 res_block_u -= beta * det_jac[i] * omega * u_D_normal * phi
 
             r_el[b:e:u_components] += res_block_u
-            j_el[b:e:u_components, b:e:u_components] += jac_block_u
+            # the normal component couples all the components of the displacement
+            for d in range(u_components):
+                j_el[b:e:u_components, d : d + n_u_dof : u_components] += (
+                    n[c] * n[d] * jac_block_u
+                )
 
         return r_el, j_el
-- 
2.43.0


From 0abf4be8e994938e427d54abd9cab5224c07bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 32/54] fix: trace of a discrete space looked up its neighbour
 with the (dim, id) tuple and raised

---
 src/basis/basis_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/basis_trace.py b/src/basis/basis_trace.py
index a185cbf..420c8fe 100644
--- a/src/basis/basis_trace.py
+++ b/src/basis/basis_trace.py
@@ -42,7 +42,7 @@ def trace_discrete_space(
     assert neigh_check
 
     # select neighbor
-    c0_cell_id = neigh_list[neigh_idx]
+    c0_cell_id = neigh_list[neigh_idx][1]
     c0_element_idx = sub_space.id_to_element[c0_cell_id]
     c0_element = sub_space.elements[c0_element_idx]
 
-- 
2.43.0


From 18c8fa6c258fe90afc5cb30546fe0aee87a9f136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 33/54] fix: L2 errors and norms of Lagrange fields dropped
 components beyond the space dimension

---
 src/postprocess/l2_error_post_processor.py       | 6 +++---
 src/postprocess/solution_norms_post_processor.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index 7b907c9..a1ceae5 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -33,8 +33,8 @@ def l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
             n_phi = phi_tab.shape[2]
             alpha_star = np.array(np.split(alpha_l, n_phi))
             if space.family is family_by_name("Lagrange"):
-                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:dim, :]
-                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:n_components, :]
+                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:n_components]).T
                 l2_error += np.sum(
                     det_jac * weights * (f_e_s - f_h_s) * (f_e_s - f_h_s)
                 )
@@ -91,7 +91,7 @@ def l2_error_projected(dim, fe_space, alpha, skip_fields=[], dof_shift=0):
             n_phi = phi_tab.shape[2]
             alpha_star = np.array(np.split(alpha_l, n_phi))
             if space.family is family_by_name("Lagrange"):
-                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:n_components]).T
                 l2_error += np.sum(det_jac * weights * f_h_s * f_h_s)
             else:
                 f_h = np.array(
diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index e9fbab5..7a2fb1a 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -26,7 +26,7 @@ def l2_norm(dim, fe_space, functions, skip_fields=[]):
             # vectorization
             exact = functions[name]
             if space.family is family_by_name("Lagrange"):
-                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:dim, :]
+                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:n_components, :]
                 l2_norm += np.sum(det_jac * weights * (f_e_s) * (f_e_s))
             else:
                 f_e = np.array([exact(xv[0], xv[1], xv[2]) for xv in x])
-- 
2.43.0


From d6218e633d2ea498aeddd22b9bc982fc54e8e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 34/54] fix: exported Lagrange fields with more components than
 dimensions lost or repeated components

---
 src/postprocess/solution_post_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 89baabe..dd8bb16 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -50,7 +50,7 @@ def node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha):
 
         # Generalized displacement
         if space.family is family_by_name("Lagrange"):
-            f_h = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+            f_h = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:n_comp]).T
         else:
             f_h = np.vstack(
                 tuple(
@@ -95,7 +95,7 @@ def cell_centered_quatity(cell, fe_space, name, alpha):
 
     # Generalized displacement
     if space.family is family_by_name("Lagrange"):
-        f_h = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+        f_h = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:n_comp]).T
     else:
         f_h = np.vstack(
             tuple([phi_tab[0, 0, :, 0:dim].T @ alpha_star[:, c] for c in range(n_comp)])
-- 
2.43.0


From e39bd15cce886e11ec28826bc848c885a089cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 35/54] fix: pointwise error of vector Lagrange fields was the
 norm of a matrix of mixed differences

---
 src/postprocess/solution_post_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index dd8bb16..4fa6c2c 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -363,7 +363,7 @@ def write_vtk_file_pointwise_l2_error(
                 x = cell_centroid(cell, gmesh)
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
-                e_f = np.linalg.norm(f_e - f_h)
+                e_f = np.linalg.norm(f_e.ravel() - f_h.ravel())
                 eh_data[cell_idx] = e_f.ravel()
 
             c_data_dict[name + "_error"] = [eh_data]
@@ -382,7 +382,7 @@ def write_vtk_file_pointwise_l2_error(
                 x = gmesh.points[node_idx]
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha)
-                e_f = np.linalg.norm(f_e - f_h)
+                e_f = np.linalg.norm(f_e.ravel() - f_h.ravel())
                 eh_data[node_idx] = e_f.ravel()
 
             p_data_dict[name + "_error"] = eh_data
-- 
2.43.0


From a24085894c782c9448778c55f2cabdcd27f3238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 36/54] fix: export with exact solution mixed in lower
 dimensional cells of the same physical tag

---
 src/postprocess/solution_post_processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 4fa6c2c..8855655 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -224,7 +224,8 @@ def write_vtk_file_with_exact_solution(
     cells = [
         cell
         for cell in gmesh.cells
-        if cell.material_id in fe_space.fields_physical_tags[name]
+        if cell.dimension == fe_space.dimension()
+        and cell.material_id in fe_space.fields_physical_tags[name]
     ]
     con_d = np.array([cell.node_tags for cell in cells])
     meshio_cell_types = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}
-- 
2.43.0


From a9a0932ad52f26712a7a7112e5e84d10370f1a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 37/54] fix: cell centred export of a field on part of the mesh
 raised

---
 src/postprocess/solution_post_processor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 8855655..098419b 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -126,6 +126,8 @@ def write_vtk_file(file_name, gmesh, fe_space, alpha, cell_centered=[]):
             fh_data = np.zeros((len(cells), n_data))
 
             for cell_idx, cell in enumerate(cells):
+                if cell.material_id not in fe_space.fields_physical_tags[name]:
+                    continue
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
                 fh_data[cell_idx] = f_h.ravel()
 
@@ -185,7 +187,12 @@ def write_vtk_file_with_exact_solution(
             n_data *= dim
 
         if name in cell_centered:
-            cells = [cell for cell in gmesh.cells if cell.dimension == dim]
+            cells = [
+                cell
+                for cell in gmesh.cells
+                if cell.dimension == dim
+                and cell.material_id in fe_space.fields_physical_tags[name]
+            ]
             fh_data = np.zeros((len(cells), n_data))
             fe_data = np.zeros((len(cells), n_data))
 
@@ -361,6 +368,8 @@ def write_vtk_file_pointwise_l2_error(
             eh_data = np.zeros((len(cells), 1))
 
             for cell_idx, cell in enumerate(cells):
+                if cell.material_id not in fe_space.fields_physical_tags[name]:
+                    continue
                 x = cell_centroid(cell, gmesh)
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
-- 
2.43.0


From c05428e3723aaccbb876a68e2c3c89dbbc8e1d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 38/54] fix: DiscreteDomain meshes solids (undefined stride
 names)

---
 src/mesh/discrete_domain.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 3c95c63..936b730 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -245,14 +245,13 @@ class DiscreteDomain:
 
         # transfer volumes
         if dimension > 2:
-            volume_stride = surface_stride + len(self.domain.shapes[2])
             for volume in self.domain.shapes[3]:
-                tag = volume_stride + volume.tag + 1
+                tag = self.stride_tag(3, volume.tag)
                 if not volume.composite:
                     # print("creating surface tag: ", surface.tag)
                     shell = volume.boundary_shapes[0]
                     loop_tags = [
-                        surface_stride + shape.tag + 1
+                        self.stride_tag(2, shape.tag)
                         for shape in shell.immersed_shapes
                     ]
                     gmsh.model.occ.addSurfaceLoop(loop_tags, tag)
@@ -272,7 +271,7 @@ class DiscreteDomain:
             for volume in self.domain.shapes[3]:
                 if volume.physical_tag is not None:
                     gmsh.model.addPhysicalGroup(
-                        3, [volume_stride + volume.tag + 1], volume.physical_tag
+                        3, [self.stride_tag(3, volume.tag)], volume.physical_tag
                     )
 
         gmsh.model.occ.synchronize()
@@ -298,21 +297,22 @@ class DiscreteDomain:
                 for shape_c1 in shapes_c1:
                     if len(shape_c1.immersed_shapes) > 0:
                         tags_1d = tags_1d + [
-                            curve_stride + curve.tag + 1
+                            self.stride_tag(1, curve.tag)
                             for curve in shape_c1.immersed_shapes
                         ]
                     else:
-                        tags_2d = tags_2d + [surface_stride + shape_c1.tag + 1]
+                        tags_2d = tags_2d + [self.stride_tag(2, shape_c1.tag)]
                     for shape_c2 in shape_c1.boundary_shapes:
                         tags_1d = tags_1d + [
-                            curve_stride + curve.tag + 1
+                            self.stride_tag(1, curve.tag)
                             for curve in shape_c2.immersed_shapes
                         ]
 
                 tags_1d = list(np.unique(tags_1d))
                 tags_2d = list(np.unique(tags_2d))
-                gmsh.model.mesh.embed(1, tags_1d, 3, volume_stride + volume.tag + 1)
-                gmsh.model.mesh.embed(2, tags_2d, 3, volume_stride + volume.tag + 1)
+                volume_tag = self.stride_tag(3, volume.tag)
+                gmsh.model.mesh.embed(1, tags_1d, 3, volume_tag)
+                gmsh.model.mesh.embed(2, tags_2d, 3, volume_tag)
 
                 numNodes = 2
                 for tag_1d in tags_1d:
-- 
2.43.0


From 103f8f8d4bcc69ae845508cbde38934451ae20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 39/54] fix: meeting of collinear and end-touching segments in
 line_line_intersection

---
 .../triangle_triangle_intersection_test.py    | 38 ++++++-------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/src/geometry/operations/triangle_triangle_intersection_test.py b/src/geometry/operations/triangle_triangle_intersection_test.py
index 5155d91..18041de 100644
--- a/src/geometry/operations/triangle_triangle_intersection_test.py
+++ b/src/geometry/operations/triangle_triangle_intersection_test.py
@@ -92,36 +92,20 @@ class TriangleTriangleIntersectionTest:
             )
             if not p_is_ab_colinear_q and not q_is_ab_colinear_q:
                 return (False, np.array, np.array)
-            tau = (ar - br) / np.linalg.norm(ar - br)
-            n = np.array([tau[1], -tau[0]])
-
-            drop = np.argmax(np.abs(n))
-            pos = np.array(
-                list(
-                    {
-                        0,
-                        1,
-                    }
-                    - {drop}
-                )
-            )
-
-            ar_member_q = pr[pos] <= ar[pos] and ar[pos] <= qr[pos]
-            br_member_q = pr[pos] <= br[pos] and br[pos] <= qr[pos]
-            if ar_member_q or br_member_q:
-                if ar_member_q and br_member_q:
-                    return (True, a, b)
-                if ar_member_q:
-                    return (True, a, q)
-                if br_member_q:
-                    return (True, p, b)
-            else:
-                return (True, p, q)
+            # positions of p and q along the segment, which spans [0, 1]
+            tau = (br - ar) / np.dot(br - ar, br - ar)
+            p_pos, q_pos = np.dot(pr - ar, tau), np.dot(qr - ar, tau)
+            if p_pos > q_pos:
+                p, q, p_pos, q_pos = q, p, q_pos, p_pos
+            if q_pos < -self.eps or p_pos > 1.0 + self.eps:
+                return (False, np.array, np.array)
+            return (True, a if p_pos <= 0.0 else p, b if q_pos >= 1.0 else q)
 
         tv = np.linalg.det(np.array([ar - pr, pr - qr]).T) / dv
         uv = np.linalg.det(np.array([ar - pr, ar - br]).T) / dv
-        t_intersection_q = 0.0 <= tv and tv <= 1.0
-        u_intersection_q = 0.0 <= uv and uv <= 1.0
+        # segments touching at their ends meet despite of rounding
+        t_intersection_q = -self.eps <= tv and tv <= 1.0 + self.eps
+        u_intersection_q = -self.eps <= uv and uv <= 1.0 + self.eps
         p_intersection = None
         if t_intersection_q and u_intersection_q:
             p_intersection = a + tv * (b - a)
-- 
2.43.0


From 4603f2bf73f09afe34bfa26381a1b9b61c99be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 40/54] fix: fractures of a network with a common end share its
 vertex

---
 src/geometry/fracture_network.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index c625b8f..4100c6c 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -203,31 +203,21 @@ class FractureNetwork:
         self.fracture_tags = [
             i + self.physical_tag_shift for i, _ in enumerate(fractures)
         ]
-        self.points = np.array([])
+        self.points = np.empty((0, 3), dtype=float)
         self.cells = np.array([], dtype=GeometryCell)
 
         # build dfn disjoint geometrical description
-        points = []
-        cell_id = 0
-        point_id = 0
         for f_i, fracture in enumerate(fractures):
             physical_tag = self.fracture_tags[f_i]
             bc_cells = np.array([], dtype=GeometryCell)
             for point in fracture:
-                vertex = GeometryCell(
-                    0, cell_id, point_id=point_id, physical_tag=physical_tag
-                )
-                self.cells = np.append(self.cells, np.array(vertex))
-                point_id = point_id + 1
-                points.append(point)
+                # fractures with a common end share its vertex
+                vertex = self.insert_vertex_cell(point, physical_tag)
                 bc_cells = np.append(bc_cells, vertex)
-                cell_id = cell_id + 1
 
-            edge = GeometryCell(1, cell_id, physical_tag=physical_tag)
+            edge = GeometryCell(1, len(self.cells), physical_tag=physical_tag)
             edge.boundary_cells = bc_cells
             self.cells = np.append(self.cells, edge)
-            cell_id = cell_id + 1
-        self.points = np.stack(points, axis=0)
 
         tt_test = tt_intersector.TriangleTriangleIntersectionTest()
 
-- 
2.43.0


From dbb047982f5c0a493adc1d2610c4148b18b0df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 41/54] fix: unpair_intergers floors the square root

---
 src/geometry/fracture_network.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index 4100c6c..d692e84 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -1,3 +1,5 @@
+import math
+
 import matplotlib.pyplot as plt
 import networkx as nx
 import numpy as np
@@ -283,12 +285,11 @@ class FractureNetwork:
 
     def unpair_intergers(self, z):
         # http://szudzik.com/ElegantPairing.pdf
-        pair = None
-        test = z - np.sqrt(z) ** 2 < np.sqrt(z)
-        if test:
-            pair = [z - np.sqrt(z) ** 2, np.sqrt(z)]
+        root = math.isqrt(z)
+        if z - root**2 < root:
+            pair = [z - root**2, root]
         else:
-            pair = [np.sqrt(z), z - np.sqrt(z) ** 2 - np.sqrt(z)]
+            pair = [root, z - root**2 - root]
         return pair
 
     def shift_point_ids(self, shift=0):
-- 
2.43.0


From 1ff531f712f466b4c801bf8bbe628602b37c8af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 42/54] Revert "fix: meeting of collinear and end-touching
 segments in line_line_intersection"

This reverts commit 103f8f8d4bcc69ae845508cbde38934451ae20fd.
---
 .../triangle_triangle_intersection_test.py    | 38 +++++++++++++------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/geometry/operations/triangle_triangle_intersection_test.py b/src/geometry/operations/triangle_triangle_intersection_test.py
index 18041de..5155d91 100644
--- a/src/geometry/operations/triangle_triangle_intersection_test.py
+++ b/src/geometry/operations/triangle_triangle_intersection_test.py
@@ -92,20 +92,36 @@ class TriangleTriangleIntersectionTest:
             )
             if not p_is_ab_colinear_q and not q_is_ab_colinear_q:
                 return (False, np.array, np.array)
-            # positions of p and q along the segment, which spans [0, 1]
-            tau = (br - ar) / np.dot(br - ar, br - ar)
-            p_pos, q_pos = np.dot(pr - ar, tau), np.dot(qr - ar, tau)
-            if p_pos > q_pos:
-                p, q, p_pos, q_pos = q, p, q_pos, p_pos
-            if q_pos < -self.eps or p_pos > 1.0 + self.eps:
-                return (False, np.array, np.array)
-            return (True, a if p_pos <= 0.0 else p, b if q_pos >= 1.0 else q)
+            tau = (ar - br) / np.linalg.norm(ar - br)
+            n = np.array([tau[1], -tau[0]])
+
+            drop = np.argmax(np.abs(n))
+            pos = np.array(
+                list(
+                    {
+                        0,
+                        1,
+                    }
+                    - {drop}
+                )
+            )
+
+            ar_member_q = pr[pos] <= ar[pos] and ar[pos] <= qr[pos]
+            br_member_q = pr[pos] <= br[pos] and br[pos] <= qr[pos]
+            if ar_member_q or br_member_q:
+                if ar_member_q and br_member_q:
+                    return (True, a, b)
+                if ar_member_q:
+                    return (True, a, q)
+                if br_member_q:
+                    return (True, p, b)
+            else:
+                return (True, p, q)
 
         tv = np.linalg.det(np.array([ar - pr, pr - qr]).T) / dv
         uv = np.linalg.det(np.array([ar - pr, ar - br]).T) / dv
-        # segments touching at their ends meet despite of rounding
-        t_intersection_q = -self.eps <= tv and tv <= 1.0 + self.eps
-        u_intersection_q = -self.eps <= uv and uv <= 1.0 + self.eps
+        t_intersection_q = 0.0 <= tv and tv <= 1.0
+        u_intersection_q = 0.0 <= uv and uv <= 1.0
         p_intersection = None
         if t_intersection_q and u_intersection_q:
             p_intersection = a + tv * (b - a)
-- 
2.43.0


From d0ebb3f10efe87a58bc325b5d08647755c46fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 43/54] fix: fracture networks miss touching ends and cut
 collinear fractures apart

---
 src/geometry/fracture_network.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index d692e84..d936a17 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -7,6 +7,7 @@ from numpy import linalg as la
 
 import geometry.operations.polygon_polygon_intersection_test as pp_intersector
 import geometry.operations.triangle_triangle_intersection_test as tt_intersector
+from geometry.operations.line_geometry_operations import lines_line_intersection
 
 from .geometry_cell import GeometryCell
 
@@ -232,11 +233,12 @@ class FractureNetwork:
                 p, q = [self.points[id] for id in cell_j_bc_ids]
                 if i >= j:
                     continue
-                intersection_data = tt_test.line_line_intersection(
-                    a, b, p, q, pos, render_intersection_q
-                )
-                if intersection_data[0]:
-                    point = intersection_data[1]
+                if render_intersection_q:
+                    tt_test.render_lines(a, b, p, q, pos)
+                # collinear fractures may be apart and ends may touch
+                points = lines_line_intersection(np.array([[a, b]]), p, q)
+                if len(points) > 0:
+                    point = points[0][0]
                     physical_tag = self.pair_intergers(
                         cell_i.physical_tag, cell_j.physical_tag
                     )
-- 
2.43.0


From 68e63f78dd219e1343df60eb6a9edf9f9826f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:17 +0000
Subject: [PATCH 44/54] fix: renumbering a domain gives embedded edges the
 numbers of faces

---
 src/topology/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/domain.py b/src/topology/domain.py
index b3bbd4a..57fd488 100644
--- a/src/topology/domain.py
+++ b/src/topology/domain.py
@@ -55,7 +55,7 @@ class Domain:
             tag += 1
             if len(shape.immersed_shapes):
                 for j, ishape in enumerate(shape.immersed_shapes):
-                    if shape.dimension != dim:
+                    if ishape.dimension != dim:
                         continue
                     ishape.tag = tag
                     tag += 1
-- 
2.43.0


From c6a91618c7c9caee0d03dab9223e99c8dda96af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 45/54] fix: edges of a domain are cut where collinear edges
 are apart, touching ends are missed

---
 src/topology/shape_manipulation.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index c7255d0..f8f30d3 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -4,6 +4,7 @@ from numpy import linalg as la
 from globals import geometry_collapse_tol as collapse_tol
 from topology.vertex import Vertex
 
+from geometry.operations.line_geometry_operations import lines_line_intersection
 
 import geometry.operations.polygon_polygon_intersection_test as pp_intersector
 import geometry.operations.triangle_triangle_intersection_test as tt_intersector
@@ -232,11 +233,12 @@ def intersect_edges(
             p, q = [shape.point for shape in edge_j.boundary_shapes]
             if i >= j:
                 continue
-            intersection_data = tt_test.line_line_intersection(
-                a, b, p, q, pos, render_intersection_q
-            )
-            if intersection_data[0]:
-                new_point = intersection_data[1]
+            if render_intersection_q:
+                tt_test.render_lines(a, b, p, q, pos)
+            # collinear edges may be apart and ends may touch
+            intx_points = lines_line_intersection(np.array([[a, b]]), p, q)
+            if len(intx_points) > 0:
+                new_point = intx_points[0][0]
                 obj_vertex = point_on_edge_boundary(new_point, edge_i)
                 tool_vertex = point_on_edge_boundary(new_point, edge_j)
                 # Connected edges by a common vertex are ignored
-- 
2.43.0


From 1cafecc93f355310778714dff1bf7d8b71190714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 46/54] fix: vertices before the first end of an edge are
 embedded in it

---
 src/topology/shape_manipulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index f8f30d3..005391b 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -175,7 +175,8 @@ def embed_vertex_in_edge(vertices: np.ndarray, edge: Edge, tag_shift=0):
         if i in indices_on_bc:
             continue
         vertex.point = vertex.point - translation
-        r_norm = la.norm(vertex.point, axis=0)
+        # distance from a in the sense of b
+        r_norm = np.dot(vertex.point, b.point) / rb_norm
         if ra_norm < r_norm and r_norm < rb_norm:
             is_a = np.isclose(r_norm, ra_norm)
             is_b = np.isclose(r_norm, rb_norm)
-- 
2.43.0


From 1c9cfece1408bbe1e0e6bd1078cefd64b4fa7ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 47/54] fix: a wire keeps its replaced end vertex when an edge
 ends on it

---
 src/topology/shape_manipulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index 005391b..c718176 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -278,6 +278,11 @@ def intersect_edges(
         for i, edge_i in enumerate(edges_obj):
             # print("edge index: ", i)
             if isinstance(edge_i, Wire):
+                # a wire ends at the vertices of its edges
+                for k, vertex_bc in enumerate(edge_i.boundary_shapes):
+                    for vertex in vertices:
+                        if np.all(np.isclose(vertex.point, vertex_bc.point)):
+                            edge_i.boundary_shapes[k] = vertex
                 continue
             case_indices = np.argwhere(case_line_indices == i)[:, 0]
             if len(case_indices) == 0:
-- 
2.43.0


From d2523bf98096b0096d2db72ae3ef43592bb41349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 48/54] fix: a wire runs against the pieces of a reversed edge

---
 src/topology/wire.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/topology/wire.py b/src/topology/wire.py
index edafb91..f718c5f 100644
--- a/src/topology/wire.py
+++ b/src/topology/wire.py
@@ -51,7 +51,19 @@ class Wire(Shape):
                 return end_vertex
         return seed_vertex
 
+    def __arrange_edge_pieces(self):
+        # the pieces of a fragmented edge follow the path of the wire
+        seed_vertex = self.__seed_vertex(self._immersed_shapes)
+        for edge in self._immersed_shapes:
+            pieces = edge.immersed_shapes
+            if len(pieces) > 0:
+                if not any(seed_vertex == v for v in pieces[0].boundary_shapes):
+                    edge.immersed_shapes = pieces[::-1]
+            begin_vertex, end_vertex = edge.boundary_shapes
+            seed_vertex = end_vertex if seed_vertex == begin_vertex else begin_vertex
+
     def orient_immersed_edges(self):
+        self.__arrange_edge_pieces()
         edges = self.immersed_shapes
         seed_vertex = self.__seed_vertex(edges)
 
-- 
2.43.0


From 0f0e19fa14b076e6758e334d1c9f14b61f7baefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 49/54] fix: shapes with equal immersed shapes are equal
 whatever bounds them

---
 src/topology/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/shape.py b/src/topology/shape.py
index fdae18c..e25a7b7 100644
--- a/src/topology/shape.py
+++ b/src/topology/shape.py
@@ -141,7 +141,7 @@ class Shape(ABC):
 
         equality_by_immersed_shapes = True
         if self.immersed_shapes.size != 0 and n_immersed_shapes_q:
-            equality_by_boundary_shapes = np.all(
+            equality_by_immersed_shapes = np.all(
                 np.array(
                     [
                         shape == other_shape
-- 
2.43.0


From 38ad85e34f6e22334ebfd024ca36de20ee3bf821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 50/54] fix: comparing a vertex with another kind of shape
 raises

---
 src/topology/vertex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/topology/vertex.py b/src/topology/vertex.py
index 4f2c17f..68aab2e 100644
--- a/src/topology/vertex.py
+++ b/src/topology/vertex.py
@@ -15,6 +15,8 @@ class Vertex(Shape):
 
     def __eq__(self, other):
         identity_check = (self.dimension, self.tag) == (other.dimension, other.tag)
+        if not identity_check:
+            return False
         geometry_check = np.all(np.isclose(self.point, other.point))
         return identity_check and geometry_check
 
-- 
2.43.0


From 54b24384d01acc5a1427325eb10fedb686dc79ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 51/54] fix: a closed wire does not contain the vertex it
 starts and ends at

---
 src/topology/shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/topology/shape.py b/src/topology/shape.py
index e25a7b7..f58a067 100644
--- a/src/topology/shape.py
+++ b/src/topology/shape.py
@@ -171,11 +171,11 @@ class Shape(ABC):
         immersed_q = other_id in immersed_ids
         if boundary_q:
             boundary_q = (
-                len([shape for shape in self.boundary_shapes if shape == other]) == 1
+                len([shape for shape in self.boundary_shapes if shape == other]) > 0
             )
         if immersed_q:
             immersed_q = (
-                len([shape for shape in self.immersed_shapes if shape == other]) == 1
+                len([shape for shape in self.immersed_shapes if shape == other]) > 0
             )
         return boundary_q or immersed_q
 
-- 
2.43.0


From 84d84258a8dc4a3fcf35c3ed160e45307b996608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 52/54] fix: edges of tetrahedra keep their nodes in a list,
 where no node is found

---
 src/mesh/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index faf150b..b8f9757 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -186,12 +186,12 @@ class Mesh:
             # vertex id
             vertex_ids = [self.entities_0d[node] for node in node_tags]
 
-            edge_0 = [node_tags[2], node_tags[3]]
-            edge_1 = [node_tags[1], node_tags[3]]
-            edge_2 = [node_tags[1], node_tags[2]]
-            edge_3 = [node_tags[0], node_tags[3]]
-            edge_4 = [node_tags[0], node_tags[2]]
-            edge_5 = [node_tags[0], node_tags[1]]
+            edge_0 = node_tags[np.array([2, 3])]
+            edge_1 = node_tags[np.array([1, 3])]
+            edge_2 = node_tags[np.array([1, 2])]
+            edge_3 = node_tags[np.array([0, 3])]
+            edge_4 = node_tags[np.array([0, 2])]
+            edge_5 = node_tags[np.array([0, 1])]
             edges = [edge_0, edge_1, edge_2, edge_3, edge_4, edge_5]
 
             edge_ids = []
-- 
2.43.0


From 08bb9fb3ce6078193bf9c007a2ab02a5b89132ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 53/54] fix: cells whose tags read the same when joined are
 taken for one cell

---
 src/mesh/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index b8f9757..6a061c0 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -48,7 +48,7 @@ class Mesh:
             chunk[i + 2] = tag
         key = ""
         for integer in chunk:
-            key = key + str(integer)
+            key = key + str(integer) + " "
 
         position = self.cell_data.get(key, None)
         cell_id = None
-- 
2.43.0


From 162be77357d4c687bf392655819cceb15ea92aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 54/54] fix: the wire of a fractured box repeats pieces when
 sides share a physical tag

---
 src/topology/domain_market.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 49e40ae..a2a4d03 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -286,6 +286,9 @@ def create_md_box_2D(
         )
         # in the sense of the loop, the edge itself lists its vertices by tag
         a, b = box_points[i], box_points[(i + 1) % len(box_points)]
+        # sides can share a physical tag
+        _, on_side_q = points_line_intersection(sub_edges_xcs, a, b)
+        sub_edges, sub_edges_xcs = sub_edges[on_side_q], sub_edges_xcs[on_side_q]
         idx = points_line_argsort(sub_edges_xcs, a, b)
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
-- 
2.43.0

