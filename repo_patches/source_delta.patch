From bf7c9775d0e225f7cb6eafecea34eeb0a6d9dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:19 +0000
Subject: [PATCH 001/141] fix: topological dimension of wedge15, pyramid13,
 hexahedron24, hexahedron1331

---
 src/meshio/_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 741831d..e05cbad 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -21,11 +21,14 @@ topological_dimension = {
     "quad9": 2,
     "tetra10": 3,
     "hexahedron27": 3,
+    "wedge15": 3,
     "wedge18": 3,
+    "pyramid13": 3,
     "pyramid14": 3,
     "vertex": 0,
     "quad8": 2,
     "hexahedron20": 3,
+    "hexahedron24": 3,
     "triangle10": 2,
     "triangle15": 2,
     "triangle21": 2,
@@ -67,6 +70,7 @@ topological_dimension = {
     "hexahedron512": 3,
     "hexahedron729": 3,
     "hexahedron1000": 3,
+    "hexahedron1331": 3,
     "wedge126": 3,
     "wedge196": 3,
     "wedge288": 3,
-- 
2.43.0


From ec95b563c8e8b340a2ef254033cad48964fdc7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 002/141] fix: cell_sets_dict: count cells of blocks without
 set members in the offset

---
 src/meshio/_mesh.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index e05cbad..f54f96f 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -287,14 +287,10 @@ class Mesh:
             sets_dict[key] = {}
             offsets = {}
             for members, cells in zip(member_list, self.cells):
+                offset = offsets.get(cells.type, 0)
+                offsets[cells.type] = offset + len(cells)
                 if members is None:
                     continue
-                if cells.type in offsets:
-                    offset = offsets[cells.type]
-                    offsets[cells.type] += cells.data.shape[0]
-                else:
-                    offset = 0
-                    offsets[cells.type] = cells.data.shape[0]
                 if cells.type in sets_dict[key]:
                     sets_dict[key][cells.type].append(members + offset)
                 else:
-- 
2.43.0


From 4b0be7a70f34d9b0c2c031e22d03cd8ec0030a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:40 +0000
Subject: [PATCH 003/141] fix: point_data_to_sets: use the data name in the set
 names

---
 src/meshio/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index f54f96f..f353b77 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -410,7 +410,7 @@ class Mesh:
         names = list(dict.fromkeys(names))
         if len(names) != len(tags):
             # alternative names
-            names = [f"set-key-{tag}" for tag in tags]
+            names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
         # np.unique or np.sort
-- 
2.43.0


From 3b74dce744e5de69ebea54d71bfb7e89b5633dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:17 +0000
Subject: [PATCH 004/141] fix: gmsh22: split element data by the cell blocks
 when reading

---
 src/meshio/gmsh/_gmsh22.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 56fbdb6..e7b59e1 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -72,6 +72,7 @@ def read_buffer(f, is_ascii, data_size):
     if has_additional_tag_data:
         warn("The file contains tag data that couldn't be processed.")
 
+    cells = [CellBlock(cell_type, cell_array) for cell_type, cell_array in cells]
     cell_data = cell_data_from_raw(cells, cell_data_raw)
 
     # merge cell_tags into cell_data
@@ -79,11 +80,11 @@ def read_buffer(f, is_ascii, data_size):
         if tag_name not in cell_data:
             cell_data[tag_name] = []
         offset = {}
-        for cell_type, cell_array in cells:
-            start = offset.setdefault(cell_type, 0)
-            end = start + len(cell_array)
-            offset[cell_type] = end
-            tags = tag_dict.get(cell_type, [])
+        for cell_block in cells:
+            start = offset.setdefault(cell_block.type, 0)
+            end = start + len(cell_block)
+            offset[cell_block.type] = end
+            tags = tag_dict.get(cell_block.type, [])
             tags = np.array(tags[start:end], dtype=c_int)
             cell_data[tag_name].append(tags)
 
-- 
2.43.0


From 4b4acc31b83f91c4bf31b4185b5d54127a54ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:22 +0000
Subject: [PATCH 005/141] fix: gmsh41: write entities of meshes without
 physical tags

---
 src/meshio/gmsh/_gmsh41.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 3e305a1..597f18d 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -417,7 +417,11 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     for ci, cell_block in enumerate(cells):
         cell_dim_tags[ci] = [
             cell_block.dim,
-            tag_data["gmsh:geometrical"][ci][0],
+            (
+                tag_data["gmsh:geometrical"][ci][0]
+                if "gmsh:geometrical" in tag_data
+                else 0
+            ),
         ]
 
     # We will only deal with bounding entities if this information is available
@@ -467,7 +471,7 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
         # If there is a corresponding cell block, write physical tags (if any)
         # and bounding entities (if any)
-        if matching_cell_block.size > 0:
+        if matching_cell_block.size > 0 and "gmsh:physical" in tag_data:
             # entity has a physical tag, write this
             # ASSUMPTION: There is a single physical tag for this
             physical_tag = tag_data["gmsh:physical"][matching_cell_block[0]][0]
-- 
2.43.0


From 0494e06f7740d63837247be12ce4b0a98e8cf730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:28 +0000
Subject: [PATCH 006/141] fix: gmsh40: write periodicity the way it is read

---
 src/meshio/gmsh/_gmsh40.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 3d4270e..3593ccf 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -388,12 +388,15 @@ def _write_periodic(fh, periodic, float_fmt, binary):
     for dim, (stag, mtag), affine, slave_master in periodic:
         tofile(fh, [dim, stag, mtag], c_int)
         if affine is not None and len(affine) > 0:
-            tofile(fh, -1, c_long)
-            tofile(fh, affine, c_double, fmt=float_fmt)
+            if binary:
+                tofile(fh, -1, c_long)
+            else:
+                fh.write(b"Affine ")
+            tofile(fh, np.ravel(affine), c_double, fmt=float_fmt)
         slave_master = np.array(slave_master, dtype=c_int)
         slave_master = slave_master.reshape(-1, 2)
         slave_master = slave_master + 1  # Add one, Gmsh is 1-based
-        tofile(fh, len(slave_master), c_int)
+        tofile(fh, len(slave_master), c_ulong)
         tofile(fh, slave_master, c_int)
     if binary:
         fh.write(b"\n")
-- 
2.43.0


From a90ac7a3a3898299e9ebef14cd5ca7c0341245c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:37 +0000
Subject: [PATCH 007/141] fix: gmsh40: do not write gmsh:dim_tags as node data

---
 src/meshio/gmsh/_gmsh40.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 3593ccf..4dc600e 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -257,6 +257,9 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = True) ->
         if mesh.gmsh_periodic is not None:
             _write_periodic(fh, mesh.gmsh_periodic, float_fmt, binary)
         for name, dat in mesh.point_data.items():
+            # gmsh:dim_tags are tags, not actual point data
+            if name == "gmsh:dim_tags":
+                continue
             _write_data(fh, "NodeData", name, dat, binary)
         cell_data_raw = raw_from_cell_data(mesh.cell_data)
         for name, dat in cell_data_raw.items():
-- 
2.43.0


From d85bdd38986926082ebcc72cec4ae7994ec96498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:12 +0000
Subject: [PATCH 008/141] fix: gmsh4: read files in which only some entities
 have a physical tag

---
 src/meshio/gmsh/_gmsh40.py |  7 +++++--
 src/meshio/gmsh/_gmsh41.py | 11 ++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 4dc600e..ece7bd2 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -189,15 +189,18 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
         for physical_tag, geom_tag, tpe, d in data
     ]
 
+    # entities without physical tag get a 0 if other entities have one
+    has_physical = any(physical_tag for physical_tag, _, _, _ in data)
+
     cells = []
     cell_data = {}
     for physical_tag, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 597f18d..e6f75c5 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -248,14 +248,17 @@ def _read_elements(
         for physical_tag, bound_entity, geom_tag, tpe, d in data
     ]
 
+    # entities without physical tag get a 0 if other entities have one
+    has_physical = any(physical_tag for physical_tag, _, _, _, _ in data)
+
     cells = []
     for physical_tag, bound_entity, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
@@ -471,10 +474,12 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
         # If there is a corresponding cell block, write physical tags (if any)
         # and bounding entities (if any)
+        physical_tag = 0
         if matching_cell_block.size > 0 and "gmsh:physical" in tag_data:
-            # entity has a physical tag, write this
             # ASSUMPTION: There is a single physical tag for this
             physical_tag = tag_data["gmsh:physical"][matching_cell_block[0]][0]
+        if physical_tag != 0:
+            # entity has a physical tag, write this
             if binary:
                 np.array([1], dtype=c_size_t).tofile(fh)
                 np.array([physical_tag], dtype=c_int).tofile(fh)
-- 
2.43.0


From 60487520c6a7380b655e83a3d63f7e4ea233ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:18 +0000
Subject: [PATCH 009/141] fix: gmsh: attach node data to the nodes by their
 tags

---
 src/meshio/gmsh/_gmsh22.py |  4 +++-
 src/meshio/gmsh/_gmsh40.py |  4 +++-
 src/meshio/gmsh/_gmsh41.py |  4 +++-
 src/meshio/gmsh/common.py  | 13 +++++++++++--
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index e7b59e1..0b7b434 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -63,7 +63,9 @@ def read_buffer(f, is_ascii, data_size):
         elif environ == "Periodic":
             periodic = _read_periodic(f)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            _read_data(
+                f, "NodeData", point_data, data_size, is_ascii, point_tags
+            )
         elif environ == "ElementData":
             _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
         else:
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index ece7bd2..15e7147 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -59,7 +59,9 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
         elif environ == "Periodic":
             periodic = _read_periodic(f, is_ascii)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            _read_data(
+                f, "NodeData", point_data, data_size, is_ascii, point_tags
+            )
         elif environ == "ElementData":
             _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
         else:
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index e6f75c5..31712cc 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -79,7 +79,9 @@ def read_buffer(f, is_ascii: bool, data_size):
         elif environ == "Periodic":
             periodic = _read_periodic(f, is_ascii, data_size)
         elif environ == "NodeData":
-            _read_data(f, "NodeData", point_data, data_size, is_ascii)
+            _read_data(
+                f, "NodeData", point_data, data_size, is_ascii, point_tags + 1
+            )
         elif environ == "ElementData":
             _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
         else:
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 717e82e..1bdf5e4 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -50,7 +50,7 @@ def _read_physical_names(f, field_data):
     _fast_forward_to_end_block(f, "PhysicalNames")
 
 
-def _read_data(f, tag, data_dict, data_size, is_ascii):
+def _read_data(f, tag, data_dict, data_size, is_ascii, item_tags=None):
     # Read string tags
     num_string_tags = int(f.readline().decode())
     string_tags = [
@@ -70,15 +70,24 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
             (num_items, 1 + num_components)
         )
         # The first entry is the node number
+        index = data[:, 0].astype(int)
         data = data[:, 1:]
     else:
         # binary
         dtype = [("index", c_int), ("values", c_double, (num_components,))]
         data = np.fromfile(f, count=num_items, dtype=dtype)
-        if not (data["index"] == range(1, num_items + 1)).all():
+        index = data["index"]
+        if item_tags is None and not (index == range(1, num_items + 1)).all():
             raise ReadError()
         data = np.ascontiguousarray(data["values"])
 
+    if item_tags is not None and not np.array_equal(index, item_tags):
+        # The file lists the items in a different order, bring the data in line.
+        order = np.argsort(index)
+        if not np.array_equal(index[order], np.sort(item_tags)):
+            raise ReadError(f"${tag} doesn't match the items in the file.")
+        data = data[order[np.searchsorted(index[order], item_tags)]]
+
     _fast_forward_to_end_block(f, tag)
 
     # The gmsh format cannot distinguish between data of shape (n,) and (n, 1).
-- 
2.43.0


From 486695c65663f10891a53ba8a471ad1ca9e1344d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:26 +0000
Subject: [PATCH 010/141] fix: avsucd: split cell data by the cell blocks when
 reading

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 5fdbfe6..6b76103 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -69,7 +69,7 @@ def read_buffer(f):
     # Read cell data
     if num_cell_data:
         cdata = _read_data(f, num_cells, cell_ids)
-        sections = np.cumsum([len(c[1]) for c in cells[:-1]])
+        sections = np.cumsum([len(c) for c in cells[:-1]])
         for k, v in cdata.items():
             cell_data[k] = np.split(v, sections)
 
-- 
2.43.0


From 62cbd4f083ea5ae5698b0f65d95f7fc9f9dc4692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:33 +0000
Subject: [PATCH 011/141] fix: avsucd: do not change the mesh when writing 2D
 points

---
 src/meshio/avsucd/_avsucd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 6b76103..b1d3e87 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -145,12 +145,13 @@ def _read_data(f, num_entities, entity_ids):
 
 
 def write(filename, mesh):
-    if len(mesh.points.shape) > 1 and mesh.points.shape[1] == 2:
+    points = mesh.points
+    if len(points.shape) > 1 and points.shape[1] == 2:
         warn(
             "AVS-UCD requires 3D points, but 2D points given. "
             "Appending 0 third component."
         )
-        mesh.points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
 
     with open_file(filename, "w") as f:
         # Write meshio version
@@ -187,7 +188,7 @@ def write(filename, mesh):
         f.write(f"{num_nodes} {num_cells} {num_node_data_sum} {num_cell_data_sum} 0\n")
 
         # Write nodes
-        _write_nodes(f, mesh.points)
+        _write_nodes(f, points)
 
         # Write cells
         _write_cells(f, mesh.cells, material)
-- 
2.43.0


From f5a4560af669d71f29c807968811547153077814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 012/141] fix: vtk, vtu, ply: do not change the mesh that is
 written

---
 src/meshio/_common.py     | 15 +++++++++++++++
 src/meshio/ply/_ply.py    |  4 ++--
 src/meshio/vtk/_vtk_51.py |  5 ++++-
 src/meshio/vtu/_vtu.py    | 13 ++++++++++++-
 4 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index a92ef0e..db04f1b 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 from xml.etree import ElementTree as ET
 
 import numpy as np
@@ -96,6 +97,20 @@ def raw_from_cell_data(cell_data):
     return {name: np.concatenate(value) for name, value in cell_data.items()}
 
 
+def shallow_copy(mesh):
+    """Copy of a mesh which can be adapted for writing without changing the original
+    mesh. The arrays are shared.
+    """
+    out = copy.copy(mesh)
+    out.cells = list(mesh.cells)
+    out.point_data = dict(mesh.point_data)
+    out.cell_data = {key: list(value) for key, value in mesh.cell_data.items()}
+    out.field_data = dict(mesh.field_data)
+    out.point_sets = dict(mesh.point_sets)
+    out.cell_sets = {key: list(value) for key, value in mesh.cell_sets.items()}
+    return out
+
+
 def write_xml(filename, root):
     tree = ET.ElementTree(root)
     tree.write(filename)
diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 4393cbc..53a0abf 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -12,7 +12,7 @@ import sys
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import warn
+from .._common import shallow_copy, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -392,6 +392,7 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
 
 
 def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
+    mesh = shallow_copy(mesh)
 
     with open_file(filename, "wb") as fh:
         fh.write(b"ply\n")
@@ -452,7 +453,6 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"element face {num_cells:d}\n".encode())
 
             # possibly cast down to int32
-            # TODO don't alter the mesh data
             has_cast = False
             for k, cell_block in enumerate(mesh.cells):
                 if cell_block.data.dtype == np.int64:
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 2eb1db6..e80d8ee 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -3,7 +3,7 @@ from functools import reduce
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import info, join_strings, replace_space, warn
+from .._common import info, join_strings, replace_space, shallow_copy, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._mesh import Mesh
@@ -511,6 +511,9 @@ def write(filename, mesh, binary=True):
     if not binary:
         warn("VTK ASCII files are only meant for debugging.")
 
+    # don't convert the sets of the original mesh
+    mesh = shallow_copy(mesh)
+
     if mesh.point_sets:
         info(
             "VTK format cannot write point_sets. Converting them to point_data...",
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index be80904..087751d 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -12,7 +12,14 @@ import zlib
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import info, join_strings, raw_from_cell_data, replace_space, warn
+from .._common import (
+    info,
+    join_strings,
+    raw_from_cell_data,
+    replace_space,
+    shallow_copy,
+    warn,
+)
 from .._exceptions import CorruptionError, ReadError
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -605,6 +612,10 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
             is_polyhedron_grid = True
             break
 
+    if not is_polyhedron_grid:
+        # don't change the original mesh
+        mesh = shallow_copy(mesh)
+
     # The current implementation cannot mix polyhedral cells with other cell types.
     # To write such meshes, represent all cells as polyhedra.
     if is_polyhedron_grid:
-- 
2.43.0


From 36e357d9a686dfbfded559d3801ee7e881995aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:59 +0000
Subject: [PATCH 013/141] fix: ply: support all PLY number types, read uchar as
 unsigned

---
 src/meshio/ply/_ply.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 53a0abf..1d6b2cf 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -29,6 +29,7 @@ ply_to_numpy_dtype = {
     "ushort": np.uint16,
     "int": np.int32,
     "int8": np.int8,
+    "int16": np.int16,
     "int32": np.int32,
     "int64": np.int64,
     "uint": np.uint32,
@@ -264,19 +265,7 @@ def _read_binary(
     cell_data_dtypes,
 ):
     ply_to_numpy_dtype_string = {
-        "uchar": "i1",
-        "uint": "u4",
-        "uint8": "u1",
-        "uint16": "u2",
-        "uint32": "u4",
-        "uint64": "u8",
-        "int": "i4",
-        "int8": "i1",
-        "int32": "i4",
-        "int64": "i8",
-        "float": "f4",
-        "float32": "f4",
-        "double": "f8",
+        key: np.dtype(value).str[1:] for key, value in ply_to_numpy_dtype.items()
     }
 
     # read point data
-- 
2.43.0


From c21692fe741adb848adca00aee31dc2012a543d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:07 +0000
Subject: [PATCH 014/141] fix: ply: read vertex cells from binary files

---
 src/meshio/ply/_ply.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 1d6b2cf..7887022 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -369,7 +369,7 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
         block_buffer = buffer[byte_starts_ends[start] : byte_starts_ends[end]]
         cells_per_row = (row_lengths[start] - count_itemsize) // data_itemsize
         block_dtype = np.dtype(
-            [("count", count_dtype), ("data", data_dtype * cells_per_row)]
+            [("count", count_dtype), ("data", data_dtype, (cells_per_row,))]
         )
         cells = np.frombuffer(block_buffer, dtype=block_dtype)["data"]
 
-- 
2.43.0


From e7f237df158c0edfe193daa9994315f589c1af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:14 +0000
Subject: [PATCH 015/141] fix: ply: read 2D points and single points

---
 src/meshio/ply/_ply.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 7887022..46393ee 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -186,25 +186,13 @@ def _read_ascii(
             for name, fmt in zip(point_data_names, point_data_formats)
         ]
     )
-    pd = np.genfromtxt(f, max_rows=num_verts, dtype=dtype)
+    pd = np.atleast_1d(np.genfromtxt(f, max_rows=num_verts, dtype=dtype))
 
     # split off coordinate data and additional point data
-    verts = []
-    k = 0
-    if point_data_names[0] == "x":
-        verts.append(pd["x"])
-        k += 1
-    if point_data_names[1] == "y":
-        verts.append(pd["y"])
-        k += 1
-    if point_data_names[2] == "z":
-        verts.append(pd["z"])
-        k += 1
-    verts = np.column_stack(verts)
+    verts = np.column_stack([pd[n] for n in ["x", "y", "z"] if n in point_data_names])
 
     point_data = {
-        point_data_names[i]: pd[point_data_names[i]]
-        for i in range(k, len(point_data_names))
+        name: pd[name] for name in point_data_names if name not in ["x", "y", "z"]
     }
     cell_data = {}
 
@@ -276,7 +264,9 @@ def _read_binary(
     point_data = np.frombuffer(
         f.read(num_verts * np.dtype(dtype).itemsize), dtype=dtype
     )
-    verts = np.column_stack([point_data["x"], point_data["y"], point_data["z"]])
+    verts = np.column_stack(
+        [point_data[n] for n in ["x", "y", "z"] if n in point_data_names]
+    )
     point_data = {
         name: point_data[name]
         for name in point_data_names
-- 
2.43.0


From 147a96ddcc704a9993c08afc7f0bdf1a8e37f73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:59 +0000
Subject: [PATCH 016/141] fix: ply: attach scalar face properties to their
 faces

---
 src/meshio/ply/_ply.py | 64 +++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 46393ee..429a32c 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -4,7 +4,6 @@ I/O for the PLY format, cf.
 <https://web.archive.org/web/20161221115231/http://www.cs.virginia.edu/~gfx/Courses/2001/Advanced.spring.01/plylib/Ply.txt>.
 """
 
-import collections
 import datetime
 import re
 import sys
@@ -211,12 +210,12 @@ def _read_ascii(
                     n = int(data[i])
                     i += n + 1
                 else:
-                    cell_data[name] = collections.defaultdict(list)
+                    cell_data[name] = []
                     i += 1
 
         # go over the line
         i = 0
-        n = None
+        row = {}
         for name, dtype in zip(cell_data_names, cell_dtypes):
             if name == "vertex_indices":
                 idx_dtype, value_dtype = dtype
@@ -225,19 +224,18 @@ def _read_ascii(
                 idx = dtype(data[i + 1 : i + n + 1])
                 if len(cell_blocks) == 0 or len(cell_blocks[-1][1][-1]) != n:
                     cell_blocks.append((cell_type_from_count(n), [idx]))
+                    for value in cell_data.values():
+                        value.append([])
                 else:
                     cell_blocks[-1][1].append(idx)
                 i += n + 1
             else:
-                dtype = ply_to_numpy_dtype[dtype]
-                # use n from vertex_indices
-                assert n is not None
-                cell_data[name][n] += [dtype(data[j]) for j in range(i, i + 1)]
+                row[name] = ply_to_numpy_dtype[dtype](data[i])
                 i += 1
+        for name, value in row.items():
+            cell_data[name][-1].append(value)
 
-    cell_data = {
-        key: [np.array(v) for v in value.values()] for key, value in cell_data.items()
-    }
+    cell_data = {key: [np.array(v) for v in value] for key, value in cell_data.items()}
 
     return Mesh(verts, cell_blocks, point_data=point_data, cell_data=cell_data)
 
@@ -293,19 +291,39 @@ def _read_binary(
     buffer_position = 0
 
     cell_data = {}
-    for name, dt in zip(cell_data_names, dts):
-        if isinstance(dt, tuple):
-            buffer_increment, cell_data[name] = _read_binary_list(
-                buffer[buffer_position:], dt[0], dt[1], num_cells, endianness
-            )
-        else:
-            buffer_increment = np.dtype(dt).itemsize
-            cell_data[name] = np.frombuffer(
-                buffer[buffer_position : buffer_position + buffer_increment], dtype=dt
-            )[0]
-        buffer_position += buffer_increment
-
-    cells = cell_data.pop("vertex_indices", [])
+    if len(dts) == 1 and isinstance(dts[0], tuple):
+        _, cell_data[cell_data_names[0]] = _read_binary_list(
+            buffer, dts[0][0], dts[0][1], num_cells, endianness
+        )
+        cells = cell_data.pop("vertex_indices", [])
+    else:
+        # There is other data next to the cells. Each face comes with all its
+        # properties, so go face by face.
+        cells = []
+        for _ in range(num_cells):
+            row = {}
+            for name, dt in zip(cell_data_names, dts):
+                count = 1
+                if isinstance(dt, tuple):
+                    count = int(np.frombuffer(buffer, dt[0], 1, buffer_position)[0])
+                    buffer_position += np.dtype(dt[0]).itemsize
+                    dt = dt[1]
+                elif name not in cell_data:
+                    cell_data[name] = []
+                row[name] = np.frombuffer(buffer, dt, count, buffer_position)
+                buffer_position += row[name].nbytes
+            idx = row["vertex_indices"]
+            if len(cells) == 0 or len(cells[-1][1][-1]) != len(idx):
+                cells.append((cell_type_from_count(len(idx)), []))
+                for value in cell_data.values():
+                    value.append([])
+            cells[-1][1].append(idx)
+            for name, value in cell_data.items():
+                value[-1].append(row[name][0])
+        cells = [(cell_type, np.array(idx)) for cell_type, idx in cells]
+        cell_data = {
+            key: [np.array(v) for v in value] for key, value in cell_data.items()
+        }
 
     return Mesh(verts, cells, point_data=point_data, cell_data=cell_data)
 
-- 
2.43.0


From 76a43dbff22b40e66da9505b17f6b675bdbc9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:24 +0000
Subject: [PATCH 017/141] fix: vtk42: read cell data of meshes with polygons

---
 src/meshio/vtk/_vtk_42.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index f3cb469..95bd498 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -529,7 +529,6 @@ def translate_cells(connectivity, types, cell_data_raw):
         if not np.all(numnodes == connectivity[offsets]):
             raise ReadError()
 
-        # TODO: cell_data
         for idx, vtk_cell_type in enumerate(types):
             start = offsets[idx] + 1
 
@@ -554,6 +553,9 @@ def translate_cells(connectivity, types, cell_data_raw):
             else:
                 # open up a new cell block
                 cells.append((cell_type, [cell]))
+
+        splits = np.cumsum([len(cell_block) for _, cell_block in cells])[:-1]
+        cell_data = {name: np.split(d, splits) for name, d in cell_data_raw.items()}
     else:
         # Infer offsets from the cell types. This is much faster than manually going
         # through the data array. Slight disadvantage: This doesn't work for cells with
-- 
2.43.0


From b90d855bde3ad13d67fa93ca79604b4af418cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:32 +0000
Subject: [PATCH 018/141] fix: vtk: format vtk51 writes VTK 5.1 files

---
 src/meshio/vtk/_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_main.py b/src/meshio/vtk/_main.py
index 1e8e717..0dad2d2 100644
--- a/src/meshio/vtk/_main.py
+++ b/src/meshio/vtk/_main.py
@@ -40,7 +40,7 @@ register_format(
     read,
     {
         "vtk42": _vtk_42.write,
-        "vtk51": _vtk_42.write,
+        "vtk51": _vtk_51.write,
         "vtk": _vtk_51.write,
     },
 )
-- 
2.43.0


From c54022f90c3f0eb5bea91ef166b898fbedfb837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:50 +0000
Subject: [PATCH 019/141] fix: nastran: write all real numbers, e.g., negative
 ones, in at most 16 characters

---
 src/meshio/nastran/_nastran.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 0e1313c..4e0da30 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -410,10 +410,13 @@ def _float_to_nastran_string(value, length=16):
         -0.1234 --> "-1.234E-1"
         3.1415926535897932 --> "3.14159265359E+0"
     """
-    out = np.format_float_scientific(value, exp_digits=1, precision=11).replace(
-        "e", "E"
-    )
-    assert len(out) <= 16
+    for precision in range(11, 0, -1):
+        out = np.format_float_scientific(
+            value, exp_digits=1, precision=precision
+        ).replace("e", "E")
+        if len(out) <= length:
+            break
+    assert len(out) <= length
     return out
     # The following is the manual float conversion. Keep it around for a while in case
     # we still need it.
-- 
2.43.0


From 54e1e7aa7e1e36d157695e79b9bdb41da6c0725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:57 +0000
Subject: [PATCH 020/141] fix: nastran: write and read cells in all field
 formats

---
 src/meshio/nastran/_nastran.py | 56 +++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 4e0da30..38dd839 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -125,7 +125,7 @@ def read_buffer(f):
         # read line and merge with all continuation lines (starting with `+` or
         # `*` or automatic continuation lines in fixed format)
         chunks = []
-        c, _ = _chunk_line(next_line)
+        c, is_free = _chunk_line(next_line)
         chunks.append(c)
         while True:
             next_line = f.readline()
@@ -171,7 +171,7 @@ def read_buffer(f):
 
         # merge chunks according to large field format
         # large field format: 8 + 16 + 16 + 16 + 16 + 8
-        if chunks[0][0].startswith("GRID*"):
+        if not is_free and chunks[0][0].rstrip().endswith("*"):
             new_chunks = []
             for c in chunks:
                 d = [c[0]]
@@ -212,10 +212,11 @@ def read_buffer(f):
         # strip chunks
         chunks = [chunk.strip() for chunk in chunks]
 
-        keyword = chunks[0]
+        # large field format is indicated by a trailing asterisk
+        keyword = chunks[0].rstrip("*")
 
         # Points
-        if keyword in ["GRID", "GRID*"]:
+        if keyword == "GRID":
             point_id = int(chunks[1])
             pref = chunks[2].strip()
             if len(pref) > 0:
@@ -308,15 +309,16 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
 
     if cell_format == "free":
         int_fmt, cell_info_fmt = "{:d}", "{:s},{:d},{:s},"
-        sjoin = ","
+        sjoin, cchar = ",", "+"
+        nipl1, nipl2 = 6, 8
     elif cell_format == "fixed-small":
         int_fmt, cell_info_fmt = "{:<8d}", "{:<8s}{:<8d}{:<8s}"
         sjoin, cchar = "", "+"
-        nipl1, nipl2 = 6, 14
+        nipl1, nipl2 = 6, 8
     elif cell_format == "fixed-large":
         int_fmt, cell_info_fmt = "{:<16d}", "{:<8s}{:<16d}{:<16s}"
         sjoin, cchar = "", "*"
-        nipl1, nipl2 = 2, 6
+        nipl1, nipl2 = 2, 4
     else:
         raise RuntimeError(f'unknown "{format}" format')
 
@@ -348,8 +350,10 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
             cell_type = cell_block.type
             cells = cell_block.data
             nastran_type = meshio_to_nastran_type[cell_type]
+            # the trailing underscore of the fictive types isn't part of the name
+            nastran_name = nastran_type.rstrip("_")
             if cell_format.endswith("-large"):
-                nastran_type += "*"
+                nastran_name += "*"
             if cell_refs is not None:
                 cell_refs_t = cell_refs[ict]
             else:
@@ -358,28 +362,30 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
                 if cell_refs is not None:
                     cell_ref = str(int(cell_refs_t[ic]))
                 cell_id += 1
-                cell_info = cell_info_fmt.format(nastran_type, cell_id, cell_ref)
+                cell_info = cell_info_fmt.format(nastran_name, cell_id, cell_ref)
                 cell1 = cell + 1
                 cell1 = _convert_to_nastran_ordering(cell1, nastran_type)
-                conn = sjoin.join(int_fmt.format(nid) for nid in cell1[:nipl1])
 
-                if len(cell1) > nipl1:
+                # first line, followed by continuation lines
+                line = cell_info
+                conn = cell1[:nipl1]
+                pos = nipl1
+                k = 0
+                while True:
+                    line += sjoin.join(int_fmt.format(nid) for nid in conn)
+                    if pos >= len(cell1):
+                        f.write(line + "\n")
+                        break
+                    k += 1
                     if cell_format == "free":
-                        cflag1 = cflag3 = ""
-                        cflag2 = cflag4 = "+,"
+                        f.write(line + "\n")
+                        line = "+,"
                     else:
-                        cflag1 = cflag2 = f"{cchar}1{cell_id:<6x}"
-                        cflag3 = cflag4 = f"{cchar}2{cell_id:<6x}"
-                    f.write(cell_info + conn + cflag1 + "\n")
-                    conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl1:nipl2])
-                    if len(cell1) > nipl2:
-                        f.write(cflag2 + conn + cflag3 + "\n")
-                        conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl2:])
-                        f.write(cflag4 + conn + "\n")
-                    else:
-                        f.write(cflag2 + conn + "\n")
-                else:
-                    f.write(cell_info + conn + "\n")
+                        cflag = f"{cchar}{k}{cell_id:<6x}"
+                        f.write(line + cflag + "\n")
+                        line = cflag
+                    conn = cell1[pos : pos + nipl2]
+                    pos += nipl2
 
         f.write("ENDDATA\n")
 
-- 
2.43.0


From dcdd74b2369e447e1e531b345667f8fd82ab4f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:37 +0000
Subject: [PATCH 021/141] fix: nastran: do not cut off the integer part of
 large numbers in small fields

---
 src/meshio/nastran/_nastran.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 38dd839..3e2d811 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -391,7 +391,11 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
 
 
 def _float_rstrip(x, n=8):
-    return f"{x:f}".rstrip("0")[:n]
+    out = f"{x:f}".rstrip("0")[:n]
+    if "." not in out:
+        # The integer part doesn't fit in the field.
+        out = _float_to_nastran_string(x, n)
+    return out
 
 
 def _float_to_nastran_string(value, length=16):
@@ -416,7 +420,7 @@ def _float_to_nastran_string(value, length=16):
         -0.1234 --> "-1.234E-1"
         3.1415926535897932 --> "3.14159265359E+0"
     """
-    for precision in range(11, 0, -1):
+    for precision in range(11, -1, -1):
         out = np.format_float_scientific(
             value, exp_digits=1, precision=precision
         ).replace("e", "E")
-- 
2.43.0


From ae7698d8b745f26f8e7869740eaada703cb750db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:45 +0000
Subject: [PATCH 022/141] fix: nastran: keep references aligned if some are
 blank

---
 src/meshio/nastran/_nastran.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 3e2d811..7625253 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -101,13 +101,11 @@ def read_buffer(f):
         if len(cells) > 0 and cells[-1][0] == cell_type:
             cells[-1][1].append(cell)
             cells_id[-1].append(cell_id)
-            if cell_ref is not None:
-                cell_refs[-1].append(cell_ref)
+            cell_refs[-1].append(cell_ref)
         else:
             cells.append((cell_type, [cell]))
             cells_id.append([cell_id])
-            if cell_ref is not None:
-                cell_refs.append([cell_ref])
+            cell_refs.append([cell_ref])
 
     while True:
         next_line = f.readline()
@@ -219,8 +217,7 @@ def read_buffer(f):
         if keyword == "GRID":
             point_id = int(chunks[1])
             pref = chunks[2].strip()
-            if len(pref) > 0:
-                point_refs.append(int(pref))
+            point_refs.append(int(pref) if len(pref) > 0 else None)
             points_id.append(point_id)
             points.append([_nastran_string_to_float(i) for i in chunks[3:6]])
 
@@ -267,10 +264,16 @@ def read_buffer(f):
     mesh = Mesh(points, cells)
     mesh.points_id = points_id
     mesh.cells_id = cells_id
-    if len(point_refs) > 0:
-        mesh.point_data["nastran:ref"] = np.array(point_refs)
-    if len(cell_refs) > 0:
-        mesh.cell_data["nastran:ref"] = [np.array(i) for i in cell_refs]
+    # Some references may be left blank; use the defaults then.
+    if any(ref is not None for ref in point_refs):
+        mesh.point_data["nastran:ref"] = np.array(
+            [0 if ref is None else ref for ref in point_refs]
+        )
+    if any(ref is not None for refs in cell_refs for ref in refs):
+        mesh.cell_data["nastran:ref"] = [
+            np.array([cid if ref is None else ref for ref, cid in zip(refs, cids)])
+            for refs, cids in zip(cell_refs, cells_id)
+        ]
     return mesh
 
 
-- 
2.43.0


From dae9ba2dde3aac2cc321aa1551877afee9ad91be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:54 +0000
Subject: [PATCH 023/141] fix: nastran: do not loop forever on empty bulk
 sections

---
 src/meshio/nastran/_nastran.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 7625253..5d7fbe1 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -109,6 +109,8 @@ def read_buffer(f):
 
     while True:
         next_line = f.readline()
+        if not next_line:
+            raise ReadError("Premature EOF")
         # Blank lines or comments
         if len(next_line) < 4 or next_line.startswith(("$", "//", "#")):
             continue
@@ -474,8 +476,7 @@ def _nastran_string_to_float(string):
 
 def _chunk_line(line: str) -> tuple[list[str], bool]:
     # remove terminal newline
-    assert line[-1] == "\n"
-    line = line[:-1]
+    line = line.rstrip("\n")
     if "," in line:
         # free format
         return line.split(","), True
-- 
2.43.0


From 98d92cf0c69771b482662b0cf11defae900dd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:29 +0000
Subject: [PATCH 024/141] fix: permas: revert the node ordering when reading

---
 src/meshio/permas/_permas.py | 54 +++++++++++-------------------------
 1 file changed, 16 insertions(+), 38 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index dda02a3..c644915 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -55,6 +55,12 @@ permas_to_meshio_type = {
     "PENTA15": "wedge15",
 }
 meshio_to_permas_type = {v: k for k, v in permas_to_meshio_type.items()}
+meshio_to_permas_order = {
+    "triangle6": [0, 3, 1, 4, 2, 5],
+    "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3],
+    "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
+    "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14],
+}
 
 
 def read(filename):
@@ -155,7 +161,10 @@ def _read_cells(f, line0, point_gids):
             cells.append(idx)
             idx = []
     f.seek(last_pos)
-    return cell_type, np.array(cells)
+    cells = np.array(cells)
+    if cell_type in meshio_to_permas_order:
+        cells = cells[:, np.argsort(meshio_to_permas_order[cell_type])]
+    return cell_type, cells
 
 
 def get_param_map(word, required_keys=None):
@@ -239,47 +248,16 @@ def write(filename, mesh):
         for k, x in enumerate(points):
             f.write(f"{k + 1} {x[0]} {x[1]} {x[2]}\n")
         eid = 0
-        tria6_order = [0, 3, 1, 4, 2, 5]
-        tet10_order = [0, 4, 1, 5, 2, 6, 7, 8, 9, 3]
-        quad9_order = [0, 4, 1, 7, 8, 5, 3, 6, 2]
-        wedge15_order = [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]
         for cell_block in mesh.cells:
             node_idcs = cell_block.data
             f.write("!\n")
             f.write("$ELEMENT TYPE=" + meshio_to_permas_type[cell_block.type] + "\n")
-            if cell_block.type == "tetra10":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in tet10_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "triangle6":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in tria6_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "quad9":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in quad9_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "wedge15":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in wedge15_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            else:
-                for row in node_idcs:
-                    eid += 1
-                    nids_strs = (str(nid + 1) for nid in row.tolist())
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
+            if cell_block.type in meshio_to_permas_order:
+                node_idcs = node_idcs[:, meshio_to_permas_order[cell_block.type]]
+            for row in node_idcs:
+                eid += 1
+                nids_strs = (str(nid + 1) for nid in row.tolist())
+                f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
         f.write("$END STRUCTURE\n")
         f.write("$EXIT COMPONENT\n")
         f.write("$FIN\n")
-- 
2.43.0


From 7d7c71a5fed1a7dfb852e1db0120f228fa66672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:45 +0000
Subject: [PATCH 025/141] fix: permas: accept any amount of white space between
 entries

---
 src/meshio/permas/_permas.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index c644915..bc4a48c 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -129,7 +129,7 @@ def _read_nodes(f):
             break
         if line.startswith("$"):
             break
-        entries = line.strip().split(" ")
+        entries = line.split()
         gid, x = entries[0], entries[1:]
         point_gids[int(gid)] = index
         points.append([float(xx) for xx in x])
@@ -156,7 +156,7 @@ def _read_cells(f, line0, point_gids):
             break
         line = line.strip()
         # the first item is just a running index
-        idx += [point_gids[int(k)] for k in filter(None, line.split(" ")[1:])]
+        idx += [point_gids[int(k)] for k in line.rstrip("!").split()[1:]]
         if not line.endswith("!"):
             cells.append(idx)
             idx = []
@@ -214,7 +214,7 @@ def read_set(f, params_map):
         line = f.readline()
         if line.startswith("$"):
             break
-        set_ids += [int(k) for k in line.strip().strip(" ").split(" ")]
+        set_ids += [int(k) for k in line.split()]
     f.seek(last_pos)
 
     if "generate" in params_map:
-- 
2.43.0


From 7f63d0678d90998969231e5ce85a0348fbf0cab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:26 +0000
Subject: [PATCH 026/141] fix: su2: write boundary cells

---
 src/meshio/su2/_su2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b925171..b59c504 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -338,7 +338,9 @@ def write(filename, mesh):
             f.write(f"MARKER_TAG= {tag}\n".encode())
             f.write(f"MARKER_ELEMS= {count}\n".encode())
 
-            for index, (cell_type, data) in enumerate(mesh.cells):
+            for index, cell_block in enumerate(mesh.cells):
+                cell_type = cell_block.type
+                data = cell_block.data
 
                 if cell_type not in types:
                     continue
-- 
2.43.0


From 25aaac37cc9065bbe1bfb415ebba63e1d5b098a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:34 +0000
Subject: [PATCH 027/141] fix: su2: read files without inner cells

---
 src/meshio/su2/_su2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b59c504..9221534 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -116,6 +116,8 @@ def read_buffer(f):
             # translate_cells function from vtk reader
 
             num_elems = int(rest_of_line)
+            if num_elems == 0:
+                continue
             gen = islice(f, num_elems)
 
             # some files has an extra int column while other not
-- 
2.43.0


From f9ba2cac32a56bf10c8e1220dcb59158a372544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:41 +0000
Subject: [PATCH 028/141] fix: su2: announce all cells that are not written

---
 src/meshio/su2/_su2.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index 9221534..92e1dc1 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -259,12 +259,16 @@ def write(filename, mesh):
         f.write(f"NPOIN= {num_points}\n".encode())
         np.savetxt(f, mesh.points)
 
-        # Through warnings about unsupported types
+        # Throw warnings about unsupported types
+        if dim == 2:
+            supported_types = ["line", "triangle", "quad"]
+        else:
+            supported_types = [t for t in meshio_to_su2_type if t != "line"]
         for cell_block in mesh.cells:
-            if cell_block.type not in meshio_to_su2_type:
+            if cell_block.type not in supported_types:
                 warn(
-                    ".su2 does not support tags elements of type {}.\n"
-                    "Skipping ...".format(type)
+                    f".su2 does not support elements of type {cell_block.type} "
+                    f"in {dim}D.\nSkipping ..."
                 )
 
         # Write `internal` cells
-- 
2.43.0


From 5ca311f711e390983fe75bee88368ee76158e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:12 +0000
Subject: [PATCH 029/141] fix: tetgen: multiple tetra blocks, float attributes,
 missing header

---
 src/meshio/tetgen/_tetgen.py | 42 ++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index c869496..8073a39 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -14,6 +14,15 @@ from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
 
+def _next_line(f):
+    """Return the next line which is neither empty nor a comment."""
+    for line in iter(f.readline, ""):
+        line = line.strip()
+        if len(line) > 0 and line[0] != "#":
+            return line
+    raise ReadError("Unexpected end of file.")
+
+
 def read(filename):
     filename = pathlib.Path(filename)
     if filename.suffix == ".node":
@@ -30,9 +39,7 @@ def read(filename):
 
     # read nodes
     with open(node_filename) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = _next_line(f)
 
         num_points, dim, num_attrs, num_bmarkers = (
             int(item) for item in line.split(" ") if item != ""
@@ -63,25 +70,30 @@ def read(filename):
 
     # read elements
     with open(ele_filename.as_posix()) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = _next_line(f)
 
         num_tets, num_points_per_tet, num_attrs = (
             int(item) for item in line.strip().split(" ") if item != ""
         )
         if num_points_per_tet != 4:
             raise ReadError()
+        # the attributes can be floating point numbers
         cells = np.fromfile(
-            f, dtype=int, count=(5 + num_attrs) * num_tets, sep=" "
+            f,
+            dtype=int if num_attrs == 0 else float,
+            count=(5 + num_attrs) * num_tets,
+            sep=" ",
         ).reshape(num_tets, 5 + num_attrs)
         # read cell (region) attributes, the first is "ref", the others are "ref2",
         # "ref3", ...
         for k in range(num_attrs):
             flag = "" if k == 0 else str(k + 1)
-            cell_data["tetgen:ref" + flag] = [cells[:, 5 + k]]
+            attr = cells[:, 5 + k]
+            if np.all(attr == attr.astype(int)):
+                attr = attr.astype(int)
+            cell_data["tetgen:ref" + flag] = [attr]
         # remove the leading index column and the attributes
-        cells = cells[:, 1:5]
+        cells = cells[:, 1:5].astype(int)
         cells -= node_index_base
 
     return Mesh(
@@ -156,13 +168,15 @@ def write(filename, mesh, float_fmt=".16e"):
         fh.write(f"# This file was created by meshio v{__version__}\n")
         if nattr > 0:
             fh.write("# attribute names: {}\n".format(", ".join(attr_keys)))
-        for id, c in enumerate(filter(lambda c: c.type == "tetra", mesh.cells)):
-            data = c.data
-            fh.write(f"{data.shape[0]} {4} {nattr}\n")
-            fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        tets = [(id, c.data) for id, c in enumerate(mesh.cells) if c.type == "tetra"]
+        fh.write(f"{sum(len(data) for _, data in tets)} {4} {nattr}\n")
+        fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        count = 0
+        for id, data in tets:
             for k, tet in enumerate(data):
                 data = list(tet[:4]) + [mesh.cell_data[key][id][k] for key in attr_keys]
-                fh.write(fmt.format(k, *data))
+                fh.write(fmt.format(count, *data))
+                count += 1
 
 
 register_format("tetgen", [".ele", ".node"], read, {"tetgen": write})
-- 
2.43.0


From 83a2a43dcc0fb4b87426e253ce4ca1518a99327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:35 +0000
Subject: [PATCH 030/141] fix: hmf: keep all cell blocks and their order

---
 src/meshio/hmf/_hmf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index b4af72f..7b69ac4 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -2,6 +2,7 @@ import meshio
 
 from .._common import cell_data_from_raw, raw_from_cell_data, warn
 from .._helpers import register_format
+from .._mesh import CellBlock
 from ..xdmf.common import meshio_to_xdmf_type, xdmf_to_meshio_type
 
 
@@ -19,14 +20,14 @@ def read(filename):
         grid = domain["grid"]
 
         points = None
-        cells = {}
+        topologies = {}
         point_data = {}
         cell_data_raw = {}
 
         for key, value in grid.items():
             if key[:8] == "Topology":
                 cell_type = value.attrs["TopologyType"]
-                cells[xdmf_to_meshio_type[cell_type]] = value[()]
+                topologies[int(key[8:])] = (xdmf_to_meshio_type[cell_type], value[()])
 
             elif key == "Geometry":
                 # TODO is GeometryType really needed?
@@ -42,6 +43,8 @@ def read(filename):
                 for name, na in value.items():
                     point_data[name] = na[()]
 
+        # the keys are sorted alphabetically (Topology10 < Topology2)
+        cells = [CellBlock(*topologies[k]) for k in sorted(topologies)]
         cell_data = cell_data_from_raw(cells, cell_data_raw)
 
         return meshio.Mesh(
-- 
2.43.0


From 567f7054c04e1fa518e5a45358577a1c7aa53603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:40 +0000
Subject: [PATCH 031/141] fix: wkt: read numbers with exponent, name the
 skipped cells

---
 src/meshio/wkt/_wkt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 588f504..75ed0bd 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -10,7 +10,7 @@ from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
-float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)"
+float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
 point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
@@ -78,7 +78,8 @@ def write(filename, mesh):
 def write_buffer(f, mesh):
     skip = [c for c in mesh.cells if c.type != "triangle"]
     if skip:
-        warn('WTK only supports triangle cells. Skipping {", ".join(skip)}.')
+        skipped = ", ".join(c.type for c in skip)
+        warn(f"WKT only supports triangle cells. Skipping {skipped}.")
 
     triangles = mesh.get_cells_type("triangle")
 
-- 
2.43.0


From 5fc01403f2560deef6bd4a7ae5c8aaa33c8fddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:47 +0000
Subject: [PATCH 032/141] fix: xdmf: read mixed topologies with vertices and
 higher-order cells

---
 src/meshio/xdmf/common.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index fb7fcf3..e9a3f83 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from .._common import num_nodes_per_cell
 from .._exceptions import ReadError
 from .._mesh import CellBlock
 
@@ -116,15 +117,7 @@ def translate_mixed_cells(data):
     # https://xdmf.org/index.php/XDMF_Model_and_Format#Arbitrary
     # https://gitlab.kitware.com/xdmf/xdmf/blob/master/XdmfTopologyType.hpp#L394
     xdmf_idx_to_num_nodes = {
-        1: 1,  # vertex
-        2: 2,  # line
-        4: 3,  # triangle
-        5: 4,  # quad
-        6: 4,  # tet
-        7: 5,  # pyramid
-        8: 6,  # wedge
-        9: 8,  # hex
-        11: 6,  # triangle6
+        k: num_nodes_per_cell[v] for k, v in xdmf_idx_to_meshio_type.items()
     }
 
     # collect types and offsets
@@ -135,9 +128,12 @@ def translate_mixed_cells(data):
         xdmf_type = data[r]
         types.append(xdmf_type)
         offsets.append(r)
-        if xdmf_type == 2:  # line
-            if data[r + 1] != 2:  # polyline
-                raise ReadError("XDMF reader: Only supports 2-point lines for now")
+        if xdmf_type in (1, 2):  # polyvertex, polyline: number of points follows
+            if data[r + 1] != xdmf_type:
+                raise ReadError(
+                    "XDMF reader: Only supports 1-point vertices and 2-point lines "
+                    "for now"
+                )
             r += 1
         r += 1
         r += xdmf_idx_to_num_nodes[xdmf_type]
@@ -150,7 +146,7 @@ def translate_mixed_cells(data):
     for start, end in zip(b[:-1], b[1:]):
         meshio_type = xdmf_idx_to_meshio_type[types[start]]
         n = xdmf_idx_to_num_nodes[types[start]]
-        point_offsets = offsets[start:end] + (2 if types[start] == 2 else 1)
+        point_offsets = offsets[start:end] + (2 if types[start] in (1, 2) else 1)
         indices = np.array([np.arange(n) + o for o in point_offsets])
         cells.append(CellBlock(meshio_type, data[indices]))
 
-- 
2.43.0


From d5612d096f7899c10f0bd993bb1011ddb0ce0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:22 +0000
Subject: [PATCH 033/141] fix: xdmf: XML data items of all dtypes and shapes,
 float32 precision

---
 src/meshio/xdmf/common.py | 8 ++++++--
 src/meshio/xdmf/main.py   | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index e9a3f83..d913326 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -19,11 +19,15 @@ numpy_to_xdmf_dtype = {
 xdmf_to_numpy_type = {v: k for k, v in numpy_to_xdmf_dtype.items()}
 
 dtype_to_format_string = {
+    "int8": "%d",
+    "int16": "%d",
     "int32": "%d",
     "int64": "%d",
+    "uint8": "%d",
+    "uint16": "%d",
     "uint32": "%d",
     "uint64": "%d",
-    "float32": "%.7e",
+    "float32": "%.8e",
     "float64": "%.16e",
 }
 
@@ -60,7 +64,7 @@ meshio_to_xdmf_type = {
     "hexahedron343": ["Hexahedron_343", "Hex_343"],
     "hexahedron512": ["Hexahedron_512", "Hex_512"],
     "hexahedron729": ["Hexahedron_729", "Hex_729"],
-    "hexahedron1000": ["Hexahedron_1000", "Hex_100"],
+    "hexahedron1000": ["Hexahedron_1000", "Hex_1000"],
     "hexahedron1331": ["Hexahedron_1331", "Hex_1331"],
 }
 xdmf_to_meshio_type = {v: k for k, vals in meshio_to_xdmf_type.items() for v in vals}
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 4d8c39d..7c8023a 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -376,7 +376,7 @@ class XdmfWriter:
         if self.data_format == "XML":
             s = BytesIO()
             fmt = dtype_to_format_string[data.dtype.name]
-            np.savetxt(s, data, fmt)
+            np.savetxt(s, data if data.ndim < 3 else data.reshape(-1, data.shape[-1]), fmt)
             return "\n" + s.getvalue().decode()
         elif self.data_format == "Binary":
             base = os.path.splitext(self.filename)[0]
-- 
2.43.0


From 6de19741030223b65771f4a4c651535fb9550378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:29 +0000
Subject: [PATCH 034/141] fix: xdmf: binary items relative to the file and in
 native byte order

---
 src/meshio/xdmf/main.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 7c8023a..8ec08d5 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -92,8 +92,11 @@ class XdmfReader:
             return data.reshape(dims)
 
         elif fmt == "Binary":
+            # The path is given with respect to the XDMF (XML) file.
+            dirname = pathlib.Path(self.filename).resolve().parent
             return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
+                dirname / data_item.text.strip(),
+                dtype=xdmf_to_numpy_type[(data_type, precision)],
             ).reshape(dims)
 
         if fmt != "HDF":
@@ -384,8 +387,9 @@ class XdmfWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
-            return bin_filename
+                data.astype(data.dtype.newbyteorder("=")).tofile(f)
+            # relative to the XDMF file, just like HDF
+            return os.path.basename(bin_filename)
 
         if self.data_format != "HDF":
             raise WriteError(f'Unknown data format "{self.data_format}"')
@@ -468,6 +472,7 @@ class XdmfWriter:
                                     2 if cell_block.type in {"vertex", "line"} else 1,
                                 ),
                                 meshio_type_to_xdmf_index[cell_block.type],
+                                dtype=cell_block.data.dtype,
                             ),
                             cell_block.data,
                         ]
-- 
2.43.0


From f04099e4739a55fff7c649b89c69a817b074edcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:00 +0000
Subject: [PATCH 035/141] fix: xdmf time series: put data files next to the
 XDMF file

---
 src/meshio/xdmf/time_series.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a3f8503..2b188a5 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -199,8 +199,10 @@ class TimeSeriesReader:
                 sep=" ",
             ).reshape(dims)
         elif data_format == "Binary":
+            # The path is given with respect to the XDMF (XML) file.
             return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
+                self.filename.resolve().parent / data_item.text.strip(),
+                dtype=xdmf_to_numpy_type[(data_type, precision)],
             ).reshape(dims)
 
         if data_format != "HDF":
@@ -262,7 +264,7 @@ class TimeSeriesWriter:
         if self.data_format == "HDF":
             import h5py
 
-            self.h5_filename = self.filename.stem + ".h5"
+            self.h5_filename = self.filename.with_suffix(".h5")
             self.h5_file = h5py.File(self.h5_filename, "w")
         return self
 
@@ -324,12 +326,15 @@ class TimeSeriesWriter:
             np.savetxt(s, data.flatten(), fmt)
             return s.getvalue().decode()
         elif self.data_format == "Binary":
-            bin_filename = f"{self.filename.stem}{self.data_counter}.bin"
+            bin_filename = self.filename.with_name(
+                f"{self.filename.stem}{self.data_counter}.bin"
+            )
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
-            return bin_filename
+                data.astype(data.dtype.newbyteorder("=")).tofile(f)
+            # relative to the XDMF file, just like HDF
+            return bin_filename.name
 
         if self.data_format != "HDF":
             raise WriteError()
-- 
2.43.0


From 8e6a0beca0d85de42a27990d9e7f837b5a47fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:06 +0000
Subject: [PATCH 036/141] fix: xdmf time series: mixed topologies with vertices
 and lines

---
 src/meshio/xdmf/time_series.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 2b188a5..5931cc0 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -409,22 +409,22 @@ class TimeSeriesWriter:
                 TopologyType="Mixed",
                 NumberOfElements=str(total_num_cells),
             )
-            total_num_cell_items = sum(np.prod(c.data.shape) for c in cell_blocks)
-            dim = total_num_cell_items + total_num_cells
-            # Lines translate to Polylines, and one needs to specify the exact
-            # number of nodes. Hence, prepend 2.
-            for c in cell_blocks:
-                if c.type == "line":
-                    c.data[:] = np.insert(c.data, 0, 2, axis=1)
-                    dim += len(c.data)
-            dim = str(dim)
+            # Vertices and lines translate to Polyvertices and Polylines, and one needs
+            # to specify the exact number of nodes. Hence, prepend 1 or 2.
+            data = [
+                np.insert(c.data, 0, c.data.shape[1], axis=1)
+                if c.type in {"vertex", "line"}
+                else c.data
+                for c in cell_blocks
+            ]
+            dim = str(sum(d.size for d in data) + total_num_cells)
             cd = np.concatenate(
                 [
                     # prepend column with xdmf type index
                     np.insert(
-                        c.data, 0, meshio_type_to_xdmf_index[c.type], axis=1
+                        d, 0, meshio_type_to_xdmf_index[c.type], axis=1
                     ).flatten()
-                    for c in cell_blocks
+                    for c, d in zip(cell_blocks, data)
                 ]
             )
             dt, prec = numpy_to_xdmf_dtype[cd.dtype.name]
-- 
2.43.0


From 56f7bddc0c5d3c9271232d052425d167c6f5a203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:14 +0000
Subject: [PATCH 037/141] fix: xdmf time series: no mutation of cell_data, no
 half-written steps

---
 src/meshio/xdmf/time_series.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 5931cc0..a53e063 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -302,9 +302,9 @@ class TimeSeriesWriter:
         #     <DataItem Dimensions="8457 1" Format="HDF">maxwell.h5:/VisualisationVector/1</DataItem>
         #   </Attribute>
         # </Grid>
-        grid = ET.SubElement(self.collection, "Grid")
         if not self.has_mesh:
             raise WriteError()
+        grid = ET.SubElement(self.collection, "Grid")
         ptr = f'xpointer(//Grid[@Name="{self.mesh_name}"]/*[self::Topology or self::Geometry])'
         ET.SubElement(grid, "{http://www.w3.org/2003/XInclude}include", xpointer=ptr)
         ET.SubElement(grid, "Time", Value=str(t))
@@ -313,9 +313,14 @@ class TimeSeriesWriter:
             self.point_data(point_data, grid)
 
         # permit old dict structure, convert it to list of tuples
-        for name, entry in cell_data.items():
-            if isinstance(entry, dict):
-                cell_data[name] = np.array(list(entry.values()))
+        cell_data = {
+            name: (
+                [np.asarray(e) for e in entry.values()]
+                if isinstance(entry, dict)
+                else entry
+            )
+            for name, entry in cell_data.items()
+        }
         if cell_data:
             self.cell_data(cell_data, grid)
 
-- 
2.43.0


From a4ad5df071a4eb4fd80a51a4cac6400c404e42a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:21 +0000
Subject: [PATCH 038/141] fix: flac3d: write faces, cell sets of multiple
 blocks, no mutation of cell_sets

---
 src/meshio/flac3d/_flac3d.py | 87 +++++++++++++-----------------------
 1 file changed, 31 insertions(+), 56 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 45ea0d9..9cf29b3 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -235,10 +235,11 @@ def read_buffer(f, binary):
 
     # cell_sets contains the indices into the global cell list. Since this is
     # split up into blocks, we need to split the cell_sets, too.
-    bins = np.cumsum([len(cb[1]) for cb in cell_blocks])
+    bins = np.cumsum([len(cb[1]) for cb in cell_blocks], dtype=int)
+    starts = bins - [len(cb[1]) for cb in cell_blocks]
     for key, data in cell_sets.items():
         d = np.digitize(data, bins)
-        cell_sets[key] = [data[d == k] for k in range(len(cell_blocks))]
+        cell_sets[key] = [data[d == k] - starts[k] for k in range(len(cell_blocks))]
 
     # assert len(cell_ids) == sum(len(block) for _, block in cell_blocks)
 
@@ -364,67 +365,42 @@ def split_f_z(mesh):
         elif cell_block.type in meshio_only["face"]:
             fcells.append(cell_block)
 
+    # The cell sets contain indices into the corresponding cell block. FLAC3D expects
+    # the IDs of the zones and faces which are numbered consecutively, starting at 1,
+    # zones first.
     zsets = {}
     fsets = {}
     for key, cset in mesh.cell_sets.items():
-        zsets[key] = []
-        fsets[key] = []
+        zids = []
+        fids = []
+        zid = 1
+        fid = 1 + sum(len(cb) for cb in zcells)
         for cell_block, sblock in zip(mesh.cells, cset):
-            zsets[key].append(
-                sblock if cell_block.type in meshio_only["zone"] else None
-            )
-            fsets[key].append(
-                sblock if cell_block.type in meshio_only["face"] else None
-            )
-
-    # remove the data that is only None
-    zsets = {
-        key: value
-        for key, value in zsets.items()
-        if not all(item is None for item in value)
-    }
-    fsets = {
-        key: value
-        for key, value in fsets.items()
-        if not all(item is None for item in value)
-    }
-
-    # Right now, the zsets contain indices into the corresponding cell block.
-    # FLAC3D expects _global_ indices. Update.
-    cell_block_sizes = [len(cb) for cb in zcells]
-    for key, data in zsets.items():
-        gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
-            gid += n
-
-    # TODO not sure if fcells and zcells share a common global index
-    cell_block_sizes = [len(cb) for cb in fcells]
-    for key, data in fsets.items():
-        gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
-            gid += n
-
-    for label, values in zsets.items():
-        zsets[label] = np.concatenate(values)
-    for label, values in fsets.items():
-        fsets[label] = np.concatenate(values)
-
-    # flac3d indices start at 1
-    for label, values in zsets.items():
-        zsets[label] += 1
-    for label, values in fsets.items():
-        fsets[label] += 1
+            if cell_block.type in meshio_only["zone"]:
+                if sblock is not None:
+                    zids.append(np.asarray(sblock, dtype=int) + zid)
+                zid += len(cell_block)
+            elif cell_block.type in meshio_only["face"]:
+                if sblock is not None:
+                    fids.append(np.asarray(sblock, dtype=int) + fid)
+                fid += len(cell_block)
+        if zids:
+            zsets[key] = np.concatenate(zids)
+        if fids:
+            fsets[key] = np.concatenate(fids)
 
     return zcells, fcells, zsets, fsets
 
 
 def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
     """Write FLAC3D f3grid grid file."""
-    skip = [c.type for c in mesh.cells if c.type not in meshio_only["zone"]]
+    supported = {**meshio_only["zone"], **meshio_only["face"]}
+    skip = [c.type for c in mesh.cells if c.type not in supported]
     if skip:
-        warn(f'FLAC3D format only supports 3D cells. Skipping {", ".join(skip)}.')
+        warn(
+            "FLAC3D format only supports 3D cells and faces. "
+            f'Skipping {", ".join(skip)}.'
+        )
 
     # split into face/zone data
     zcells, fcells, zsets, fsets = split_f_z(mesh)
@@ -443,7 +419,7 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
         # inside the functions.
         gid = np.array(0)
         #
-        cells = _translate_zcells(mesh.points, mesh.cells)
+        cells = _translate_zcells(mesh.points, zcells)
         _write_cells(f, cells, "zone", binary, gid)
         _write_groups(f, mesh.cells, zsets, "zone", binary)
         #
@@ -567,10 +543,9 @@ def _translate_fcells(cells):
     """Reorder meshio cells to FLAC3D faces."""
     faces = []
     for cell_block in cells:
-        ctype, data = cell_block
-        assert ctype in meshio_only["face"]
+        assert cell_block.type in meshio_only["face"]
 
-        key = meshio_only["face"][ctype]
+        key = meshio_only["face"][cell_block.type]
         data = cell_block.data[:, meshio_to_flac3d_order[key]]
         faces.append((key, data))
 
-- 
2.43.0


From aa099cfd254afcaf421a15edbfe8e329c0ba9cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:38 +0000
Subject: [PATCH 039/141] fix: vtk/vtu: read polygons with unsigned offsets

---
 src/meshio/_vtk_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/_vtk_common.py b/src/meshio/_vtk_common.py
index 9799187..a812359 100644
--- a/src/meshio/_vtk_common.py
+++ b/src/meshio/_vtk_common.py
@@ -94,6 +94,9 @@ def vtk_cells_from_data(connectivity, offsets, types, cell_data_raw):
     if len(offsets) != len(types):
         raise ReadError(f"len(offsets) != len(types) ({len(offsets)} != {len(types)})")
 
+    # avoid overflow in the index computations below
+    offsets = np.asarray(offsets).astype(np.int64)
+
     # identify cell blocks
     breaks = np.where(types[:-1] != types[1:])[0] + 1
     # all cells with indices between start[k] and end[k] have the same type
-- 
2.43.0


From baaa6e7f4c06f5908ff09329775c67f0921a6ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:43 +0000
Subject: [PATCH 040/141] fix: netgen: read a single point

---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index cae1bd7..a9b933a 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -264,7 +264,7 @@ def read_buffer(f):
         elif line == "points":
             num_points = int(f.readline())
             if num_points > 0:
-                points = np.loadtxt(f, max_rows=num_points)
+                points = np.loadtxt(f, max_rows=num_points, ndmin=2)
                 if dimension != 3:
                     points = points[:, :dimension]
 
-- 
2.43.0


From b0293be305a244ab8f003877af24eb464fe297e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:48 +0000
Subject: [PATCH 041/141] fix: netgen: names with spaces, only edgesegmentsgi2
 spans two lines

---
 src/meshio/netgen/_netgen.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index a9b933a..a6e427c 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -278,7 +278,13 @@ def read_buffer(f):
             "surfaceelementsuv",
             "volumeelements",
         ]:
-            _read_cells(f, line, cells, cells_index, have_edgesegmentsgi2_in_two_lines)
+            _read_cells(
+                f,
+                line,
+                cells,
+                cells_index,
+                have_edgesegmentsgi2_in_two_lines and line == "edgesegmentsgi2",
+            )
         elif line == "endmesh":
             break
 
@@ -290,7 +296,8 @@ def read_buffer(f):
             edim = dimension - netgen_codims[line]
             num_entries = int(f.readline())
             for _ in range(num_entries):
-                line = f.readline().split()
+                # names can contain spaces
+                line = f.readline().strip().split(maxsplit=1)
                 if len(line) != 2:
                     continue
                 idx, name = line
-- 
2.43.0


From f59fbd8c4fd326769d1fb1cabc130c6e8e4b038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:54 +0000
Subject: [PATCH 042/141] fix: ansys, medit: float32 and non-native arrays

---
 src/meshio/ansys/_ansys.py | 4 +++-
 src/meshio/medit/_medit.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 364616a..61d8739 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -413,7 +413,8 @@ def write(filename, mesh, binary=True):
             f"({key} (1 {first_node_index:x} {num_points:x} 1 {dim:x})(\n".encode()
         )
         if binary:
-            mesh.points.tofile(fh)
+            # section 3010 is double precision
+            mesh.points.astype(np.float64).tofile(fh)
             fh.write(b"\n)")
             fh.write(b"End of Binary Section 3010)\n")
         else:
@@ -440,6 +441,7 @@ def write(filename, mesh, binary=True):
         for cell_block in mesh.cells:
             cell_type = cell_block.type
             values = cell_block.data
+            values = values.astype(values.dtype.newbyteorder("="), copy=False)
             key = binary_dtypes[values.dtype] if binary else "12"
             last_index = first_index + len(values) - 1
             try:
diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 272bd16..f239b61 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -306,7 +306,9 @@ def write(filename, mesh, float_fmt=".16e"):
 
 def write_ascii_file(filename, mesh, float_fmt=".16e"):
     with open_file(filename, "wb") as fh:
-        version = {np.dtype(c_float): 1, np.dtype(c_double): 2}[mesh.points.dtype]
+        version = {np.dtype(c_float): 1, np.dtype(c_double): 2}[
+            mesh.points.dtype.newbyteorder("=")
+        ]
         # N. B.: PEP 461 Adding % formatting to bytes and bytearray
         fh.write(f"MeshVersionFormatted {version}\n".encode())
 
-- 
2.43.0


From 1ba41aaef341051b314d039ffb3d010bc3729f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:59 +0000
Subject: [PATCH 043/141] fix: ply: write non-native arrays

---
 src/meshio/ply/_ply.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 429a32c..2b3360f 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -388,10 +388,19 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
     return byte_starts_ends[-1], blocks
 
 
+def _native(a):
+    return a.astype(a.dtype.newbyteorder("="), copy=False)
+
+
 def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
     mesh = shallow_copy(mesh)
 
     with open_file(filename, "wb") as fh:
+        # the file is written in native byte order
+        mesh.points = _native(mesh.points)
+        mesh.point_data = {key: _native(val) for key, val in mesh.point_data.items()}
+        mesh.cells = [CellBlock(c.type, _native(c.data)) for c in mesh.cells]
+
         fh.write(b"ply\n")
 
         if binary:
-- 
2.43.0


From 4e529e8411cd3ce106ae90bc5d3930b1762ce16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:18 +0000
Subject: [PATCH 044/141] fix: avsucd: read a single point

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index b1d3e87..19975ec 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -78,7 +78,7 @@ def read_buffer(f):
 
 def _read_nodes(f, num_nodes):
     if num_nodes > 0:
-        data = np.genfromtxt(f, max_rows=num_nodes)
+        data = np.genfromtxt(f, max_rows=num_nodes).reshape(num_nodes, -1)
     else:
         data = np.empty((0, 3))
     points_ids = {int(pid): i for i, pid in enumerate(data[:, 0])}
-- 
2.43.0


From 84ea89a108e3ba302bef775728734505a68f6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:25 +0000
Subject: [PATCH 045/141] fix: avsucd: write data with full precision

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 19975ec..7831bfd 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -238,7 +238,7 @@ def _write_data(f, labels, data_array, num_entities, num_data, num_data_sum):
         f.write(f"{label}, real\n")
 
     data_array = np.column_stack((np.arange(1, num_entities + 1), data_array))
-    np.savetxt(f, data_array, delimiter=" ", fmt=["%d"] + ["%.14e"] * num_data_sum)
+    np.savetxt(f, data_array, delimiter=" ", fmt=["%d"] + ["%.16e"] * num_data_sum)
 
 
 register_format("avsucd", [".avs"], read, {"avsucd": write})
-- 
2.43.0


From 34eb8514e169d58c07da813ac87bbca37bb459a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:41 +0000
Subject: [PATCH 046/141] fix: abaqus: C3D4H is a tetra

---
 src/meshio/abaqus/_abaqus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 0dd8877..84575e4 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -79,8 +79,8 @@ abaqus_to_meshio_type = {
     "C3D20RH": "hexahedron20",
     # "HEX27": "hexahedron27",
     #
+    "C3D4H": "tetra",
     "C3D4": "tetra",
-    "C3D4H": "tetra4",
     # "TETRA8": "tetra8",
     "C3D10": "tetra10",
     "C3D10H": "tetra10",
-- 
2.43.0


From c4bacb07fd00571d7d88cd9d12a160c71531b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:46 +0000
Subject: [PATCH 047/141] fix: abaqus: sets spanning blocks, defined in pieces,
 by other sets, or with the elements

---
 src/meshio/abaqus/_abaqus.py | 77 ++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 42 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 84575e4..e4d2dba 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -114,9 +114,7 @@ def read_buffer(f):
     cells = []
     cell_ids = []
     point_sets = {}
-    cell_sets = {}
-    cell_sets_element = {}  # Handle cell sets defined in ELEMENT
-    cell_sets_element_order = []  # Order of keys is not preserved in Python 3.5
+    cell_sets = {}  # for each set, the indices in each cell block
     field_data = {}
     cell_data = {}
     point_data = {}
@@ -144,40 +142,35 @@ def read_buffer(f):
             )
             cells.append(CellBlock(cell_type, cells_data))
             cell_ids.append(ids)
-            if sets:
-                cell_sets_element.update(sets)
-                cell_sets_element_order += list(sets.keys())
+            for name, idx in sets.items():
+                _add_to_cell_set(cell_sets, name, len(cells) - 1, idx)
         elif keyword == "NSET":
             params_map = get_param_map(line, required_keys=["NSET"])
-            set_ids, _, line = _read_set(f, params_map)
+            set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["NSET"]
-            point_sets[name] = np.array(
-                [point_ids[point_id] for point_id in set_ids], dtype="int32"
-            )
+            # a set can be defined in multiple pieces, and in terms of other sets
+            members = list(point_sets.get(name, []))
+            members += [point_ids[point_id] for point_id in set_ids]
+            for set_name in set_names:
+                if set_name not in point_sets:
+                    raise ReadError(f"Unknown point set '{set_name}'")
+                members += list(point_sets[set_name])
+            point_sets[name] = np.array(list(dict.fromkeys(members)), dtype="int32")
         elif keyword == "ELSET":
             params_map = get_param_map(line, required_keys=["ELSET"])
             set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["ELSET"]
-            cell_sets[name] = []
-            if set_ids.size:
-                for cell_ids_ in cell_ids:
-                    cell_sets_ = np.array(
-                        [
-                            cell_ids_[set_id]
-                            for set_id in set_ids
-                            if set_id in cell_ids_
-                        ],
-                        dtype="int32",
-                    )
-                    cell_sets[name].append(cell_sets_)
-            elif set_names:
-                for set_name in set_names:
-                    if set_name in cell_sets.keys():
-                        cell_sets[name].append(cell_sets[set_name])
-                    elif set_name in cell_sets_element.keys():
-                        cell_sets[name].append(cell_sets_element[set_name])
-                    else:
-                        raise ReadError(f"Unknown cell set '{set_name}'")
+            cell_sets.setdefault(name, {})
+            for ic, cell_ids_ in enumerate(cell_ids):
+                idx = [
+                    cell_ids_[set_id] for set_id in set_ids if set_id in cell_ids_
+                ]
+                _add_to_cell_set(cell_sets, name, ic, idx)
+            for set_name in set_names:
+                if set_name not in cell_sets:
+                    raise ReadError(f"Unknown cell set '{set_name}'")
+                for ic, idx in list(cell_sets[set_name].items()):
+                    _add_to_cell_set(cell_sets, name, ic, idx)
         elif keyword == "INCLUDE":
             # Splitting line to get external input file path (example: *INCLUDE,INPUT=wInclude_bulk.inp)
             ext_input_file = pathlib.Path(line.split("=")[-1].strip())
@@ -190,6 +183,8 @@ def read_buffer(f):
 
             # Merge contents of external file only if it is containing mesh data
             if len(out.points) > 0:
+                # the element numbers of the external file are not known here
+                cell_ids += [{} for _ in out.cells]
                 points, cells = merge(
                     out,
                     points,
@@ -206,17 +201,10 @@ def read_buffer(f):
             # There are just too many Abaqus keywords to explicitly skip them.
             line = f.readline()
 
-    # Parse cell sets defined in ELEMENT
-    for i, name in enumerate(cell_sets_element_order):
-        # Not sure whether this case would ever happen
-        if name in cell_sets.keys():
-            cell_sets[name][i] = cell_sets_element[name]
-        else:
-            cell_sets[name] = []
-            for ic in range(len(cells)):
-                cell_sets[name].append(
-                    cell_sets_element[name] if i == ic else np.array([], dtype="int32")
-                )
+    cell_sets = {
+        name: [np.array(list(d.get(ic, [])), dtype="int32") for ic in range(len(cells))]
+        for name, d in cell_sets.items()
+    }
 
     return Mesh(
         points,
@@ -229,6 +217,11 @@ def read_buffer(f):
     )
 
 
+def _add_to_cell_set(cell_sets, name, block, idx):
+    # use a dictionary as ordered set
+    cell_sets.setdefault(name, {}).setdefault(block, {}).update(dict.fromkeys(idx))
+
+
 def _read_nodes(f):
     points = []
     point_ids = {}
@@ -389,7 +382,7 @@ def _read_set(f, params_map):
         if line[0].isnumeric():
             set_ids += [int(k) for k in line]
         else:
-            set_names.append(line[0])
+            set_names += [name.strip() for name in line]
 
     set_ids = np.array(set_ids, dtype="int32")
     if "GENERATE" in params_map:
-- 
2.43.0


From 32403ecdf243321b5178c3b279e56f332fa48972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:51 +0000
Subject: [PATCH 048/141] fix: abaqus: multiple NODE blocks, lower-case element
 types

---
 src/meshio/abaqus/_abaqus.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index e4d2dba..96a0dda 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -132,7 +132,13 @@ def read_buffer(f):
 
         keyword = line.partition(",")[0].strip().replace("*", "").upper()
         if keyword == "NODE":
-            points, point_ids, line = _read_nodes(f)
+            new_points, new_ids, line = _read_nodes(f)
+            # there can be multiple NODE blocks
+            point_ids = {} if point_ids is None else point_ids
+            point_ids.update({k: v + len(points) for k, v in new_ids.items()})
+            points = (
+                np.concatenate([points, new_points]) if len(points) > 0 else new_points
+            )
         elif keyword == "ELEMENT":
             if point_ids is None:
                 raise ReadError("Expected NODE before ELEMENT")
@@ -243,7 +249,7 @@ def _read_nodes(f):
 
 
 def _read_cells(f, params_map, point_ids):
-    etype = params_map["TYPE"]
+    etype = params_map["TYPE"].upper()
     if etype not in abaqus_to_meshio_type.keys():
         raise ReadError(f"Element type not available: {etype}")
 
-- 
2.43.0


From 9c6416b7b4487a3167ce3da1550b2305693089eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:00 +0000
Subject: [PATCH 049/141] fix: number Gmsh 4.0 elements from 1, like the
 ElementData that refer to them

---
 src/meshio/gmsh/_gmsh40.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 15e7147..2d9aeb7 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -320,7 +320,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         np.array([len(cell_blocks), total_num_cells], dtype=c_ulong).tofile(fh)
 
-        consecutive_index = 0
+        consecutive_index = 1
         for cell_block in cell_blocks:
             node_idcs = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
 
@@ -355,7 +355,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         fh.write(f"{len(cell_blocks)} {total_num_cells}\n".encode())
 
-        consecutive_index = 0
+        consecutive_index = 1
         for cell_block in cell_blocks:
             cell_type = cell_block.type
             cell_data = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
-- 
2.43.0


From ae57726487bc4d5e37ff846864084d4fedec86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:28 +0000
Subject: [PATCH 050/141] fix: write UGRID boundary tags from cell data

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 6fa57c0..5f9e008 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -253,7 +253,7 @@ def _write_buffer(f, file_type, mesh):
                 f'Picking {labels_key}, skipping {", ".join(other)}.'
             )
         labels = (
-            mesh.cell_data[labels_key]
+            np.asarray(mesh.cell_data[labels_key][ugrid_meshio_id[key]])
             if labels_key
             else np.ones(ugrid_counts[key], dtype=int)
         )
-- 
2.43.0


From 2148459a7969cb19d3027725271c33e5b3a7dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:34 +0000
Subject: [PATCH 051/141] fix: UGRID Fortran record markers give the record's
 size in bytes

---
 src/meshio/ugrid/_ugrid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 5f9e008..a9d6c9a 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -204,7 +204,7 @@ def _write_buffer(f, file_type, mesh):
     # it has to be before and after each record
     fortran_header = None
     if file_type["type"] == "F":
-        fortran_header = np.array([nitems.nbytes])
+        fortran_header = np.array([nitems.size * np.dtype(itype).itemsize])
         _write_section(f, file_type, fortran_header, itype)
 
     _write_section(f, file_type, nitems, itype)
@@ -214,9 +214,10 @@ def _write_buffer(f, file_type, mesh):
         _write_section(f, file_type, fortran_header, itype)
 
         # start next record
-        fortran_header = mesh.points.nbytes
-        for cell_block in mesh.cells:
-            fortran_header += cell_block.data.nbytes
+        fortran_header = mesh.points.size * np.dtype(ftype).itemsize
+        for i in ugrid_meshio_id.values():
+            if i >= 0:
+                fortran_header += mesh.cells[i].data.size * np.dtype(itype).itemsize
         # boundary tags
         if ugrid_counts["triangle"] > 0:
             fortran_header += ugrid_counts["triangle"] * np.dtype(itype).itemsize
-- 
2.43.0


From ec09bda9007dde7e6127fff14717d2cea699edae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:41 +0000
Subject: [PATCH 052/141] fix: MED cell types without family numbers do not
 shift the others' cell_tags

---
 src/meshio/med/_med.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 0cdd35c..a908288 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -82,6 +82,7 @@ def read(filename):
     # CellBlock
     cells = []
     cell_types = []
+    cell_tags_per_block = []
     med_cells = mesh["MAI"]
     for med_cell_type, med_cell_type_group in med_cells.items():
         cell_type = med_to_meshio_type[med_cell_type]
@@ -93,9 +94,16 @@ def read(filename):
         # Cell tags
         if "FAM" in med_cell_type_group:
             tags = med_cell_type_group["FAM"][()]
-            if "cell_tags" not in cell_data:
-                cell_data["cell_tags"] = []
-            cell_data["cell_tags"].append(tags)
+            cell_tags_per_block.append(tags)
+        else:
+            cell_tags_per_block.append(None)
+
+    if any(tags is not None for tags in cell_tags_per_block):
+        # cell types without family numbers belong to family zero
+        cell_data["cell_tags"] = [
+            np.zeros(len(data), dtype=int) if tags is None else tags
+            for (_, data), tags in zip(cells, cell_tags_per_block)
+        ]
 
     # Information for cell tags
     cell_tags = {}
-- 
2.43.0


From 48e044b70470c465b9f2ababf2fef28f3511e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:02 +0000
Subject: [PATCH 053/141] fix: Exodus TETRA4 and TET4 blocks are tetrahedra

---
 src/meshio/exodus/_exodus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 60fce58..2814c6a 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -53,9 +53,9 @@ exodus_to_meshio_type = {
     "HEX20": "hexahedron20",
     "HEX27": "hexahedron27",
     #
+    "TET4": "tetra",
+    "TETRA4": "tetra",
     "TETRA": "tetra",
-    "TETRA4": "tetra4",
-    "TET4": "tetra4",
     "TETRA8": "tetra8",
     "TETRA10": "tetra10",
     "TETRA14": "tetra14",
-- 
2.43.0


From 893af1942f0f8fcd5ba4370ae099fa521117fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:08 +0000
Subject: [PATCH 054/141] fix: Exodus element variables go to the block they
 are defined on

---
 src/meshio/exodus/_exodus.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 2814c6a..4abf0b1 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -70,6 +70,8 @@ def read(filename):  # noqa: C901
     import netCDF4
 
     with netCDF4.Dataset(filename) as nc:
+        # values that happen to equal netCDF's fill values are values, too
+        nc.set_auto_mask(False)
         # assert nc.version == np.float32(5.1)
         # assert nc.api_version == np.float32(5.1)
         # assert nc.floating_point_word_size == 8
@@ -83,10 +85,10 @@ def read(filename):  # noqa: C901
         cell_data_names = []
         pd = {}
         cd = {}
-        cells = []
+        cells = {}
         ns_names = []
         # eb_names = []
-        ns = []
+        ns = {}
         point_sets = {}
         info = []
 
@@ -105,7 +107,7 @@ def read(filename):  # noqa: C901
                     info += [b"".join(c).decode("UTF-8") for c in val[:]]
             elif key[:7] == "connect":
                 meshio_type = exodus_to_meshio_type[value.elem_type.upper()]
-                cells.append((meshio_type, value[:] - 1))
+                cells[int(key[7:])] = (meshio_type, value[:] - 1)
             elif key == "coord":
                 points = nc.variables["coord"][:].T
             elif key == "coordx":
@@ -148,11 +150,12 @@ def read(filename):  # noqa: C901
             #     value.set_auto_mask(False)
             #     eb_names = [b"".join(c).decode("UTF-8") for c in value[:]]
             elif key.startswith("node_ns"):  # Expected keys: node_ns1, node_ns2
-                ns.append(value[:] - 1)  # Exodus is 1-based
+                ns[int(key[7:])] = value[:] - 1  # Exodus is 1-based
 
-        # merge element block data; can't handle blocks yet
-        for k, value in cd.items():
-            cd[k] = np.concatenate(list(value.values()))
+        # the variables can be defined in any order
+        block_ids = sorted(cells)
+        cells = [cells[k] for k in block_ids]
+        ns = [ns[k] for k in sorted(ns)]
 
         # Check if there are any <name>R, <name>Z tuples or <name>X, <name>Y, <name>Z
         # triplets in the point data. If yes, they belong together.
@@ -166,15 +169,15 @@ def read(filename):  # noqa: C901
         for name, idx0, idx1, idx2 in triple:
             point_data[name] = np.column_stack([pd[idx0], pd[idx1], pd[idx2]])
 
-        cell_data = {}
-        k = 0
-        for _, cell in cells:
-            n = len(cell)
-            for name, data in zip(cell_data_names, cd.values()):
-                if name not in cell_data:
-                    cell_data[name] = []
-                cell_data[name].append(data[k : k + n])
-            k += n
+        # not every variable needs to be defined on every block
+        cell_data = {
+            name: [
+                cd[idx][k - 1] if k - 1 in cd[idx] else np.full(len(cell), np.nan)
+                for k, (_, cell) in zip(block_ids, cells)
+            ]
+            for idx, name in enumerate(cell_data_names)
+            if idx in cd
+        }
 
         point_sets = {name: dat for name, dat in zip(ns_names, ns)}
 
-- 
2.43.0


From 9805624442b2ccfa2ba330baea1b343317a382e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:13 +0000
Subject: [PATCH 055/141] fix: node order of quadratic Exodus hexahedra

---
 src/meshio/exodus/_exodus.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 4abf0b1..cc91d15 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -65,6 +65,17 @@ exodus_to_meshio_type = {
 }
 meshio_to_exodus_type = {v: k for k, v in exodus_to_meshio_type.items()}
 
+# Exodus numbers the nodes on the vertical edges of a hexahedron before those on the top
+# edges, and the center before the faces.
+_hex20 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 18, 19, 12, 13, 14, 15]
+exodus_to_meshio_order = {
+    "hexahedron20": _hex20,
+    "hexahedron27": _hex20 + [23, 24, 25, 26, 21, 22, 20],
+}
+meshio_to_exodus_order = {
+    key: np.argsort(order) for key, order in exodus_to_meshio_order.items()
+}
+
 
 def read(filename):  # noqa: C901
     import netCDF4
@@ -107,7 +118,10 @@ def read(filename):  # noqa: C901
                     info += [b"".join(c).decode("UTF-8") for c in val[:]]
             elif key[:7] == "connect":
                 meshio_type = exodus_to_meshio_type[value.elem_type.upper()]
-                cells[int(key[7:])] = (meshio_type, value[:] - 1)
+                data = value[:] - 1
+                if meshio_type in exodus_to_meshio_order:
+                    data = data[:, exodus_to_meshio_order[meshio_type]]
+                cells[int(key[7:])] = (meshio_type, data)
             elif key == "coord":
                 points = nc.variables["coord"][:].T
             elif key == "coordx":
@@ -319,8 +333,11 @@ def write(filename, mesh):
             dtype = numpy_to_exodus_dtype[cell_block.data.dtype.name]
             data = rootgrp.createVariable(f"connect{k + 1}", dtype, (dim1, dim2))
             data.elem_type = meshio_to_exodus_type[cell_block.type]
+            node_idcs = cell_block.data
+            if cell_block.type in meshio_to_exodus_order:
+                node_idcs = node_idcs[:, meshio_to_exodus_order[cell_block.type]]
             # Exodus is 1-based
-            data[:] = cell_block.data + 1
+            data[:] = node_idcs + 1
 
         # point data
         # The variable `name_nod_var` holds the names and indices of the node variables, the
-- 
2.43.0


From f00574999169e1d049a9c60e76931c0a65abbb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:55 +0000
Subject: [PATCH 056/141] fix: FLAC3D groups keep their name and slot, and
 empty groups can be read

---
 src/meshio/flac3d/_flac3d.py | 39 +++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 9cf29b3..f6b7119 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -156,7 +156,7 @@ def read_buffer(f, binary):
             (num_groups,) = struct.unpack("<I", f.read(4))
             for _ in range(num_groups):
                 name, slot, data = _read_cell_group_binary(f)
-                cell_sets[f"{flag}:{name}:{slot}"] = np.array(data)
+                cell_sets[f"{flag}:{name}:{slot}"] = np.array(data, dtype=int)
     else:
         while True:
             line = f.readline()
@@ -190,13 +190,13 @@ def read_buffer(f, binary):
                 name, slot, data = _read_cell_group_ascii(f, line)
                 # Watch out! data refers to the global cell_ids, so we need to
                 # adapt this later.
-                z_cell_sets[f"zone:{name}:{slot}"] = np.asarray(data)
+                z_cell_sets[f"zone:{name}:{slot}"] = np.asarray(data, dtype=int)
 
             elif split[0] == "FGROUP":
                 name, slot, data = _read_cell_group_ascii(f, line)
                 # Watch out! data refers to the global cell_ids, so we need to
                 # adapt this later.
-                f_cell_sets[f"face:{name}:{slot}"] = np.asarray(data)
+                f_cell_sets[f"face:{name}:{slot}"] = np.asarray(data, dtype=int)
 
     cells = f_cells + z_cells
 
@@ -384,10 +384,12 @@ def split_f_z(mesh):
                 if sblock is not None:
                     fids.append(np.asarray(sblock, dtype=int) + fid)
                 fid += len(cell_block)
-        if zids:
-            zsets[key] = np.concatenate(zids)
-        if fids:
-            fsets[key] = np.concatenate(fids)
+        zids = np.concatenate([np.zeros(0, dtype=int), *zids])
+        fids = np.concatenate([np.zeros(0, dtype=int), *fids])
+        if len(zids) > 0 or len(fids) == 0:
+            zsets[key] = zids
+        if len(fids) > 0:
+            fsets[key] = fids
 
     return zcells, fcells, zsets, fsets
 
@@ -484,26 +486,27 @@ def _write_groups(f, cells, materials, flag, binary) -> None:
     if binary:
         f.write(struct.pack("<I", len(materials)))
         for label, group in materials.items():
-            num_chars, num_zones = len(label), len(group)
-            fmt = f"<H{num_chars}sH7sI{num_zones}I"
-            tmp = [
-                num_chars,
-                label.encode(),
-                7,
-                b"Default",  # slot
-                num_zones,
-                *group,
-            ]
+            name, slot = _split_label(label, flag, "Default")
+            name, slot = name.encode(), slot.encode()
+            fmt = f"<H{len(name)}sH{len(slot)}sI{len(group)}I"
+            tmp = [len(name), name, len(slot), slot, len(group), *group]
             f.write(struct.pack(fmt, *tmp))
     else:
         flg = "ZGROUP" if flag == "zone" else "FGROUP"
 
         f.write(f"* {flag.upper()} GROUPS\n")
         for label, group in materials.items():
-            f.write(f'{flg} "{label}" SLOT 1\n')
+            name, slot = _split_label(label, flag, "1")
+            f.write(f'{flg} "{name}" SLOT {slot}\n')
             _write_table(f, group)
 
 
+def _split_label(label: str, flag: str, default_slot: str):
+    """The inverse of the cell set names `zone:<name>:<slot>` given when reading."""
+    m = re.match(f"^{flag}:(.*):([^:]*)$", label, re.DOTALL)
+    return m.groups() if m else (label, default_slot)
+
+
 def _translate_zcells(points, cells):
     """Reorder meshio cells to FLAC3D zones.
 
-- 
2.43.0


From 5e17037cc02ebfa5547c7f8fe8a62c4618ed1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:08 +0000
Subject: [PATCH 057/141] fix: name of the point data that VTK and VTU make
 from point sets

---
 src/meshio/vtk/_vtk_51.py | 6 ++++--
 src/meshio/vtu/_vtu.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index e80d8ee..b1c442f 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -519,9 +519,11 @@ def write(filename, mesh, binary=True):
             "VTK format cannot write point_sets. Converting them to point_data...",
             highlight=False,
         )
-        key, _ = join_strings(list(mesh.point_sets.keys()))
+        key, join_char = join_strings(list(mesh.point_sets.keys()))
+        mesh.point_sets_to_data(join_char)
+        data = mesh.point_data.pop(key)
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_data[key] = data
 
     if mesh.cell_sets:
         info(
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 087751d..e229f43 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -642,9 +642,11 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
             "VTU format cannot write point_sets. Converting them to point_data...",
             highlight=False,
         )
-        key, _ = join_strings(list(mesh.point_sets.keys()))
+        key, join_char = join_strings(list(mesh.point_sets.keys()))
+        mesh.point_sets_to_data(join_char)
+        data = mesh.point_data.pop(key)
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_data[key] = data
 
     if mesh.cell_sets:
         info(
-- 
2.43.0


From ad4acb73b2de0eaeb4fc3abffefeaee34a9ccff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:01 +0000
Subject: [PATCH 058/141] fix: blank lines in ASCII STL files; no state shared
 between reads

---
 src/meshio/stl/_stl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 8be0eed..b871442 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -55,7 +55,10 @@ def iter_loadtxt(
     dtype=float,
     usecols: tuple[int] | None = None,
 ):
+    rowlength = 3
+
     def iter_func():
+        nonlocal rowlength
         items = None
         for _ in range(skiprows):
             try:
@@ -65,7 +68,7 @@ def iter_loadtxt(
 
         for line in infile:
             line = line.decode().strip()
-            if line.startswith(comments):
+            if not line or line.startswith(comments):
                 continue
             # remove all text
             items = line.split()[-3:]
@@ -74,13 +77,12 @@ def iter_loadtxt(
                 yield dtype(items[idx])
 
         if items is None:
-            iter_loadtxt.rowlength = 3
             return
 
-        iter_loadtxt.rowlength = len(items) if usecols is None else len(usecols)
+        rowlength = len(items) if usecols is None else len(usecols)
 
     data = np.fromiter(iter_func(), dtype=dtype)
-    return data.reshape((-1, iter_loadtxt.rowlength))
+    return data.reshape((-1, rowlength))
 
 
 def _read_ascii(f):
-- 
2.43.0


From 1cca31926a06a2cfa1047110e4f70628ce4eb72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:54 +0000
Subject: [PATCH 059/141] fix: one-based formats no longer wrap the largest
 index of a narrow integer type

---
 src/meshio/_helpers.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 6cc7dac..d95383d 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -6,7 +6,7 @@ from pathlib import Path
 import numpy as np
 from numpy.typing import ArrayLike
 
-from ._common import error, num_nodes_per_cell
+from ._common import error, num_nodes_per_cell, shallow_copy
 from ._exceptions import ReadError, WriteError
 from ._files import is_buffer
 from ._mesh import CellBlock, Mesh
@@ -184,5 +184,20 @@ def write(filename, mesh: Mesh, file_format: str | None = None, **kwargs):
             # cannot check those
             pass
 
+    # Many formats count from 1: make sure that the largest index can be incremented
+    for k, cell_block in enumerate(mesh.cells):
+        value = cell_block.data
+        if (
+            isinstance(value, np.ndarray)
+            and value.dtype.kind in "iu"
+            and value.dtype.itemsize < 8
+            and value.size > 0
+            and value.max() == np.iinfo(value.dtype).max
+        ):
+            mesh = shallow_copy(mesh)
+            mesh.cells[k] = CellBlock(
+                cell_block.type, value.astype(np.int64), tags=cell_block.tags
+            )
+
     # Write
     return writer(filename, mesh, **kwargs)
-- 
2.43.0


From d9ecf32e444094030a290bf1921466cca8b3ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:00 +0000
Subject: [PATCH 060/141] fix: binary ANSYS files from cells of any integer
 type

---
 src/meshio/ansys/_ansys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 61d8739..546587e 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -442,6 +442,8 @@ def write(filename, mesh, binary=True):
             cell_type = cell_block.type
             values = cell_block.data
             values = values.astype(values.dtype.newbyteorder("="), copy=False)
+            if values.dtype not in binary_dtypes:
+                values = values.astype(np.int64)
             key = binary_dtypes[values.dtype] if binary else "12"
             last_index = first_index + len(values) - 1
             try:
-- 
2.43.0


From 3987a45883d5f899412cb73d7e4a4d20370dbec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:07 +0000
Subject: [PATCH 061/141] fix: small numbers in Nastran small-field format keep
 their significant digits

---
 src/meshio/nastran/_nastran.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 5d7fbe1..ed835ab 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -397,9 +397,10 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
 
 def _float_rstrip(x, n=8):
     out = f"{x:f}".rstrip("0")[:n]
-    if "." not in out:
-        # The integer part doesn't fit in the field.
-        out = _float_to_nastran_string(x, n)
+    scientific = _float_to_nastran_string(x, n)
+    if "." not in out or abs(float(scientific) - x) < abs(float(out) - x):
+        # The integer part doesn't fit in the field, or too few digits are left.
+        out = scientific
     return out
 
 
-- 
2.43.0


From aaf24bbfb0b4fe4db5a99b0a4216c0f5ae94c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:53 +0000
Subject: [PATCH 062/141] fix: ASCII Gmsh 4.0 no longer wraps the largest index
 of a narrow integer type

---
 src/meshio/gmsh/_gmsh40.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 2d9aeb7..3bd06df 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -370,7 +370,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
                 ).encode()
             )
             # increment indices by one to conform with gmsh standard
-            idcs = cell_data + 1
+            idcs = cell_data.astype(np.int64) + 1
 
             fmt = " ".join(["{}"] * (num_nodes_per_cell[cell_type] + 1)) + "\n"
             for idx in idcs:
-- 
2.43.0


From 288e52a2f217d01d88f5a4b0884dc98ad2cf1c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:04 +0000
Subject: [PATCH 063/141] fix: reference tags out of the range of Gmsh, UGRID,
 SU2 and Nastran fields are not wrapped

---
 src/meshio/gmsh/main.py        |  9 +++++++++
 src/meshio/nastran/_nastran.py | 10 +++++++++-
 src/meshio/su2/_su2.py         |  4 ++--
 src/meshio/ugrid/_ugrid.py     |  9 ++++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/meshio/gmsh/main.py b/src/meshio/gmsh/main.py
index 6bb5852..f64ca4a 100644
--- a/src/meshio/gmsh/main.py
+++ b/src/meshio/gmsh/main.py
@@ -1,6 +1,8 @@
 import pathlib
 import struct
 
+import numpy as np
+
 from .._exceptions import ReadError, WriteError
 from .._helpers import register_format
 from . import _gmsh22, _gmsh40, _gmsh41
@@ -99,6 +101,13 @@ def write(filename, mesh, fmt_version="4.1", binary=True, float_fmt=".16e"):
                 )
             )
 
+    # Gmsh stores the tags of the elements as C integers
+    c_int = np.iinfo(np.intc)
+    for name in ["gmsh:physical", "gmsh:geometrical"]:
+        for tags in mesh.cell_data.get(name, []):
+            if np.any((np.asarray(tags) < c_int.min) | (np.asarray(tags) > c_int.max)):
+                raise WriteError(f"{name} out of the range of Gmsh's tags")
+
     writer.write(filename, mesh, binary=binary, float_fmt=float_fmt)
 
 
diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index ed835ab..205fd00 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -8,7 +8,7 @@ import numpy as np
 
 from ..__about__ import __version__
 from .._common import num_nodes_per_cell, warn
-from .._exceptions import ReadError
+from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -299,6 +299,12 @@ def read_buffer(f):
 # See: https://docs.plm.automation.siemens.com/data_services/resources/nxnastran/10/help/en_US/tdocExt/pdf/User.pdf
 
 
+def _check_field_width(string, fmt):
+    width = {"fixed-small": 8, "fixed-large": 16}.get(fmt)
+    if width is not None and len(string) > width:
+        raise WriteError(f"{string} doesn't fit in a {fmt} Nastran field")
+
+
 def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small"):
     if point_format == "free":
         grid_fmt = "GRID,{:d},{:s},{:s},{:s},{:s}\n"
@@ -345,6 +351,7 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
         for point_id, x in enumerate(points):
             fx = [float_fmt(k) for k in x]
             pref = str(point_refs[point_id]) if point_refs is not None else ""
+            _check_field_width(pref, point_format)
             string = grid_fmt.format(point_id + 1, pref, fx[0], fx[1], fx[2])
             f.write(string)
 
@@ -366,6 +373,7 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
             for ic, cell in enumerate(cells):
                 if cell_refs is not None:
                     cell_ref = str(int(cell_refs_t[ic]))
+                    _check_field_width(cell_ref, cell_format)
                 cell_id += 1
                 cell_info = cell_info_fmt.format(nastran_name, cell_id, cell_ref)
                 cell1 = cell + 1
diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index 92e1dc1..ba2881e 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -146,10 +146,10 @@ def read_buffer(f):
                 num_block_elems = len(data)
                 if name == "NELEM":
                     cell_data["su2:tag"].append(
-                        np.full(num_block_elems, 0, dtype=np.int32)
+                        np.full(num_block_elems, 0, dtype=int)
                     )
                 else:
-                    tags = np.full(num_block_elems, next_tag_id, dtype=np.int32)
+                    tags = np.full(num_block_elems, next_tag_id, dtype=int)
                     cell_data["su2:tag"].append(tags)
 
         elif name == "NMARK":
diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index a9d6c9a..9b64531 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -11,7 +11,7 @@ Node ordering described in
 import numpy as np
 
 from .._common import _pick_first_int_data, warn
-from .._exceptions import ReadError
+from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -260,6 +260,13 @@ def _write_buffer(f, file_type, mesh):
         )
 
         labels = labels.reshape(ugrid_counts[key], 1)
+        if file_type["type"] != "ascii" and not np.array_equal(
+            labels.astype(itype), labels
+        ):
+            raise WriteError(
+                f"Boundary tags out of the range of {np.dtype(itype).name} "
+                "(see the suffix of the file name)."
+            )
         _write_section(f, file_type, labels, itype)
 
     # write volume elements
-- 
2.43.0


From 46d3cbf831e0428011f4089829d0ff0f33bc1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:55 +0000
Subject: [PATCH 064/141] fix: Medit and ASCII UGRID keep references beyond the
 single-precision and 32-bit range

---
 src/meshio/medit/_medit.py | 13 +++++++++++--
 src/meshio/ugrid/_ugrid.py |  4 +---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index f239b61..18d33b3 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -218,10 +218,11 @@ def read_ascii_buffer(f):
             if dtype is None:
                 raise ReadError("Expected `MeshVersionFormatted` before `Vertices`")
             num_verts = int(f.readline())
+            # the references are integers: don't squeeze them through single precision
             out = np.fromfile(
-                f, count=num_verts * (dim + 1), dtype=dtype, sep=" "
+                f, count=num_verts * (dim + 1), dtype=c_double, sep=" "
             ).reshape(num_verts, dim + 1)
-            points = out[:, :dim]
+            points = out[:, :dim].astype(dtype)
             point_data["medit:ref"] = out[:, dim].astype(int)
         elif items[0] in meshio_from_medit:
             meshio_type, points_per_cell = meshio_from_medit[items[0]]
@@ -399,6 +400,14 @@ def write_binary_file(f, mesh):
                 has_big_ints = True
                 break
 
+        # the same for references which don't fit into 32 bit
+        i4 = np.iinfo("i4")
+        for data in [*mesh.point_data.values(), *sum(mesh.cell_data.values(), [])]:
+            data = np.asarray(data)
+            if data.dtype.kind in "iu" and data.size > 0:
+                if data.min() < i4.min or data.max() > i4.max:
+                    has_big_ints = True
+
         if has_big_ints:
             itype = "i8"
             version = 4
diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 9b64531..a74e2b3 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -260,9 +260,7 @@ def _write_buffer(f, file_type, mesh):
         )
 
         labels = labels.reshape(ugrid_counts[key], 1)
-        if file_type["type"] != "ascii" and not np.array_equal(
-            labels.astype(itype), labels
-        ):
+        if not np.array_equal(labels.astype(itype), labels):
             raise WriteError(
                 f"Boundary tags out of the range of {np.dtype(itype).name} "
                 "(see the suffix of the file name)."
-- 
2.43.0


From d6145c15df2a6159f11d98722d51a08fdfb002b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:45 +0000
Subject: [PATCH 065/141] fix: data_to_sets doesn't give the name of a set to
 the entities which are in no set

---
 src/meshio/_mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index f353b77..5e8dcbf 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -380,7 +380,8 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
+        # -1 marks the entities which are in none of the sets
+        if len(names) != len(tags) or -1 in tags:
             # alternative names
             names = [f"set-{key}-{tag}" for tag in tags]
 
@@ -408,7 +409,8 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
+        # -1 marks the entities which are in none of the sets
+        if len(names) != len(tags) or -1 in tags:
             # alternative names
             names = [f"set-{key}-{tag}" for tag in tags]
 
-- 
2.43.0


From cb37e09a4ae4d2fa204e70a0e38fe7ea6df4a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:50 +0000
Subject: [PATCH 066/141] fix: meshio convert --int-data-to-sets works with
 several arrays and skips real-valued data

---
 src/meshio/_cli/_convert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_cli/_convert.py b/src/meshio/_cli/_convert.py
index 1a2edd3..c680688 100644
--- a/src/meshio/_cli/_convert.py
+++ b/src/meshio/_cli/_convert.py
@@ -60,10 +60,12 @@ def convert(args):
         mesh.cell_sets_to_data()
 
     if args.int_data_to_sets:
-        for key in mesh.point_data:
-            mesh.point_data_to_sets(key)
-        for key in mesh.cell_data:
-            mesh.cell_data_to_sets(key)
+        for key, value in list(mesh.point_data.items()):
+            if value.dtype.kind in ["i", "u"]:
+                mesh.point_data_to_sets(key)
+        for key, value in list(mesh.cell_data.items()):
+            if all(v.dtype.kind in ["i", "u"] for v in value):
+                mesh.cell_data_to_sets(key)
 
     # write it out
     kwargs = {"file_format": args.output_format}
-- 
2.43.0


From 5f6277ec7705362aacb971841d6593974f856221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:11 +0000
Subject: [PATCH 067/141] fix: registering a format twice doesn't leave an
 entry behind when deregistering it

---
 src/meshio/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index d95383d..e2b5d3e 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -22,7 +22,8 @@ def register_format(
     for ext in extensions:
         if ext not in extension_to_filetypes:
             extension_to_filetypes[ext] = []
-        extension_to_filetypes[ext].append(format_name)
+        if format_name not in extension_to_filetypes[ext]:
+            extension_to_filetypes[ext].append(format_name)
 
     if reader is not None:
         reader_map[format_name] = reader
-- 
2.43.0


From 45ce031a5f424a8a506c15ff49eef46b54c34db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:17 +0000
Subject: [PATCH 068/141] fix: meshio.read raises ReadError instead of ending
 the interpreter

---
 src/meshio/_helpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index e2b5d3e..9818e23 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-import sys
 from pathlib import Path
 
 import numpy as np
@@ -112,7 +111,7 @@ def _read_file(path: Path, file_format: str | None):
         msg = f"Couldn't read file {path} as either of {lst}"
 
     error(msg)
-    sys.exit(1)
+    raise ReadError(msg)
 
 
 def write_points_cells(
-- 
2.43.0


From ecb348799ee9aaa03e45e8d342b06a15e28eb6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:21 +0000
Subject: [PATCH 069/141] fix: read FLAC3D grids from buffers

---
 src/meshio/flac3d/_flac3d.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index f6b7119..cfa426b 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -4,6 +4,7 @@ I/O for FLAC3D format.
 
 from __future__ import annotations
 
+import io
 import re
 import struct
 import time
@@ -102,12 +103,21 @@ def read(filename):
     # Read a small block of the file to assess its type
     # See <https://code.activestate.com/recipes/173220/>
     with open_file(filename, "rb") as f:
+        pos = f.tell()
         block = f.read(8)
-        binary = b"\x00" in block
-
-    mode = "rb" if binary else "r"
-    with open_file(filename, mode) as f:
-        out = read_buffer(f, binary)
+        f.seek(pos)
+        if isinstance(block, str):
+            # text buffer
+            out = read_buffer(f, False)
+        elif b"\x00" in block:
+            out = read_buffer(f, True)
+        else:
+            text = io.TextIOWrapper(f)
+            try:
+                out = read_buffer(text, False)
+            finally:
+                # don't close the buffer
+                text.detach()
 
     return out
 
-- 
2.43.0


From 63d40477aa1c1a50d764ada6019f0cab4f733393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:21 +0000
Subject: [PATCH 070/141] fix: Exodus refuses buffers instead of writing a file
 named after them

---
 src/meshio/exodus/_exodus.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index cc91d15..d75b914 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -13,7 +13,8 @@ import numpy as np
 
 from ..__about__ import __version__
 from .._common import warn
-from .._exceptions import ReadError
+from .._exceptions import ReadError, WriteError
+from .._files import is_buffer
 from .._helpers import register_format
 from .._mesh import Mesh
 
@@ -80,6 +81,9 @@ meshio_to_exodus_order = {
 def read(filename):  # noqa: C901
     import netCDF4
 
+    if is_buffer(filename, "r"):
+        raise ReadError("Exodus files cannot be read from a buffer")
+
     with netCDF4.Dataset(filename) as nc:
         # values that happen to equal netCDF's fill values are values, too
         nc.set_auto_mask(False)
@@ -279,6 +283,10 @@ numpy_to_exodus_dtype = {
 def write(filename, mesh):
     import netCDF4
 
+    if is_buffer(filename, "w"):
+        # netCDF4 would create a file named after the buffer object
+        raise WriteError("Exodus files cannot be written to a buffer")
+
     with netCDF4.Dataset(filename, "w") as rootgrp:
         # set global data
         now = datetime.datetime.now().isoformat()
-- 
2.43.0


From fb225b69ab33b9b57d793d8043601014855666aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:58 +0000
Subject: [PATCH 071/141] fix: OBJ refuses byte buffers instead of reading an
 empty mesh

---
 src/meshio/obj/_obj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index d520818..104f6df 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -8,7 +8,7 @@ import datetime
 import numpy as np
 
 from ..__about__ import __version__
-from .._exceptions import WriteError
+from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -34,6 +34,9 @@ def read_buffer(f):
             # EOF
             break
 
+        if isinstance(line, (bytes, bytearray)):
+            raise ReadError("Expected text buffer, not bytes.")
+
         strip = line.strip()
 
         if len(strip) == 0 or strip[0] == "#":
-- 
2.43.0


From c0e8dc46ba0cc34d52fcde159b99fc81ec14af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:34 +0000
Subject: [PATCH 072/141] fix: DOLFIN-XML finds its mesh functions whatever the
 name of the file and of its neighbors

---
 src/meshio/dolfin/_dolfin.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index e43dbd5..722a3c2 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -91,10 +91,10 @@ def _read_cell_data(filename):
 
     # Loop over all files in the same directory as `filename`.
     basename = pathlib.Path(filename).stem
-    for f in os.listdir(dir_name):
+    for f in sorted(os.listdir(dir_name)):
         # Check if there are files by the name "<filename>_*.xml"; if yes,
         # extract the * pattern and make it the name of the data set.
-        out = re.match(f"{basename}_([^\\.]+)\\.xml", f)
+        out = re.fullmatch(f"{re.escape(basename)}_([^\\.]+)\\.xml", f)
         if not out:
             continue
         name = out.group(1)
@@ -103,6 +103,10 @@ def _read_cell_data(filename):
         tree = ET.parse((dir_name / f).as_posix(), parser)
         root = tree.getroot()
 
+        if len(root) > 0 and root[0].tag == "mesh":
+            # another mesh whose name happens to start with `basename`
+            continue
+
         mesh_functions = list(root)
         if len(mesh_functions) != 1:
             raise ReadError("Can only handle one mesh function")
-- 
2.43.0


From 18e68d54be6e0402fd87fa83e574f611684e5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:17 +0000
Subject: [PATCH 073/141] fix: XDMF file names with a colon in HDF5 references

---
 src/meshio/xdmf/main.py        | 2 +-
 src/meshio/xdmf/time_series.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 8ec08d5..91c1610 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -103,7 +103,7 @@ class XdmfReader:
             raise ReadError(f"Unknown XDMF Format '{fmt}'.")
 
         info = data_item.text.strip()
-        filename, h5path = info.split(":")
+        filename, h5path = info.rsplit(":", 1)
 
         # The HDF5 file path is given with respect to the XDMF (XML) file.
         dirname = pathlib.Path(self.filename).resolve().parent
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a53e063..e063743 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -209,7 +209,7 @@ class TimeSeriesReader:
             raise ReadError(f"Unknown XDMF Format '{data_format}'.")
 
         info = data_item.text.strip()
-        filename, h5path = info.split(":")
+        filename, h5path = info.rsplit(":", 1)
 
         # The HDF5 file path is given with respect to the XDMF (XML) file.
         dirpath = self.filename.resolve().parent
-- 
2.43.0


From de2a25c61abfb1b2b8c952410f1693c17f72bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:42 +0000
Subject: [PATCH 074/141] fix: readers end with an error at an unexpected end
 of file (ansys, mdpa, off, ply, tecplot)

---
 src/meshio/ansys/_ansys.py     | 33 +++++++++++++++++++++++----------
 src/meshio/mdpa/_mdpa.py       |  4 ++++
 src/meshio/off/_off.py         |  7 +++++--
 src/meshio/ply/_ply.py         |  5 ++++-
 src/meshio/tecplot/_tecplot.py | 33 ++++++++++++++++++++-------------
 5 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 546587e..ddcdde6 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -16,15 +16,32 @@ from .._helpers import register_format
 from .._mesh import Mesh
 
 
+def _read_char(f):
+    c = f.read(1).decode()
+    if c == "":
+        raise ReadError("Unexpected end of file.")
+    return c
+
+
+def _read_data_line(f):
+    # the next non-blank line
+    while True:
+        line = f.readline().decode()
+        if line == "":
+            raise ReadError("Unexpected end of file.")
+        if line.strip() != "":
+            return line
+
+
 def _skip_to(f, char):
     c = None
     while c != char:
-        c = f.read(1).decode()
+        c = _read_char(f)
 
 
 def _skip_close(f, num_open_brackets):
     while num_open_brackets > 0:
-        char = f.read(1).decode()
+        char = _read_char(f)
         if char == "(":
             num_open_brackets += 1
         elif char == ")":
@@ -61,16 +78,14 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
     # be the current line already).
     last_char = line.strip()[-1]
     while last_char != "(":
-        last_char = f.read(1).decode()
+        last_char = _read_char(f)
 
     if out.group(1) == "":
         # ASCII data
         pts = np.empty((num_points, dim))
         for k in range(num_points):
             # skip ahead to the first line with data
-            line = ""
-            while line.strip() == "":
-                line = f.readline().decode()
+            line = _read_data_line(f)
             dat = line.split()
             if len(dat) != dim:
                 raise ReadError()
@@ -130,7 +145,7 @@ def _read_cells(f, line):
     if line.strip()[-1] != "(":
         c = None
         while True:
-            c = f.read(1).decode()
+            c = _read_char(f)
             if c == "(":
                 break
             if not re.match("\\s", c):
@@ -227,9 +242,7 @@ def _read_faces(f, line):
             # > type v0 v1 v2 c0 c1
             # >
             for k in range(num_cells):
-                line = ""
-                while line.strip() == "":
-                    line = f.readline().decode()
+                line = _read_data_line(f)
                 dat = line.split()
                 type_index = int(dat[0], 16)
                 if type_index == 0:
diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index afa39ec..cb923aa 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -109,6 +109,8 @@ def _read_nodes(f, is_ascii, data_size):
     num_nodes = 0
     while True:
         line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file.")
         if "End Nodes" in line:
             break
         num_nodes += 1
@@ -146,6 +148,8 @@ def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
 
     while True:
         line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file.")
         if line.startswith("End Elements") or line.startswith("End Conditions"):
             break
         # data[0] gives the entity id
diff --git a/src/meshio/off/_off.py b/src/meshio/off/_off.py
index c3b670b..704e042 100644
--- a/src/meshio/off/_off.py
+++ b/src/meshio/off/_off.py
@@ -31,13 +31,16 @@ def read_buffer(f):
 
     # fast forward to the next significant line
     while True:
-        line = f.readline().strip()
+        line = f.readline()
+        if not line:
+            raise ReadError("Unexpected end of file.")
+        line = line.strip()
         if line and line[0] != "#":
             break
 
     # This next line contains:
     # <number of vertices> <number of faces> <number of edges>
-    num_verts, num_faces, _ = line.split(" ")
+    num_verts, num_faces, _ = line.split()
     num_verts = int(num_verts)
     num_faces = int(num_faces)
 
diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 2b3360f..b2a9c7e 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -66,7 +66,10 @@ def read(filename):
 def _next_line(f):
     # fast forward to the next significant line
     while True:
-        line = f.readline().decode().strip()
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file.")
+        line = line.strip()
         if line and line[:7] != "comment":
             break
     return line
diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 4acf2c3..18ad439 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -106,11 +106,14 @@ def read(filename):
 
 
 def readline(f):
-    line = f.readline().strip()
-    while line.startswith("#"):
-        line = f.readline().strip()
-
-    return line
+    # the next line which is neither blank nor a comment; empty string at end of file
+    while True:
+        line = f.readline()
+        if not line:
+            return ""
+        line = line.strip()
+        if line and not line.startswith("#"):
+            return line
 
 
 def read_buffer(f):
@@ -130,12 +133,12 @@ def read_buffer(f):
             # variable name is double quoted
             lines = [line]
             i = f.tell()
-            line = readline(f).upper()
+            line = readline(f)
             while True:
                 if line.startswith('"'):
                     lines += [line]
                     i = f.tell()
-                    line = readline(f).upper()
+                    line = readline(f)
                 else:
                     f.seek(i)
                     break
@@ -154,6 +157,8 @@ def read_buffer(f):
             i = f.tell()
             line = readline(f).upper()
             while True:
+                if not line:
+                    raise ReadError("Unexpected end of file.")
                 # check if the first entry can be converted to a float
                 try:
                     float(line.split()[0])
@@ -362,16 +367,18 @@ def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
         line = readline(f).split()
-        if line:
-            data += [[float(x) for x in line]]
-            count += len(line) if zone_format == "FEBLOCK" else 1
+        if not line:
+            raise ReadError("Unexpected end of file.")
+        data += [[float(x) for x in line]]
+        count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
         line = readline(f).split()
-        if line:
-            cells += [[[int(x) for x in line]]]
-            count += 1
+        if not line:
+            raise ReadError("Unexpected end of file.")
+        cells += [[[int(x) for x in line]]]
+        count += 1
 
     return data, np.concatenate(cells)
 
-- 
2.43.0


From c70185bdeb40cf154e212f83dd41ceb24653c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:24 +0000
Subject: [PATCH 075/141] fix: WKT reader takes exponential time for malformed
 input

---
 src/meshio/wkt/_wkt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 75ed0bd..799eef3 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -10,7 +10,9 @@ from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
-float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)(?:[eE][+-]?\d+)?"
+# The patterns match every text in at most one way, so that a failing match doesn't
+# try an exponential number of alternatives.
+float_pattern = r"[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
 point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
@@ -21,7 +23,7 @@ triangle_pattern = r"\(\s*\(\s*({})\s*\)\s*\)".format(
 )
 triangle_re = re.compile(triangle_pattern)
 
-tin_pattern = rf"TIN\s*\((?:\s*{triangle_pattern}\s*,?)*\s*\)"
+tin_pattern = rf"TIN\s*\(\s*(?:{triangle_pattern}\s*(?:,\s*)?)*\)"
 tin_re = re.compile(tin_pattern)
 
 
-- 
2.43.0


From 063873d5018bad6164c071868ecca99eed643050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:30 +0000
Subject: [PATCH 076/141] fix: Tecplot zone type of meshes with 2D and 3D cells

---
 src/meshio/tecplot/_tecplot.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 18ad439..ed9150e 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -399,6 +399,14 @@ def write(filename, mesh):
                 ).format(c.type, ic)
             )
 
+    # A zone holds cells of one dimension
+    num_dims = [meshio_type_to_ndim[t] for t in cell_types]
+    if len(set(num_dims)) > 1:
+        ndim = max(num_dims)
+        warn(f"Mesh contains cells of different dimensions. Skipping all but {ndim}D cells.")
+        cell_types = [t for t, n in zip(cell_types, num_dims) if n == ndim]
+        cell_blocks = [ic for ic, n in zip(cell_blocks, num_dims) if n == ndim]
+
     # Define cells and zone type
     cell_types = np.unique(cell_types)
     if len(cell_types) == 0:
@@ -413,16 +421,9 @@ def write(filename, mesh):
             ]
         )
     else:
-        # Check if the mesh contains 2D and 3D cells
-        num_dims = [meshio_type_to_ndim[mesh.cells[ic].type] for ic in cell_blocks]
-
-        # Skip 2D cells if it does
-        if len(np.unique(num_dims)) == 2:
-            warn("Mesh contains 2D and 3D cells. Skipping 2D cells.")
-            cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
-
         # Convert 2D cells to quads / 3D cells to hexahedra
-        zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
+        ndim = meshio_type_to_ndim[cell_types[0]]
+        zone_type = "FEQUADRILATERAL" if ndim == 2 else "FEBRICK"
         cells = np.concatenate(
             [
                 mesh.cells[ic].data[:, meshio_to_tecplot_order_2[mesh.cells[ic].type]]
-- 
2.43.0


From a719c1bd4a828e3e92945f53b4fe7ba5d60e66a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:09 +0000
Subject: [PATCH 077/141] fix: gzip-compressed PERMAS files and upper-case
 .VOL.GZ

---
 src/meshio/netgen/_netgen.py |  4 ++--
 src/meshio/permas/_permas.py | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index a6e427c..b2eac19 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -108,7 +108,7 @@ for t, pmap in netgen_to_meshio_pmap.items():
 
 
 def read(filename):
-    if str(filename).endswith(".vol.gz"):
+    if str(filename).lower().endswith(".vol.gz"):
         import gzip
 
         with gzip.open(filename, "rt") as f:
@@ -357,7 +357,7 @@ def read_buffer(f):
 
 
 def write(filename, mesh, float_fmt=".16e"):
-    if str(filename).endswith(".vol.gz"):
+    if str(filename).lower().endswith(".vol.gz"):
         import gzip
 
         with gzip.open(filename, "wt") as f:
diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index bc4a48c..4dedc22 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -63,9 +63,17 @@ meshio_to_permas_order = {
 }
 
 
+def _open(filename, mode):
+    if str(filename).lower().endswith(".gz"):
+        import gzip
+
+        return gzip.open(filename, mode)
+    return open_file(filename, mode)
+
+
 def read(filename):
     """Reads a PERMAS dat file."""
-    with open_file(filename, "r") as f:
+    with _open(filename, "rt") as f:
         out = read_buffer(f)
     return out
 
@@ -239,7 +247,7 @@ def write(filename, mesh):
     else:
         points = mesh.points
 
-    with open_file(filename, "wt") as f:
+    with _open(filename, "wt") as f:
         f.write("!PERMAS DataFile Version 18.0\n")
         f.write(f"!written by meshio v{__version__}\n")
         f.write("$ENTER COMPONENT NAME=DFLT_COMP\n")
-- 
2.43.0


From 844eb3d890790b4bca271700d932af03c9d87c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:45 +0000
Subject: [PATCH 078/141] fix: huge counts in Gmsh, Netgen and Medit files
 don't make the reader spin at the end of the file

---
 src/meshio/gmsh/common.py    | 11 +++++++++--
 src/meshio/medit/_medit.py   |  3 ++-
 src/meshio/netgen/_netgen.py |  9 +++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 1bdf5e4..0eda35a 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -50,17 +50,24 @@ def _read_physical_names(f, field_data):
     _fast_forward_to_end_block(f, "PhysicalNames")
 
 
+def _read_tag_line(f):
+    line = f.readline().decode()
+    if not line:
+        raise ReadError("Unexpected end of file.")
+    return line
+
+
 def _read_data(f, tag, data_dict, data_size, is_ascii, item_tags=None):
     # Read string tags
     num_string_tags = int(f.readline().decode())
     string_tags = [
-        f.readline().decode().strip().replace('"', "") for _ in range(num_string_tags)
+        _read_tag_line(f).strip().replace('"', "") for _ in range(num_string_tags)
     ]
     # The real tags typically only contain one value, the time.
     # Discard it.
     num_real_tags = int(f.readline().decode())
     for _ in range(num_real_tags):
-        f.readline()
+        _read_tag_line(f)
     num_integer_tags = int(f.readline().decode())
     integer_tags = [int(f.readline().decode()) for _ in range(num_integer_tags)]
     num_components = integer_tags[1]
diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 18d33b3..16b071e 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -288,7 +288,8 @@ def read_ascii_buffer(f):
             warn(msg)
             num_to_pass = int(f.readline())
             for _ in range(num_to_pass):
-                f.readline()
+                if not f.readline():
+                    raise ReadError("Unexpected end of file.")
         else:
             if items[0] != "End":
                 raise ReadError(f"Unknown keyword '{items[0]}'.")
diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index b2eac19..31f8d98 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from ..__about__ import __version__
 from .._common import warn
+from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -201,7 +202,8 @@ def _write_cells(f, cell_block, index=None):
 def _skip_block(f):
     n = int(f.readline())
     for _ in range(n):
-        f.readline()
+        if not f.readline():
+            raise ReadError("Unexpected end of file.")
 
 
 def _write_codim_domain_data(f, mesh, cells_index, dim, codim):
@@ -297,7 +299,10 @@ def read_buffer(f):
             num_entries = int(f.readline())
             for _ in range(num_entries):
                 # names can contain spaces
-                line = f.readline().strip().split(maxsplit=1)
+                line = f.readline()
+                if not line:
+                    raise ReadError("Unexpected end of file.")
+                line = line.strip().split(maxsplit=1)
                 if len(line) != 2:
                     continue
                 idx, name = line
-- 
2.43.0


From c53a62af21f235330889b87bd57a993594afee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:08 +0000
Subject: [PATCH 079/141] fix: DOLFIN-XML and TetGen: cell data of several
 blocks, vector data, incomplete files

---
 src/meshio/dolfin/_dolfin.py | 27 +++++++++++++++++++++------
 src/meshio/tetgen/_tetgen.py | 15 +++++++++++++--
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 722a3c2..0be38a8 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -49,6 +49,7 @@ def _read_mesh(filename):
             if dim is None:
                 raise ReadError("Expected `mesh` before `vertices`")
             points = np.empty((int(elem.attrib["size"]), dim))
+            has_point = np.zeros(len(points), dtype=bool)
             keys = ["x", "y"]
             if dim == 3:
                 keys += ["z"]
@@ -57,6 +58,7 @@ def _read_mesh(filename):
                 raise ReadError("Expected `vertices` before `vertex`")
             k = int(elem.attrib["index"])
             points[k] = [elem.attrib[key] for key in keys]
+            has_point[k] = True
         elif elem.tag == "cells":
             if cell_type is None or num_nodes_per_cell is None:
                 raise ReadError("Expected `mesh` before `cells`")
@@ -66,16 +68,23 @@ def _read_mesh(filename):
                     np.empty((int(elem.attrib["size"]), num_nodes_per_cell), dtype=int),
                 )
             ]
+            has_cell = np.zeros(len(cells[0][1]), dtype=bool)
         elif elem.tag in ["triangle", "tetrahedron"]:
             k = int(elem.attrib["index"])
             assert cells is not None
             assert cell_tags is not None
             cells[0][1][k] = [elem.attrib[t] for t in cell_tags]
+            has_cell[k] = True
         else:
             warn(f"Unknown entry {elem.tag}. Ignoring.")
 
         elem.clear()
 
+    if points is None or cells is None:
+        raise ReadError("Expected `vertices` and `cells`")
+    if not np.all(has_point) or not np.all(has_cell):
+        raise ReadError("Fewer vertices or cells than announced")
+
     return points, cells, cell_type
 
 
@@ -116,7 +125,7 @@ def _read_cell_data(filename):
             raise ReadError()
         size = int(mesh_function.attrib["size"])
         dtype = dolfin_type_to_numpy_type[mesh_function.attrib["type"]]
-        data = np.empty(size, dtype=dtype)
+        data = np.zeros(size, dtype=dtype)
         for child in mesh_function:
             if child.tag != "entity":
                 raise ReadError()
@@ -233,11 +242,17 @@ def write(filename, mesh):
     _write_mesh(filename, mesh.points, cell_type, mesh.cells)
 
     for name, lst in mesh.cell_data.items():
-        for data in lst:
-            fname = os.path.splitext(filename)[0]
-            cell_data_filename = f"{fname}_{name}.xml"
-            dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-            _write_cell_data(cell_data_filename, dim, np.array(data))
+        # only the cells written by _write_mesh()
+        data = np.concatenate(
+            [np.asarray(d) for d, c in zip(lst, mesh.cells) if c.type == cell_type]
+        )
+        if data.ndim != 1:
+            warn(f"DOLFIN XML can only write scalar cell data. Skipping {name}.")
+            continue
+        fname = os.path.splitext(filename)[0]
+        cell_data_filename = f"{fname}_{name}.xml"
+        dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
+        _write_cell_data(cell_data_filename, dim, data)
 
 
 register_format("dolfin-xml", [".xml"], read, {"dolfin-xml": write})
diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 8073a39..8cbfece 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -115,10 +115,18 @@ def write(filename, mesh, float_fmt=".16e"):
     if mesh.points.shape[1] != 3:
         raise WriteError("Can only write 3D points")
 
+    def scalar_keys(data, ndims):
+        skip = [k for k, nd in zip(data, ndims) if nd != 1]
+        if skip:
+            warn(f"TetGen only supports scalar data. Skipping {', '.join(skip)}.")
+        return [k for k in data if k not in skip]
+
     # write nodes
     with open(node_filename, "w") as fh:
         # identify ":ref" key
-        attr_keys = list(mesh.point_data.keys())
+        attr_keys = scalar_keys(
+            mesh.point_data, [v.ndim for v in mesh.point_data.values()]
+        )
         ref_keys = [k for k in attr_keys if ":ref" in k]
         if len(attr_keys) > 0:
             if len(ref_keys) > 0:
@@ -157,7 +165,10 @@ def write(filename, mesh, float_fmt=".16e"):
 
     # write cells
     with open(ele_filename, "w") as fh:
-        attr_keys = list(mesh.cell_data.keys())
+        attr_keys = scalar_keys(
+            mesh.cell_data,
+            [max(np.ndim(d) for d in v) for v in mesh.cell_data.values()],
+        )
         ref_keys = [k for k in attr_keys if ":ref" in k]
         if len(attr_keys) > 0:
             if len(ref_keys) > 0:
-- 
2.43.0


From 763efd0d5b5e192d824537fb12a4e9cfdfd7f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:18 +0000
Subject: [PATCH 080/141] fix: Gmsh/AVS-UCD readers do not return uninitialised
 memory for incomplete files

---
 src/meshio/avsucd/_avsucd.py | 4 +++-
 src/meshio/gmsh/_gmsh40.py   | 2 ++
 src/meshio/gmsh/_gmsh41.py   | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 7831bfd..ffbb19e 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -126,7 +126,9 @@ def _read_data(f, num_entities, entity_ids):
         line = f.readline().strip().split(",")
         labels[i] = line[0].strip().replace(" ", "_")
         data[labels[i]] = (
-            np.empty(num_entities) if dsize == 1 else np.empty((num_entities, dsize))
+            np.full(num_entities, np.nan)
+            if dsize == 1
+            else np.full((num_entities, dsize), np.nan)
         )
 
     for _ in range(num_entities):
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 3bd06df..4ae936d 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -128,6 +128,8 @@ def _read_nodes(f, is_ascii):
                 points[idx] = [float(x), float(y), float(z)]
                 tags[idx] = tag
                 idx += 1
+        if idx != total_num_nodes:
+            raise ReadError(f"Expected {total_num_nodes} nodes, found {idx}")
     else:
         # numEntityBlocks(unsigned long) numNodes(unsigned long)
         num_entity_blocks, _ = np.fromfile(f, count=2, dtype=c_ulong)
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 31712cc..baf4142 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -188,6 +188,9 @@ def _read_nodes(f, is_ascii: bool, data_size):
         dim_tags[ixx, 1] = entity_tag
         idx += num_nodes
 
+    if idx != total_num_nodes:
+        raise ReadError(f"Expected {total_num_nodes} nodes, found {idx}")
+
     _fast_forward_to_end_block(f, "Nodes")
 
     return points, tags, dim_tags
-- 
2.43.0


From def8c02bb18dbee6f816da60321092d7028cd463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:59 +0000
Subject: [PATCH 081/141] fix: CLI in-place tools rewrite a file in the format
 it is stored in; decompress works for CGNS and H5M

---
 src/meshio/_cli/_ascii.py      | 13 +++----------
 src/meshio/_cli/_binary.py     | 13 +++----------
 src/meshio/_cli/_compress.py   | 13 +++----------
 src/meshio/_cli/_decompress.py | 17 +++++------------
 src/meshio/_cli/_helpers.py    | 20 ++++++++++++++++++++
 5 files changed, 34 insertions(+), 42 deletions(-)
 create mode 100644 src/meshio/_cli/_helpers.py

diff --git a/src/meshio/_cli/_ascii.py b/src/meshio/_cli/_ascii.py
index 45aff5a..2c3957e 100644
--- a/src/meshio/_cli/_ascii.py
+++ b/src/meshio/_cli/_ascii.py
@@ -1,9 +1,9 @@
 import os
-import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import reader_map
+from ._helpers import read_with_format
 
 
 def add_args(parser):
@@ -20,16 +20,9 @@ def add_args(parser):
 
 
 def ascii(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    fmt, mesh = read_with_format(args.infile, args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_binary.py b/src/meshio/_cli/_binary.py
index ccf0635..8197bf6 100644
--- a/src/meshio/_cli/_binary.py
+++ b/src/meshio/_cli/_binary.py
@@ -1,8 +1,8 @@
 import os
-import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import reader_map
+from ._helpers import read_with_format
 
 
 def add_args(parser):
@@ -19,16 +19,9 @@ def add_args(parser):
 
 
 def binary(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    fmt, mesh = read_with_format(args.infile, args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_compress.py b/src/meshio/_cli/_compress.py
index 9103a0b..0c2526b 100644
--- a/src/meshio/_cli/_compress.py
+++ b/src/meshio/_cli/_compress.py
@@ -1,9 +1,9 @@
 import os
-import pathlib
 
 from .. import ansys, cgns, gmsh, h5m, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import reader_map
+from ._helpers import read_with_format
 
 
 def add_args(parser):
@@ -26,16 +26,9 @@ def add_args(parser):
 
 
 def compress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    fmt, mesh = read_with_format(args.infile, args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_decompress.py b/src/meshio/_cli/_decompress.py
index 3c67dda..291416e 100644
--- a/src/meshio/_cli/_decompress.py
+++ b/src/meshio/_cli/_decompress.py
@@ -1,9 +1,9 @@
 import os
-import pathlib
 
 from .. import cgns, h5m, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import reader_map
+from ._helpers import read_with_format
 
 
 def add_args(parser):
@@ -19,25 +19,18 @@ def add_args(parser):
 
 
 def decompress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    fmt, mesh = read_with_format(args.infile, args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
 
     # write it out
     if fmt == "cgns":
-        cgns.write(args.infile, mesh, compression=None)
+        cgns.write(args.infile, mesh, compression=None, compression_opts=None)
     elif fmt == "h5m":
-        h5m.write(args.infile, mesh, compression=None)
+        h5m.write(args.infile, mesh, compression=None, compression_opts=None)
     elif fmt == "vtu":
         vtu.write(args.infile, mesh, binary=True, compression=None)
     elif fmt == "xdmf":
diff --git a/src/meshio/_cli/_helpers.py b/src/meshio/_cli/_helpers.py
new file mode 100644
index 0000000..79071dd
--- /dev/null
+++ b/src/meshio/_cli/_helpers.py
@@ -0,0 +1,20 @@
+import pathlib
+
+from .._exceptions import ReadError
+from .._helpers import _filetypes_from_path, read, reader_map
+
+
+def read_with_format(infile, input_format=None):
+    """Read a mesh and also return the format it is actually stored in; some file name
+    extensions are shared by several formats.
+    """
+    if input_format:
+        return input_format, read(infile, file_format=input_format)
+
+    fmts = _filetypes_from_path(pathlib.Path(infile))
+    for fmt in fmts[:-1]:
+        try:
+            return fmt, reader_map[fmt](infile)
+        except ReadError:
+            pass
+    return fmts[-1], read(infile, file_format=fmts[-1])
-- 
2.43.0


From 6a2093a563370e67235008e438941bc3bde0bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:05 +0000
Subject: [PATCH 082/141] fix: meshio info flags indices equal to the number of
 points and negative ones

---
 src/meshio/_cli/_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_cli/_info.py b/src/meshio/_cli/_info.py
index dc269e7..9d8c8be 100644
--- a/src/meshio/_cli/_info.py
+++ b/src/meshio/_cli/_info.py
@@ -24,7 +24,7 @@ def info(args):
     # check if the cell arrays are consistent with the points
     is_consistent = True
     for cells in mesh.cells:
-        if np.any(cells.data > mesh.points.shape[0]):
+        if np.any(cells.data < 0) or np.any(cells.data >= mesh.points.shape[0]):
             warn("Inconsistent mesh. Cells refer to nonexistent points.")
             is_consistent = False
             break
-- 
2.43.0


From 4641940e79c9658c1f5d64554f966a615607c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:33 +0000
Subject: [PATCH 083/141] fix: matrix-valued data in VTK/VTU, integer vector
 data as region numbers, equal point and cell names in Tecplot

---
 src/meshio/_common.py          | 4 +++-
 src/meshio/tecplot/_tecplot.py | 8 +++-----
 src/meshio/vtk/_vtk_42.py      | 3 +++
 src/meshio/vtk/_vtk_51.py      | 3 +++
 src/meshio/vtu/_vtu.py         | 5 +++--
 5 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index db04f1b..2214ae5 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -122,7 +122,9 @@ def _pick_first_int_data(data):
     candidate_keys = []
     for key in keys:
         # works for point_data and cell_data
-        if data[key][0].dtype.kind in ["i", "u"]:  # int or uint
+        arrays = data[key] if isinstance(data[key], list) else [data[key]]
+        # scalar int or uint
+        if arrays and all(a.ndim == 1 and a.dtype.kind in ["i", "u"] for a in arrays):
             candidate_keys.append(key)
 
     if len(candidate_keys) > 0:
diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index ed9150e..5582b1e 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -208,14 +208,12 @@ def read_buffer(f):
         if zone_format == "FEBLOCK"
         else np.transpose(data)
     )
-    data = {k: v for k, v in zip(variables, data)}
-
     point_data, cell_data = {}, {}
-    for i, variable in zip(is_cell_centered, variables):
+    for i, variable, values in zip(is_cell_centered, variables, data):
         if i:
-            cell_data[variable] = [data[variable]]
+            cell_data[variable] = [values]
         else:
-            point_data[variable] = data[variable]
+            point_data[variable] = values
 
     x = "X" if "X" in point_data.keys() else "x"
     y = "Y" if "Y" in point_data.keys() else "y"
diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 95bd498..fc5ae3a 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -737,6 +737,9 @@ def _write_field_data(f, data, binary):
     for name, values in data.items():
         if isinstance(values, list):
             values = np.concatenate(values)
+        if len(values.shape) > 2:
+            # matrices are stored row by row
+            values = values.reshape(len(values), np.prod(values.shape[1:]))
         if len(values.shape) == 1:
             num_tuples = values.shape[0]
             num_components = 1
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index b1c442f..711191d 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -639,6 +639,9 @@ def _write_field_data(f, data, binary):
     for name, values in data.items():
         if isinstance(values, list):
             values = np.concatenate(values)
+        if len(values.shape) > 2:
+            # matrices are stored row by row
+            values = values.reshape(len(values), np.prod(values.shape[1:]))
         if len(values.shape) == 1:
             num_tuples = values.shape[0]
             num_components = 1
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index e229f43..622bf17 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -717,8 +717,9 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
         vtu_type = numpy_to_vtu_type[data.dtype]
         fmt = "{:.11e}" if vtu_type.startswith("Float") else "{:d}"
         da = ET.SubElement(parent, "DataArray", type=vtu_type, Name=name)
-        if len(data.shape) == 2:
-            da.set("NumberOfComponents", f"{data.shape[1]}")
+        if len(data.shape) > 1:
+            # matrices are stored row by row
+            da.set("NumberOfComponents", f"{np.prod(data.shape[1:])}")
 
         def text_writer_compressed(f):
             max_block_size = 32768
-- 
2.43.0


From 2c8eb0147f3f76af267d6fcb5210dbce41ab9be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:25 +0000
Subject: [PATCH 084/141] fix: Gmsh 4.1 writer lists the entities of all cells,
 and accepts several cell types per entity

---
 src/meshio/_common.py      |  5 ++---
 src/meshio/gmsh/_gmsh41.py | 42 ++++++++++++++++++++++----------------
 src/meshio/medit/_medit.py |  8 ++++++--
 3 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index 2214ae5..cdf63ad 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -116,13 +116,12 @@ def write_xml(filename, root):
     tree.write(filename)
 
 
-def _pick_first_int_data(data):
+def _pick_first_int_data(data, is_point_data=False):
     # pick out material
     keys = list(data.keys())
     candidate_keys = []
     for key in keys:
-        # works for point_data and cell_data
-        arrays = data[key] if isinstance(data[key], list) else [data[key]]
+        arrays = [data[key]] if is_point_data else list(data[key])
         # scalar int or uint
         if arrays and all(a.ndim == 1 and a.dtype.kind in ["i", "u"] for a in arrays):
             candidate_keys.append(key)
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index baf4142..5c5e984 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -349,6 +349,21 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
             _write_data(fh, "ElementData", name, dat, binary)
 
 
+def _cell_dim_tags(cells, tag_data):
+    """Array of dimension and entity tag per cell block."""
+    cell_dim_tags = np.empty((len(cells), 2), dtype=int)
+    for ci, cell_block in enumerate(cells):
+        cell_dim_tags[ci] = [
+            cell_block.dim,
+            (
+                tag_data["gmsh:geometrical"][ci][0]
+                if "gmsh:geometrical" in tag_data
+                else 0
+            ),
+        ]
+    return cell_dim_tags
+
+
 def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     """Write entity section in a .msh file.
 
@@ -407,7 +422,10 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     # Array of entity tag (first row) and dimension (second row) per node.
     # We need to combine the two, since entity tags are reset for each dimension.
     # Uniquify, so that each row in node_dim_tags represent a unique entity
-    node_dim_tags = np.unique(point_data["gmsh:dim_tags"], axis=0)
+    cell_dim_tags = _cell_dim_tags(cells, tag_data)
+    node_dim_tags = np.unique(
+        np.concatenate([point_data["gmsh:dim_tags"], cell_dim_tags]), axis=0
+    )
 
     # Write number of entities per dimension
     num_occ = np.bincount(node_dim_tags[:, 0], minlength=4)
@@ -419,19 +437,6 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     else:
         fh.write(f"{num_occ[0]} {num_occ[1]} {num_occ[2]} {num_occ[3]}\n".encode())
 
-    # Array of dimension and entity tag per cell. Will be compared with the
-    # similar not array.
-    cell_dim_tags = np.empty((len(cells), 2), dtype=int)
-    for ci, cell_block in enumerate(cells):
-        cell_dim_tags[ci] = [
-            cell_block.dim,
-            (
-                tag_data["gmsh:geometrical"][ci][0]
-                if "gmsh:geometrical" in tag_data
-                else 0
-            ),
-        ]
-
     # We will only deal with bounding entities if this information is available
     has_bounding_elements = "gmsh:bounding_entities" in cell_sets
 
@@ -443,10 +448,11 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
         matching_cell_block = np.where(
             np.logical_and(cell_dim_tags[:, 0] == dim, cell_dim_tags[:, 1] == tag)
         )[0]
-        if matching_cell_block.size > 1:
-            # It is not 100% clear if this is not permissible, but the current
-            # implementation for sure does not allow it.
-            raise ValueError("Encountered non-unique CellBlock dim_tag")
+        # An entity can hold cells of several types (e.g., triangles and quads)
+        if "gmsh:physical" in tag_data:
+            physical = [tag_data["gmsh:physical"][ci][0] for ci in matching_cell_block]
+            if len(set(physical)) > 1:
+                raise WriteError("Different physical tags for one gmsh entity")
 
         # The information to be written varies according to entity dimension,
         # whether entity has a physical tag, and between ascii and binary.
diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 16b071e..448721d 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -323,7 +323,9 @@ def write_ascii_file(filename, mesh, float_fmt=".16e"):
         fh.write(f"{n}\n".encode())
 
         # pick out point data
-        labels_key, other = _pick_first_int_data(mesh.point_data)
+        labels_key, other = _pick_first_int_data(
+            mesh.point_data, is_point_data=True
+        )
         if labels_key and other:
             string = ", ".join(other)
             warn(
@@ -450,7 +452,9 @@ def write_binary_file(f, mesh):
         field_template = field_code[2]
         dtype = np.dtype(_produce_dtype(field_template, dim, itype, ftype))
 
-        labels_key, other = _pick_first_int_data(mesh.point_data)
+        labels_key, other = _pick_first_int_data(
+            mesh.point_data, is_point_data=True
+        )
         if labels_key and other:
             other_string = ", ".join(other)
             warn(
-- 
2.43.0


From c100bc29f381f0fafea66aff51e190ee12710716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:50 +0000
Subject: [PATCH 085/141] fix: PLY property names, Netgen region numbers,
 matrix-valued Gmsh data

---
 src/meshio/gmsh/common.py    |  3 +++
 src/meshio/netgen/_netgen.py | 11 +++++++----
 src/meshio/ply/_ply.py       |  2 ++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 0eda35a..a8855c5 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -264,6 +264,9 @@ def _write_data(fh, tag, name, data, binary):
     fh.write(f"{3}\n".encode())
     # time step
     fh.write(f"{0}\n".encode())
+    # matrices are stored row by row
+    if len(data.shape) > 2:
+        data = data.reshape(len(data), np.prod(data.shape[1:]))
     # number of components
     num_components = data.shape[1] if len(data.shape) > 1 else 1
     if num_components not in [1, 3, 9]:
diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 31f8d98..5365cc4 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -222,10 +222,13 @@ def _write_codim_domain_data(f, mesh, cells_index, dim, codim):
             if cell_block.dim == dim - codim:
                 indices = indices.union(set(index))
 
-        for idx in indices:
-            data[idx] = f"cd{codim:d}_{idx:d}"
+        # The names are numbered consecutively, starting from 1; large numbers are no
+        # region numbers
+        if indices and max(indices) < 2**16:
+            for idx in indices:
+                data[idx] = f"cd{codim:d}_{idx:d}"
 
-    if len(data) == 0:
+    if len(data) == 0 or max(data.keys()) < 1:
         return
 
     codim_tag = [kk for kk, vv in netgen_codims.items() if vv == codim][0]
@@ -387,7 +390,7 @@ def write_buffer(f, mesh, float_fmt):
         # any other integer cell data?
         cells_index = None
         for values in mesh.cell_data.values():
-            if np.issubdtype(values[0].dtype, np.integer):
+            if values[0].ndim == 1 and np.issubdtype(values[0].dtype, np.integer):
                 cells_index = values
                 break
 
diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index b2a9c7e..e2f7fc9 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -189,6 +189,8 @@ def _read_ascii(
         ]
     )
     pd = np.atleast_1d(np.genfromtxt(f, max_rows=num_verts, dtype=dtype))
+    # genfromtxt strips some characters off the names
+    pd.dtype.names = tuple(point_data_names)
 
     # split off coordinate data and additional point data
     verts = np.column_stack([pd[n] for n in ["x", "y", "z"] if n in point_data_names])
-- 
2.43.0


From 56d42155ad828c339780140b08d232a4429febd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:12 +0000
Subject: [PATCH 086/141] fix: H5M cell data; tags that other formats turned
 into floats (Gmsh 4.1, Nastran, Netgen), foreign field data (MED, Netgen,
 VTU)

---
 src/meshio/gmsh/_gmsh41.py     |  18 +++--
 src/meshio/h5m/_h5m.py         | 121 ++++++++++++++++++---------------
 src/meshio/med/_med.py         |  18 +++--
 src/meshio/nastran/_nastran.py |   2 +-
 src/meshio/netgen/_netgen.py   |   6 +-
 src/meshio/vtu/_vtu.py         |   2 -
 6 files changed, 96 insertions(+), 71 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 5c5e984..3db723c 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -311,13 +311,23 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
         if key not in ["gmsh:dim_tags"]:
             point_data[key] = d
 
+    # Other formats may have turned the entity tags into floats or padded them to three
+    # columns.
+    entity_data = {}
+    if "gmsh:dim_tags" in mesh.point_data:
+        dim_tags = np.asarray(mesh.point_data["gmsh:dim_tags"])
+        if dim_tags.ndim == 2 and dim_tags.shape[1] >= 2:
+            entity_data["gmsh:dim_tags"] = dim_tags[:, :2].astype(int)
+        else:
+            warn('Ignoring "gmsh:dim_tags", need one dimension and tag per point.')
+
     # Split the cell data: gmsh:physical and gmsh:geometrical are tags, the rest is
     # actual cell data.
     tag_data = {}
     cell_data = {}
     for key, d in mesh.cell_data.items():
         if key in ["gmsh:physical", "gmsh:geometrical", "cell_tags"]:
-            tag_data[key] = d
+            tag_data[key] = [np.asarray(dd).astype(int) for dd in d]
         else:
             cell_data[key] = d
 
@@ -334,10 +344,8 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
         if mesh.field_data:
             _write_physical_names(fh, mesh.field_data)
 
-        _write_entities(
-            fh, mesh.cells, tag_data, mesh.cell_sets, mesh.point_data, binary
-        )
-        _write_nodes(fh, mesh.points, mesh.cells, mesh.point_data, float_fmt, binary)
+        _write_entities(fh, mesh.cells, tag_data, mesh.cell_sets, entity_data, binary)
+        _write_nodes(fh, mesh.points, mesh.cells, entity_data, float_fmt, binary)
         _write_elements(fh, mesh.cells, tag_data, binary)
         if mesh.gmsh_periodic is not None:
             _write_periodic(fh, mesh.gmsh_periodic, float_fmt, binary)
diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 62a790a..7dd1cb1 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -47,17 +47,24 @@ def read(filename):
         "Tet4": "tetra",
     }
     cells = []
-    cell_data = {}
+    cell_tags = []
     for h5m_type, data in dset["elements"].items():
         meshio_type = h5m_to_meshio_type[h5m_type]
         conn = data["connectivity"]
         # Note that the indices are off by 1 in h5m.
         cells.append(CellBlock(meshio_type, conn[()] - 1))
 
-        # TODO bring cell data back
-        # if 'tags' in data:
-        #     for name, dataset in data['tags'].items():
-        #         cell_data[name] = dataset[()]
+        cell_tags.append(
+            {name: dataset[()] for name, dataset in data["tags"].items()}
+            if "tags" in data
+            else {}
+        )
+
+    # tags can be defined on some of the element groups only; cell data cannot
+    cell_data = {}
+    for name in cell_tags[0] if cell_tags else []:
+        if all(name in tags for tags in cell_tags):
+            cell_data[name] = [tags[name] for tags in cell_tags]
 
     # The `sets` in H5M are special in that they represent a segration of data
     # in the current file, particularly by a load balancer (Metis, Zoltan,
@@ -113,6 +120,50 @@ def read(filename):
     )
 
 
+def _write_tag(tags, tstt_tags, key, data, compression, compression_opts):
+    if len(data.shape) == 1:
+        dtype = data.dtype
+        tags.create_dataset(
+            key,
+            data=data,
+            compression=compression,
+            compression_opts=compression_opts,
+        )
+    else:
+        # H5M doesn't accept n-x-k arrays as data; it wants an n-x-1
+        # array with k-tuples as entries.
+        n = data.shape[0]
+        dtype = np.dtype((data.dtype, data.shape[1:]))
+        dset = tags.create_dataset(
+            key,
+            (n,),
+            dtype=dtype,
+            compression=compression,
+            compression_opts=compression_opts,
+        )
+        dset[:] = data
+
+    # Create entry in global tags; nodes and elements can share a tag
+    if key in tstt_tags:
+        return
+    g = tstt_tags.create_group(key)
+    g["type"] = dtype
+    # Add a class tag:
+    # From
+    # <https://lists.mcs.anl.gov/pipermail/moab-dev/2015/007104.html>:
+    # ```
+    # /* Was dense tag data in mesh database */
+    #  define mhdf_DENSE_TYPE   2
+    # /** \brief Was sparse tag data in mesh database */
+    # #define mhdf_SPARSE_TYPE  1
+    # /** \brief Was bit-field tag data in mesh database */
+    # #define mhdf_BIT_TYPE     0
+    # /** \brief Unused */
+    # #define mhdf_MESH_TYPE    3
+    #
+    g.attrs["class"] = 2
+
+
 def write(filename, mesh, add_global_ids=True, compression="gzip", compression_opts=4):
     import h5py
 
@@ -149,45 +200,7 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
     if pd:
         tags = nodes.create_group("tags")
     for key, data in pd.items():
-        if len(data.shape) == 1:
-            dtype = data.dtype
-            tags.create_dataset(
-                key,
-                data=data,
-                compression=compression,
-                compression_opts=compression_opts,
-            )
-        else:
-            # H5M doesn't accept n-x-k arrays as data; it wants an n-x-1
-            # array with k-tuples as entries.
-            n, k = data.shape
-            dtype = np.dtype((data.dtype, (k,)))
-            dset = tags.create_dataset(
-                key,
-                (n,),
-                dtype=dtype,
-                compression=compression,
-                compression_opts=compression_opts,
-            )
-            dset[:] = data
-
-        # Create entry in global tags
-        g = tstt_tags.create_group(key)
-        g["type"] = dtype
-        # Add a class tag:
-        # From
-        # <https://lists.mcs.anl.gov/pipermail/moab-dev/2015/007104.html>:
-        # ```
-        # /* Was dense tag data in mesh database */
-        #  define mhdf_DENSE_TYPE   2
-        # /** \brief Was sparse tag data in mesh database */
-        # #define mhdf_SPARSE_TYPE  1
-        # /** \brief Was bit-field tag data in mesh database */
-        # #define mhdf_BIT_TYPE     0
-        # /** \brief Unused */
-        # #define mhdf_MESH_TYPE    3
-        #
-        g.attrs["class"] = 2
+        _write_tag(tags, tstt_tags, key, data, compression, compression_opts)
 
     # add elements
     elements = tstt.create_group("elements")
@@ -229,11 +242,11 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         "triangle": {"name": "Tri3", "type": 2},
         "tetra": {"name": "Tet4", "type": 5},
     }
-    for cell_block in mesh.cells:
+    for k, cell_block in enumerate(mesh.cells):
         key = cell_block.type
         data = cell_block.data
         if key not in meshio_to_h5m_type:
-            warn("Unsupported H5M element type '%s'. Skipping.", key)
+            warn(f"Unsupported H5M element type '{key}'. Skipping.")
             continue
         this_type = meshio_to_h5m_type[key]
         elem_group = elements.create_group(this_type["name"])
@@ -248,17 +261,13 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         conn.attrs.create("start_id", global_id)
         global_id += len(data)
 
-    # add cell data
-    for cell_type, cd in mesh.cell_data.items():
-        if cd:
+        # add cell data
+        if mesh.cell_data:
             tags = elem_group.create_group("tags")
-            for key, value in cd.items():
-                tags.create_dataset(
-                    key,
-                    data=value,
-                    compression=compression,
-                    compression_opts=compression_opts,
-                )
+        for name, values in mesh.cell_data.items():
+            _write_tag(
+                tags, tstt_tags, name, values[k], compression, compression_opts
+            )
 
     # add empty set -- MOAB wants this
     sets = tstt.create_group("sets")
diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index a908288..cdd82de 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -324,16 +324,23 @@ def write(filename, mesh):
     # Write nodal/cell data
     fields = f.create_group("CHA")
 
-    name_idx = 0
-    field_names = mesh.field_data["med:nom"] if "med:nom" in mesh.field_data else []
+    # The component names are listed in the (alphabetical) order of the fields in the
+    # file.
+    names = sorted(
+        (set(mesh.point_data) - {"point_tags"}) | (set(mesh.cell_data) - {"cell_tags"})
+    )
+    field_names = mesh.field_data.get("med:nom", [])
+    if len(names) == len(field_names):
+        field_names = dict(zip(names, field_names))
+    else:
+        field_names = {}
 
     # Nodal data
     for name, data in mesh.point_data.items():
         if name == "point_tags":  # ignore point_tags already written under FAS
             continue
         supp = "NOEU"  # nodal data
-        field_name = field_names[name_idx] if field_names else None
-        name_idx += 1
+        field_name = field_names.get(name)
         _write_data(fields, mesh_name, field_name, profile, name, supp, data)
 
     # Cell data
@@ -353,7 +360,7 @@ def write(filename, mesh):
                 supp = "ELNO"
             else:  # general ELGA data defined at unknown Gauss points
                 supp = "ELGA"
-            field_name = field_names[name_idx] if field_names else None
+            field_name = field_names.get(name)
             _write_data(
                 fields,
                 mesh_name,
@@ -364,7 +371,6 @@ def write(filename, mesh):
                 data,
                 med_type,
             )
-        name_idx += 1
 
 
 def _write_data(
diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 205fd00..483c4cd 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -350,7 +350,7 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
         point_refs = mesh.point_data.get("nastran:ref", None)
         for point_id, x in enumerate(points):
             fx = [float_fmt(k) for k in x]
-            pref = str(point_refs[point_id]) if point_refs is not None else ""
+            pref = str(int(point_refs[point_id])) if point_refs is not None else ""
             _check_field_width(pref, point_format)
             string = grid_fmt.format(point_id + 1, pref, fx[0], fx[1], fx[2])
             f.write(string)
diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 5365cc4..17edeff 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -210,6 +210,9 @@ def _write_codim_domain_data(f, mesh, cells_index, dim, codim):
     # assume format as read from gmsh 4.1 files
     data = {}
     for name, val in mesh.field_data.items():
+        # other formats store other things in field_data
+        if len(val) != 2 or any(np.ndim(v) > 0 for v in val):
+            continue
         if val[1] == dim - codim:
             data[val[0]] = name
 
@@ -385,7 +388,8 @@ def write_buffer(f, mesh, float_fmt):
     # store the name of the data; when reading, it will always be "netgen:index".
     # See also <https://github.com/nschloe/meshio/issues/1199>.
     if "netgen:index" in mesh.cell_data:
-        cells_index = mesh.cell_data["netgen:index"]
+        # Other formats may have turned the numbers into floats.
+        cells_index = [np.asarray(d, dtype=int) for d in mesh.cell_data["netgen:index"]]
     else:
         # any other integer cell data?
         cells_index = None
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 622bf17..2203ec3 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -710,8 +710,6 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     for data in mesh.cell_data.values():
         for k, dat in enumerate(data):
             data[k] = dat.astype(dat.dtype.newbyteorder("="), copy=False)
-    for key, data in mesh.field_data.items():
-        mesh.field_data[key] = data.astype(data.dtype.newbyteorder("="), copy=False)
 
     def numpy_to_xml_array(parent, name, data):
         vtu_type = numpy_to_vtu_type[data.dtype]
-- 
2.43.0


From 714993ad9541104f554600b29335ff6f6cfd7485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 087/141] fix: Netgen hexahedron20: top edges precede the
 vertical ones in VTK order

---
 src/meshio/netgen/_netgen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 17edeff..36ee8aa 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -88,14 +88,14 @@ netgen_to_meshio_pmap = {
         9,
         11,
         8,
-        16,
-        19,
-        18,
-        17,
         14,
         13,
         15,
         12,
+        16,
+        19,
+        18,
+        17,
     ],
 }
 
-- 
2.43.0


From 8643b82c6150db91563102c37b3d134a41afd402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:07 +0000
Subject: [PATCH 088/141] fix: Gmsh wedge18 (second-order prism) node ordering

---
 src/meshio/gmsh/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index a8855c5..a3ff768 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -194,6 +194,9 @@ def _gmsh_to_meshio_order(cell_type: str, idx: ArrayLike) -> np.ndarray:
         "wedge15": [
             0, 1, 2, 3, 4, 5, 6, 9, 7, 12, 14, 13, 8, 10, 11
         ],  # http://davis.lbl.gov/Manuals/VTK-4.5/classvtkQuadraticWedge.html and https://gmsh.info/doc/texinfo/gmsh.html#Node-ordering
+        "wedge18": [
+            0, 1, 2, 3, 4, 5, 6, 9, 7, 12, 14, 13, 8, 10, 11, 15, 17, 16
+        ],
         "pyramid13": [0, 1, 2, 3, 4, 5, 8, 10, 6, 7, 9, 11, 12],
         # fmt: on
     }
@@ -220,6 +223,9 @@ def _meshio_to_gmsh_order(cell_type: str, idx: ArrayLike) -> np.ndarray:
         "wedge15": [
             0, 1, 2, 3, 4, 5, 6, 8, 12, 7, 13, 14, 9, 11, 10,
         ],
+        "wedge18": [
+            0, 1, 2, 3, 4, 5, 6, 8, 12, 7, 13, 14, 9, 11, 10, 15, 17, 16,
+        ],
         "pyramid13": [0, 1, 2, 3, 4, 5, 8, 9, 6, 10, 7, 11, 12],
         # fmt: on
     }
-- 
2.43.0


From 4ce0664f17e5996950bb3300fcd4886c80a569d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:13 +0000
Subject: [PATCH 089/141] fix: Abaqus B33 beams have two nodes

---
 src/meshio/abaqus/_abaqus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 96a0dda..6205773 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -25,6 +25,8 @@ abaqus_to_meshio_type = {
     "T3D3": "line3",
     "T3D3H": "line3",
     # beams
+    "B33": "line",
+    "B33H": "line",
     "B21": "line",
     "B21H": "line",
     "B22": "line3",
@@ -33,8 +35,6 @@ abaqus_to_meshio_type = {
     "B31H": "line",
     "B32": "line3",
     "B32H": "line3",
-    "B33": "line3",
-    "B33H": "line3",
     # surfaces
     "CPS4": "quad",
     "CPS4R": "quad",
-- 
2.43.0


From 30639dc01f2a65153f6b4cc7e235cee18af23e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:06 +0000
Subject: [PATCH 090/141] fix: VTK 5.1 data type names (int is 32 bits wide)

---
 src/meshio/vtk/_vtk_51.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 711191d..3b864da 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -14,19 +14,29 @@ from .._vtk_common import (
     vtk_cells_from_data,
 )
 
-# VTK 5.1 data types
+# VTK 5.1 data types; the names listed last are the ones written
 vtk_to_numpy_dtype_name = {
-    "float": "float32",
-    "double": "float64",
-    "int": "int",
     "vtktypeint8": "int8",
     "vtktypeint16": "int16",
     "vtktypeint32": "int32",
-    "vtktypeint64": "int64",
     "vtktypeuint8": "uint8",
     "vtktypeuint16": "uint16",
     "vtktypeuint32": "uint32",
+    "vtkidtype": "int32",
+    "signed_char": "int8",
+    "unsigned_long": "uint64",
+    "long": "int64",
+    #
+    "unsigned_char": "uint8",
+    "char": "int8",
+    "unsigned_short": "uint16",
+    "short": "int16",
+    "unsigned_int": "uint32",
+    "int": "int32",
     "vtktypeuint64": "uint64",
+    "vtktypeint64": "int64",
+    "float": "float32",
+    "double": "float64",
 }
 numpy_to_vtk_dtype = {v: k for k, v in vtk_to_numpy_dtype_name.items()}
 
-- 
2.43.0


From ff4f0bf92b10cfc5f3e458d24be20233401d83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:28 +0000
Subject: [PATCH 091/141] fix: Nastran 9-node quadrilaterals are CQUAD cards

---
 src/meshio/nastran/_nastran.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 483c4cd..4ae04a8 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -31,6 +31,7 @@ nastran_to_meshio_type = {
     "CQUAD4": "quad",
     "CQUAD8": "quad8",
     "CQUAD9": "quad9",
+    "CQUAD": "quad9",
     "CTETRA": "tetra",
     "CTETRA_": "tetra10",  # fictive
     "CPYRAM": "pyramid",
@@ -74,6 +75,10 @@ def read_buffer(f):
         cell_type = nastran_to_meshio_type[nastran_type]
         cell = list(map(int, cell))
 
+        # midside and center nodes of CQUAD are optional
+        if nastran_type == "CQUAD":
+            cell_type = {4: "quad", 8: "quad8"}.get(len(cell), cell_type)
+
         # Treat 2nd order CTETRA, CPYRA, CPENTA, CHEXA elements
         if len(cell) > num_nodes_per_cell[cell_type]:
             assert cell_type in [
-- 
2.43.0


From 83872c1b41d3a9f215a0284c968563187df7dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:34 +0000
Subject: [PATCH 092/141] fix: read vtkIdType and 64-bit integer arrays of VTK
 4.2 files

---
 src/meshio/vtk/_vtk_42.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index fc5ae3a..4a7a526 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -64,6 +64,10 @@ vtk_type_to_numnodes = np.array(
 # These are all VTK data types.
 vtk_to_numpy_dtype_name = {
     "bit": "bool",
+    "vtkidtype": "int32",
+    "vtktypeint64": "int64",
+    "vtktypeuint64": "uint64",
+    "signed_char": "int8",
     "unsigned_char": "uint8",
     "char": "int8",
     "unsigned_short": "uint16",
-- 
2.43.0


From ba113c2ab5e127b1c0967dc9eb3d9dfba74feee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:40 +0000
Subject: [PATCH 093/141] fix: Neuroglancer: name the skipped cells, refuse all
 indices of nonexistent vertices

---
 src/meshio/neuroglancer/_neuroglancer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index ad48cc2..2231126 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -27,9 +27,9 @@ def write_buffer(f, mesh):
     :param meshio.Mesh mesh: Mesh object to write
     """
     vertices = np.asarray(mesh.points, "<f")
-    skip = [c for c in mesh.cells if c.type != "triangle"]
+    skip = [c.type for c in mesh.cells if c.type != "triangle"]
     if skip:
-        warn('Neuroglancer only supports triangle cells. Skipping {", ".join(skip)}.')
+        warn(f'Neuroglancer only supports triangle cells. Skipping {", ".join(skip)}.')
 
     f.write(struct.pack("<I", vertices.shape[0]))
     f.write(vertices.tobytes(order="C"))
@@ -71,7 +71,7 @@ def read_buffer(file):
         raise ReadError("The size of the precomputed mesh data is not adequate")
     flat_triangles = np.frombuffer(buf, "<I")
     triangles = np.reshape(flat_triangles, (-1, 3)).copy(order="C")  # TODO remove copy
-    if np.any(triangles > num_vertices):
+    if np.any(triangles >= num_vertices):
         raise ReadError("The mesh references nonexistent vertices")
 
     return Mesh(vertices, [CellBlock("triangle", triangles)])
-- 
2.43.0


From 1aef60833add96bfa1241143a555c8271c7e3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:52 +0000
Subject: [PATCH 094/141] fix: VTU: keep the cells of all pieces

---
 src/meshio/vtu/_vtu.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 2203ec3..2d1b657 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -151,16 +151,18 @@ def _organize_cells(point_offsets, cells, cell_data_raw):
             out_cells.append(CellBlock(tp, c))
 
     else:
+        cell_data = {}
         for offset, cls, cdr in zip(point_offsets, cells, cell_data_raw):
-            cls, cell_data = vtk_cells_from_data(
+            cls, piece_cell_data = vtk_cells_from_data(
                 cls["connectivity"].ravel(),
                 cls["offsets"].ravel(),
                 cls["types"].ravel(),
                 cdr,
             )
-
-        for c in cls:
-            out_cells.append(CellBlock(c.type, c.data + offset))
+            for c in cls:
+                out_cells.append(CellBlock(c.type, c.data + offset))
+            for name, d in piece_cell_data.items():
+                cell_data.setdefault(name, []).extend(d)
 
     return out_cells, cell_data
 
-- 
2.43.0


From 27f54bcf0182699eba788c2de00ec1591768e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:01 +0000
Subject: [PATCH 095/141] fix: VTU: data of polyhedra in the order of the cell
 blocks

---
 src/meshio/vtu/_vtu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 2d1b657..3702bda 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -97,7 +97,8 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
 
     # Loop over all cell sizes, find all cells with this size, and store
     # cell data.
-    for sz in np.unique(size):
+    # The blocks are in the order in which the sizes appear first.
+    for sz in dict.fromkeys(size.tolist()):
         # Cells with this number of nodes.
         items = np.where(size == sz)[0]
 
-- 
2.43.0


From d6c440cc3a30a58d214bc7345b8f1b62f44c155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:08 +0000
Subject: [PATCH 096/141] fix: VTU: write meshes with empty cell blocks

---
 src/meshio/vtu/_vtu.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 3702bda..a37e6e6 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -865,14 +865,12 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
             connectivity = np.concatenate(connectivity)
 
             # offset (points to the first element of the next cell)
-            offsets = [
-                v.data.shape[1]
-                * np.arange(1, v.data.shape[0] + 1, dtype=connectivity.dtype)
-                for v in mesh.cells
-            ]
-            for k in range(1, len(offsets)):
-                offsets[k] += offsets[k - 1][-1]
-            offsets = np.concatenate(offsets)
+            offsets = np.cumsum(
+                np.concatenate(
+                    [np.full(len(v.data), v.data.shape[1]) for v in mesh.cells]
+                ),
+                dtype=connectivity.dtype,
+            )
 
         # types
         types_array = []
-- 
2.43.0


From 1bb694a0e793586c40a1758772f3452579a1b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:16 +0000
Subject: [PATCH 097/141] fix: escape XML attribute values

---
 src/meshio/_cxml/etree.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_cxml/etree.py b/src/meshio/_cxml/etree.py
index f06c999..91cab1c 100644
--- a/src/meshio/_cxml/etree.py
+++ b/src/meshio/_cxml/etree.py
@@ -6,6 +6,13 @@
 # This etree here allows the writing method to write to the file directly, without
 # having to create a string representation first.
 
+from xml.sax.saxutils import escape
+
+
+def _quote(value):
+    entities = {'"': "&quot;", "\n": "&#10;", "\r": "&#13;", "\t": "&#9;"}
+    return f'"{escape(str(value), entities)}"'
+
 
 class Element:
     def __init__(self, name, **kwargs):
@@ -22,7 +29,7 @@ class Element:
         self.attrib[key] = value
 
     def write(self, f):
-        kw_list = [f'{key}="{value}"' for key, value in self.attrib.items()]
+        kw_list = [f"{key}={_quote(value)}" for key, value in self.attrib.items()]
         f.write("<{}>\n".format(" ".join([self.name] + kw_list)))
         if self.text:
             f.write(self.text)
-- 
2.43.0


From 0138b43a64e3b3333a4744ee2f837df9e0041df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:19 +0000
Subject: [PATCH 098/141] fix: read Abaqus comments inside data, *INCLUDE,
 *NODE sets and generated sets as specified

---
 src/meshio/abaqus/_abaqus.py | 147 ++++++++++++-----------------------
 1 file changed, 51 insertions(+), 96 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 6205773..c3f3159 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -108,6 +108,36 @@ def read(filename):
     return out
 
 
+class _Lines:
+    """The lines of an input file without comments and blank lines. *INCLUDE lines are
+    replaced by the content of the file they name."""
+
+    def __init__(self, f):
+        self._lines = self._iter(f)
+
+    def readline(self):
+        return next(self._lines, "")
+
+    def _iter(self, f):
+        for line in f:
+            line = line.strip()
+            if not line or line.startswith("**"):
+                continue
+            if line.startswith("*") and _keyword(line) == "INCLUDE":
+                # e.g., *INCLUDE,INPUT=wInclude_bulk.inp
+                ext_input_file = pathlib.Path(line.split("=")[-1].strip())
+                if not ext_input_file.exists():
+                    ext_input_file = pathlib.Path(f.name).parent / ext_input_file
+                with open_file(ext_input_file, "r") as g:
+                    yield from self._iter(g)
+            else:
+                yield line
+
+
+def _keyword(line):
+    return line.partition(",")[0].strip().replace("*", "").upper()
+
+
 def read_buffer(f):
     # Initialize the optional data fields
     points = []
@@ -120,19 +150,26 @@ def read_buffer(f):
     point_data = {}
     point_ids = None
 
+    f = _Lines(f)
     line = f.readline()
     while True:
         if not line:  # EOF
             break
 
-        # Comments
-        if line.startswith("**"):
+        # data lines of a skipped keyword
+        if not line.startswith("*"):
             line = f.readline()
             continue
 
-        keyword = line.partition(",")[0].strip().replace("*", "").upper()
+        keyword = _keyword(line)
         if keyword == "NODE":
+            params_map = get_param_map(line)
             new_points, new_ids, line = _read_nodes(f)
+            if params_map.get("NSET"):
+                name = params_map["NSET"]
+                members = list(point_sets.get(name, []))
+                members += range(len(points), len(points) + len(new_points))
+                point_sets[name] = np.array(members, dtype="int32")
             # there can be multiple NODE blocks
             point_ids = {} if point_ids is None else point_ids
             point_ids.update({k: v + len(points) for k, v in new_ids.items()})
@@ -177,32 +214,6 @@ def read_buffer(f):
                     raise ReadError(f"Unknown cell set '{set_name}'")
                 for ic, idx in list(cell_sets[set_name].items()):
                     _add_to_cell_set(cell_sets, name, ic, idx)
-        elif keyword == "INCLUDE":
-            # Splitting line to get external input file path (example: *INCLUDE,INPUT=wInclude_bulk.inp)
-            ext_input_file = pathlib.Path(line.split("=")[-1].strip())
-            if ext_input_file.exists() is False:
-                cd = pathlib.Path(f.name).parent
-                ext_input_file = cd / ext_input_file
-
-            # Read contents from external input file into mesh object
-            out = read(ext_input_file)
-
-            # Merge contents of external file only if it is containing mesh data
-            if len(out.points) > 0:
-                # the element numbers of the external file are not known here
-                cell_ids += [{} for _ in out.cells]
-                points, cells = merge(
-                    out,
-                    points,
-                    cells,
-                    point_data,
-                    cell_data,
-                    field_data,
-                    point_sets,
-                    cell_sets,
-                )
-
-            line = f.readline()
         else:
             # There are just too many Abaqus keywords to explicitly skip them.
             line = f.readline()
@@ -236,10 +247,8 @@ def _read_nodes(f):
         line = f.readline()
         if not line or line.startswith("*"):
             break
-        if line.strip() == "":
-            continue
 
-        line = line.strip().split(",")
+        line = line.split(",")
         point_id, coords = line[0], line[1:]
         point_ids[int(point_id)] = counter
         points.append([float(x) for x in coords])
@@ -262,9 +271,6 @@ def _read_cells(f, params_map, point_ids):
         line = f.readline()
         if not line or line.startswith("*"):
             break
-        line = line.strip()
-        if line == "":
-            continue
         idx += [int(k) for k in filter(None, line.split(","))]
 
     # Check for expected number of data
@@ -284,57 +290,6 @@ def _read_cells(f, params_map, point_ids):
     return cell_type, cells, cell_ids, cell_sets, line
 
 
-def merge(
-    mesh, points, cells, point_data, cell_data, field_data, point_sets, cell_sets
-):
-    """
-    Merge Mesh object into existing containers for points, cells, sets, etc..
-
-    :param mesh:
-    :param points:
-    :param cells:
-    :param point_data:
-    :param cell_data:
-    :param field_data:
-    :param point_sets:
-    :param cell_sets:
-    :type mesh: Mesh
-    """
-    ext_points = np.array([p for p in mesh.points])
-
-    if len(points) > 0:
-        new_point_id = points.shape[0]
-        # new_cell_id = len(cells) + 1
-        points = np.concatenate([points, ext_points])
-    else:
-        # new_cell_id = 0
-        new_point_id = 0
-        points = ext_points
-
-    cnt = 0
-    for c in mesh.cells:
-        new_data = np.array([d + new_point_id for d in c.data])
-        cells.append(CellBlock(c.type, new_data))
-        cnt += 1
-
-    # The following aren't currently included in the abaqus parser, and are therefore
-    # excluded?
-    # point_data.update(mesh.point_data)
-    # cell_data.update(mesh.cell_data)
-    # field_data.update(mesh.field_data)
-
-    # Update point and cell sets to account for change in cell and point ids
-    for key, val in mesh.point_sets.items():
-        point_sets[key] = [x + new_point_id for x in val]
-
-    # Todo: Add support for merging cell sets
-    # cellblockref = [[] for i in range(cnt-new_cell_id)]
-    # for key, val in mesh.cell_sets.items():
-    #     cell_sets[key] = cellblockref + [np.array([x for x in val[0]])]
-
-    return points, cells
-
-
 def get_param_map(word, required_keys=None):
     """
     get the optional arguments on a line
@@ -381,20 +336,20 @@ def _read_set(f, params_map):
         line = f.readline()
         if not line or line.startswith("*"):
             break
-        if line.strip() == "":
-            continue
 
-        line = line.strip().strip(",").split(",")
-        if line[0].isnumeric():
-            set_ids += [int(k) for k in line]
+        items = [item.strip() for item in line.strip(",").split(",")]
+        if not items[0].isnumeric():
+            set_names += items
+        elif "GENERATE" in params_map:
+            # first, last, and increment (1 if not given)
+            if len(items) not in [2, 3]:
+                raise ReadError(items)
+            first, last, *step = (int(k) for k in items)
+            set_ids += range(first, last + 1, *step)
         else:
-            set_names += [name.strip() for name in line]
+            set_ids += [int(k) for k in items]
 
     set_ids = np.array(set_ids, dtype="int32")
-    if "GENERATE" in params_map:
-        if len(set_ids) != 3:
-            raise ReadError(set_ids)
-        set_ids = np.arange(set_ids[0], set_ids[1] + 1, set_ids[2], dtype="int32")
     return set_ids, set_names, line
 
 
-- 
2.43.0


From 8e8eabcd9498b7778d5d8edaf26c891ecc299e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:10 +0000
Subject: [PATCH 099/141] fix: read Nastran lower case, automatic
 continuations, blank coordinates and trailing fields as specified

---
 src/meshio/nastran/_nastran.py | 172 ++++++++++++---------------------
 1 file changed, 60 insertions(+), 112 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 4ae04a8..4a8624d 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -58,7 +58,7 @@ def read_buffer(f):
         line = f.readline()
         if not line:
             raise RuntimeError('"BEGIN BULK" statement not found')
-        if line.strip().startswith("BEGIN BULK"):
+        if line.strip().upper().startswith("BEGIN BULK"):
             break
 
     # Reading data
@@ -112,126 +112,62 @@ def read_buffer(f):
             cells_id.append([cell_id])
             cell_refs.append([cell_ref])
 
-    while True:
-        next_line = f.readline()
-        if not next_line:
-            raise ReadError("Premature EOF")
-        # Blank lines or comments
-        if len(next_line) < 4 or next_line.startswith(("$", "//", "#")):
-            continue
-        else:
-            break
-
-    while True:
-        # End loop when ENDDATA detected
-        if next_line.startswith("ENDDATA"):
-            break
-
-        # read line and merge with all continuation lines (starting with `+` or
-        # `*` or automatic continuation lines in fixed format)
-        chunks = []
-        c, is_free = _chunk_line(next_line)
-        chunks.append(c)
+    def next_significant_line():
         while True:
-            next_line = f.readline()
-
-            if not next_line:
+            line = f.readline()
+            if not line:
                 raise ReadError("Premature EOF")
-
             # Blank lines or comments
-            if len(next_line) < 4 or next_line.startswith(("$", "//", "#")):
+            if line.startswith(("//", "#")) or line.partition("$")[0].strip() == "":
                 continue
+            return line.partition("$")[0]
 
-            elif next_line[0] in ["+", "*"]:
-                # From
-                # <https://docs.plm.automation.siemens.com/data_services/resources/nxnastran/10/help/en_US/tdocExt/pdf/User.pdf>:
-                # You can manually specify a continuation by using a
-                # continuation identifier. A continuation identifier is a
-                # special character (+ or *) that indicates that the data
-                # continues on another line.
-                assert len(chunks[-1]) <= 10
-                if len(chunks[-1]) == 10:
-                    # This is a continuation line, so the 10th chunk of the
-                    # previous line must also be a continuation indicator.
-                    # Sometimes its first character is a `+`, but it's not
-                    # always present. Anyway, cut it off.
-                    chunks[-1][-1] = None
-                c, _ = _chunk_line(next_line)
-                c[0] = None
-                chunks.append(c)
-
-            elif len(chunks[-1]) == 10 and chunks[-1][-1] == "        ":
-                # automatic continuation: last chunk of previous line and first
-                # chunk of current line are spaces
-                c, _ = _chunk_line(next_line)
-                if c[0] == "        ":
-                    chunks[-1][9] = None
-                    c[0] = None
-                    chunks.append(c)
-                else:
-                    # not a continuation
-                    break
-            else:
-                break
-
-        # merge chunks according to large field format
-        # large field format: 8 + 16 + 16 + 16 + 16 + 8
-        if not is_free and chunks[0][0].rstrip().endswith("*"):
-            new_chunks = []
-            for c in chunks:
-                d = [c[0]]
-
-                if len(c) > 1:
-                    d.append(c[1])
-                if len(c) > 2:
-                    d[-1] += c[2]
+    next_line = next_significant_line()
 
-                if len(c) > 3:
-                    d.append(c[3])
-                if len(c) > 4:
-                    d[-1] += c[4]
-
-                if len(c) > 5:
-                    d.append(c[5])
-                if len(c) > 6:
-                    d[-1] += c[6]
-
-                if len(c) > 7:
-                    d.append(c[7])
-                if len(c) > 8:
-                    d[-1] += c[8]
-
-                if len(c) > 9:
-                    d.append(c[9])
-
-                new_chunks.append(d)
-
-            chunks = new_chunks
-
-        # flatten
-        chunks = [item for sublist in chunks for item in sublist]
-
-        # remove None (continuation blocks)
-        chunks = [chunk for chunk in chunks if chunk is not None]
+    while True:
+        # End loop when ENDDATA detected
+        if next_line.upper().startswith("ENDDATA"):
+            break
 
-        # strip chunks
-        chunks = [chunk.strip() for chunk in chunks]
+        # Read line and merge with all continuation lines. From
+        # <https://docs.plm.automation.siemens.com/data_services/resources/nxnastran/10/help/en_US/tdocExt/pdf/User.pdf>:
+        # You can manually specify a continuation by using a continuation identifier. A
+        # continuation identifier is a special character (+ or *) that indicates that
+        # the data continues on another line. In automatic continuation, the first field
+        # of the continuation line is blank.
+        keyword, fields, num_fields = _split_line(next_line)
+        chunks = [keyword]
+        while True:
+            next_line = next_significant_line()
+            head, next_fields, next_num_fields = _split_line(next_line)
+            if head != "" and head[0] not in "+*":
+                break
+            # The last field is the continuation identifier, fields left out at the end
+            # of the line are blank.
+            if len(fields) == num_fields + 1:
+                fields = fields[:num_fields]
+            chunks += fields + [""] * (num_fields - len(fields))
+            fields, num_fields = next_fields, next_num_fields
+        chunks += fields
 
         # large field format is indicated by a trailing asterisk
-        keyword = chunks[0].rstrip("*")
+        keyword = chunks[0].rstrip("*").upper()
 
         # Points
         if keyword == "GRID":
             point_id = int(chunks[1])
-            pref = chunks[2].strip()
+            # blank fields at the end can be left out
+            chunks += [""] * (6 - len(chunks))
+            pref = chunks[2]
             point_refs.append(int(pref) if len(pref) > 0 else None)
             points_id.append(point_id)
-            points.append([_nastran_string_to_float(i) for i in chunks[3:6]])
+            # coordinates left blank are zero
+            points.append([_nastran_string_to_float(i) if i else 0.0 for i in chunks[3:6]])
 
         # CellBlock
         elif keyword in nastran_to_meshio_type:
             cell_id = int(chunks[1])
-            cell_ref = chunks[2].strip()
+            cell_ref = chunks[2]
             cell_ref = int(cell_ref) if len(cell_ref) > 0 else None
 
             if keyword in ["CBAR", "CBEAM", "CBUSH", "CBUSH1D", "CGAP"]:
@@ -244,8 +180,16 @@ def read_buffer(f):
                 # where the last three floats specify the orientation vector.
                 # This information is removed.
                 cell = chunks[3:5]
-            else:
+            elif keyword == "CELAS1":
                 cell = chunks[3:]
+            else:
+                # the nodes can be followed by material angles, offsets etc.
+                cell_type = nastran_to_meshio_type.get(
+                    keyword + "_", nastran_to_meshio_type[keyword]
+                )
+                if keyword == "CPYRAM":
+                    cell_type = "pyramid13"
+                cell = chunks[3 : 3 + num_nodes_per_cell[cell_type]]
 
             # remove empty chunks
             cell = [item for item in cell if item != ""]
@@ -481,23 +425,27 @@ def _float_to_nastran_string(value, length=16):
 
 
 def _nastran_string_to_float(string):
+    # double precision numbers are written with the exponent letter D
+    string = string.strip().upper().replace("D", "E")
     try:
         return float(string)
     except ValueError:
-        string = string.strip()
         return float(string[0] + string[1:].replace("+", "e+").replace("-", "e-"))
 
 
-def _chunk_line(line: str) -> tuple[list[str], bool]:
-    # remove terminal newline
-    line = line.rstrip("\n")
+def _split_line(line: str) -> tuple[str, list[str], int]:
+    """The first field of a line, the other fields present, and how many data fields (i.e.,
+    without the continuation identifier) a line of this kind has."""
     if "," in line:
         # free format
-        return line.split(","), True
-    # fixed format
-    CHUNK_SIZE = 8
-    chunks = [line[i : CHUNK_SIZE + i] for i in range(0, len(line), CHUNK_SIZE)]
-    return chunks, False
+        head, *fields = (field.strip() for field in line.split(","))
+        return head, fields, 4 if "*" in head else 8
+    # fixed format; in large field format, the fields are 8 + 16 + 16 + 16 + 16 + 8 wide
+    line = line.rstrip()
+    head = line[:8].strip()
+    width, num_fields = (16, 4) if "*" in head else (8, 8)
+    fields = [line[i : i + width].strip() for i in range(8, len(line), width)]
+    return head, fields, num_fields
 
 
 def _convert_to_vtk_ordering(cell, nastran_type):
-- 
2.43.0


From d6e150d681a1a773296943dec508d16cd1266ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:30 +0000
Subject: [PATCH 100/141] fix: obj: relative (negative) vertex indices count
 from the current vertex

---
 src/meshio/obj/_obj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index 104f6df..bafcb10 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -55,6 +55,8 @@ def read_buffer(f):
             pass
         elif split[0] == "f":
             dat = [int(item.split("/")[0]) for item in split[1:]]
+            # negative indices count from the end of the current vertex list
+            dat = [k if k >= 0 else len(points) + k + 1 for k in dat]
             if len(face_groups) == 0 or (
                 len(face_groups[-1]) > 0 and len(face_groups[-1][-1]) != len(dat)
             ):
-- 
2.43.0


From 828f4f43f3c15ef871a01020888a7a7be1255d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:30 +0000
Subject: [PATCH 101/141] fix: wkt: accept TIN Z and any case of the tag

---
 src/meshio/wkt/_wkt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 799eef3..2e12535 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -23,8 +23,8 @@ triangle_pattern = r"\(\s*\(\s*({})\s*\)\s*\)".format(
 )
 triangle_re = re.compile(triangle_pattern)
 
-tin_pattern = rf"TIN\s*\(\s*(?:{triangle_pattern}\s*(?:,\s*)?)*\)"
-tin_re = re.compile(tin_pattern)
+tin_pattern = rf"TIN\s*Z?\s*\(\s*(?:{triangle_pattern}\s*(?:,\s*)?)*\)"
+tin_re = re.compile(tin_pattern, re.IGNORECASE)
 
 
 def read_str(s):
-- 
2.43.0


From fa7b2505cfc0ce23eab16b332afcaeb78cc0bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:30 +0000
Subject: [PATCH 102/141] fix: medit: counts and versions may be on the
 keyword's line or the next, versions 3 and 4

---
 src/meshio/medit/_medit.py | 46 +++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 448721d..62bf4cd 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -168,6 +168,19 @@ def read_binary_buffer(f):
     return Mesh(points, cells, point_data=point_data, cell_data=cell_data)
 
 
+def _read_int(f, items):
+    # the number which belongs to a keyword, on the same line or on one of the next
+    if len(items) >= 2:
+        return int(items[1])
+    while True:
+        line = f.readline()
+        if not line:
+            raise ReadError("Unexpected end of file.")
+        line = line.split("#")[0].strip()
+        if line:
+            return int(line)
+
+
 def read_ascii_buffer(f):
     dim = 0
     cells = []
@@ -203,21 +216,18 @@ def read_ascii_buffer(f):
             raise ReadError()
 
         if items[0] == "MeshVersionFormatted":
-            version = items[1]
-            dtype = {"0": c_float, "1": c_float, "2": c_double}[version]
+            version = _read_int(f, items)
+            if version not in [0, 1, 2, 3, 4]:
+                raise ReadError(f"Unknown file version {version}")
+            dtype = c_float if version < 2 else c_double
         elif items[0] == "Dimension":
-            if len(items) >= 2:
-                dim = int(items[1])
-            else:
-                dim = int(
-                    int(f.readline())
-                )  # e.g. Dimension\n3, where the number of dimensions is on the next line
+            dim = _read_int(f, items)
         elif items[0] == "Vertices":
             if dim <= 0:
                 raise ReadError()
             if dtype is None:
                 raise ReadError("Expected `MeshVersionFormatted` before `Vertices`")
-            num_verts = int(f.readline())
+            num_verts = _read_int(f, items)
             # the references are integers: don't squeeze them through single precision
             out = np.fromfile(
                 f, count=num_verts * (dim + 1), dtype=c_double, sep=" "
@@ -227,7 +237,7 @@ def read_ascii_buffer(f):
         elif items[0] in meshio_from_medit:
             meshio_type, points_per_cell = meshio_from_medit[items[0]]
             # The first value is the number of elements
-            num_cells = int(f.readline())
+            num_cells = _read_int(f, items)
 
             out = np.fromfile(
                 f, count=num_cells * (points_per_cell + 1), dtype=int, sep=" "
@@ -238,41 +248,41 @@ def read_ascii_buffer(f):
             cell_data["medit:ref"].append(out[:, -1])
         elif items[0] == "Corners":
             # those are just discarded
-            num_corners = int(f.readline())
+            num_corners = _read_int(f, items)
             np.fromfile(f, count=num_corners, dtype=dtype, sep=" ")
         elif items[0] == "Normals":
             # those are just discarded
-            num_normals = int(f.readline())
+            num_normals = _read_int(f, items)
             np.fromfile(f, count=num_normals * dim, dtype=dtype, sep=" ").reshape(
                 num_normals, dim
             )
         elif items[0] == "NormalAtVertices":
             # those are just discarded
-            num_normal_at_vertices = int(f.readline())
+            num_normal_at_vertices = _read_int(f, items)
             np.fromfile(
                 f, count=num_normal_at_vertices * 2, dtype=int, sep=" "
             ).reshape(num_normal_at_vertices, 2)
         elif items[0] == "SubDomainFromMesh":
             # those are just discarded
-            num_sub_domain_from_mesh = int(f.readline())
+            num_sub_domain_from_mesh = _read_int(f, items)
             np.fromfile(
                 f, count=num_sub_domain_from_mesh * 4, dtype=int, sep=" "
             ).reshape(num_sub_domain_from_mesh, 4)
         elif items[0] == "VertexOnGeometricVertex":
             # those are just discarded
-            num_vertex_on_geometric_vertex = int(f.readline())
+            num_vertex_on_geometric_vertex = _read_int(f, items)
             np.fromfile(
                 f, count=num_vertex_on_geometric_vertex * 2, dtype=int, sep=" "
             ).reshape(num_vertex_on_geometric_vertex, 2)
         elif items[0] == "VertexOnGeometricEdge":
             # those are just discarded
-            num_vertex_on_geometric_edge = int(f.readline())
+            num_vertex_on_geometric_edge = _read_int(f, items)
             np.fromfile(
                 f, count=num_vertex_on_geometric_edge * 3, dtype=float, sep=" "
             ).reshape(num_vertex_on_geometric_edge, 3)
         elif items[0] == "EdgeOnGeometricEdge":
             # those are just discarded
-            num_edge_on_geometric_edge = int(f.readline())
+            num_edge_on_geometric_edge = _read_int(f, items)
             np.fromfile(
                 f, count=num_edge_on_geometric_edge * 2, dtype=int, sep=" "
             ).reshape(num_edge_on_geometric_edge, 2)
@@ -286,7 +296,7 @@ def read_ascii_buffer(f):
         ]:
             msg = f"Meshio doesn't know keyword {items[0]}. Skipping."
             warn(msg)
-            num_to_pass = int(f.readline())
+            num_to_pass = _read_int(f, items)
             for _ in range(num_to_pass):
                 if not f.readline():
                     raise ReadError("Unexpected end of file.")
-- 
2.43.0


From 2173a98fa5214cba9621865c7f437e18c820640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:30 +0000
Subject: [PATCH 103/141] fix: tecplot: case-insensitive zone keywords, lists
 in VARLOCATION

---
 src/meshio/tecplot/_tecplot.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 5582b1e..246795e 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -4,6 +4,8 @@ I/O for Tecplot ASCII data format, cf.
 <http://paulbourke.net/dataformats/tp/>.
 """
 
+import re
+
 import numpy as np
 
 from ..__about__ import __version__ as version
@@ -268,6 +270,9 @@ def _read_zone(line):
     else:
         zone_title = None
 
+    # The keywords are case-insensitive
+    line = line.upper()
+
     # Look for VARLOCATION (problematic since it contains both ',' and '=')
     ivar = line.find("VARLOCATION")
 
@@ -343,20 +348,20 @@ def _parse_fezone(zone, variables):
             node_value = zone.pop("NV")
             is_cell_centered[node_value:] = 1
         elif "VARLOCATION" in zone.keys():
-            varlocation = zone.pop("VARLOCATION")[1:-1].split(",")
-            for location in varlocation:
-                varrange, varloc = location.split("=")
-                varloc = varloc.strip()
-                if varloc == "CELLCENTERED":
-                    varrange = varrange[1:-1].split("-")
-                    if len(varrange) == 1:
-                        i = int(varrange[0]) - 1
+            # e.g., ([1-2,5]=NODAL,[3,4]=CELLCENTERED)
+            varlocation = zone.pop("VARLOCATION")[1:-1]
+            locations = re.findall(r"\[([^\]]*)\]=(\w+)", varlocation)
+            if not locations:
+                raise ReadError(f"Cannot read VARLOCATION '{varlocation}'")
+            for varranges, varloc in locations:
+                if varloc != "CELLCENTERED":
+                    continue
+                for varrange in varranges.split(","):
+                    varrange = varrange.split("-")
+                    imin = int(varrange[0]) - 1
+                    imax = int(varrange[-1]) - 1
+                    for i in range(imin, imax + 1):
                         is_cell_centered[i] = 1
-                    else:
-                        imin = int(varrange[0]) - 1
-                        imax = int(varrange[1]) - 1
-                        for i in range(imin, imax + 1):
-                            is_cell_centered[i] = 1
 
     return num_nodes, num_cells, zone_format, zone_type, is_cell_centered
 
-- 
2.43.0


From fdb3fc83930877a90fcbfec7723b6d2f1675b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:30 +0000
Subject: [PATCH 104/141] fix: tetgen: headers may be separated by any white
 space

---
 src/meshio/tetgen/_tetgen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 8cbfece..1dd3369 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -42,7 +42,7 @@ def read(filename):
         line = _next_line(f)
 
         num_points, dim, num_attrs, num_bmarkers = (
-            int(item) for item in line.split(" ") if item != ""
+            int(item) for item in line.split()
         )
         if dim != 3:
             raise ReadError("Need 3D points.")
@@ -73,7 +73,7 @@ def read(filename):
         line = _next_line(f)
 
         num_tets, num_points_per_tet, num_attrs = (
-            int(item) for item in line.strip().split(" ") if item != ""
+            int(item) for item in line.split()
         )
         if num_points_per_tet != 4:
             raise ReadError()
-- 
2.43.0


From f1494e743f96a0acd109e206fa1755408f6ad892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:30 +0000
Subject: [PATCH 105/141] fix: permas: comments and blank lines inside COOR and
 ELEMENT

---
 src/meshio/permas/_permas.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index 4dedc22..6b7caf2 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -133,11 +133,12 @@ def _read_nodes(f):
     while True:
         last_pos = f.tell()
         line = f.readline()
-        if line.startswith("!"):
-            break
-        if line.startswith("$"):
+        if line.startswith("$") or line == "":
             break
         entries = line.split()
+        if len(entries) == 0 or entries[0].startswith("!"):
+            # blank lines and comments
+            continue
         gid, x = entries[0], entries[1:]
         point_gids[int(gid)] = index
         points.append([float(xx) for xx in x])
@@ -163,6 +164,9 @@ def _read_cells(f, line0, point_gids):
         if line.startswith("$") or line == "":
             break
         line = line.strip()
+        if line == "" or line.startswith("!"):
+            # blank lines and comments
+            continue
         # the first item is just a running index
         idx += [point_gids[int(k)] for k in line.rstrip("!").split()[1:]]
         if not line.endswith("!"):
@@ -220,7 +224,7 @@ def read_set(f, params_map):
     while True:
         last_pos = f.tell()
         line = f.readline()
-        if line.startswith("$"):
+        if line.startswith("$") or line == "":
             break
         set_ids += [int(k) for k in line.split()]
     f.seek(last_pos)
-- 
2.43.0


From 556b261e5a77507faea5f3ee1ca0fcf57cfaa89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:30 +0000
Subject: [PATCH 106/141] fix: mdpa: honor node ids, comments, and blank lines

---
 src/meshio/mdpa/_mdpa.py | 45 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index cb923aa..769c7e5 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -32,6 +32,7 @@ _mdpa_to_meshio_type = {
     "Hexahedra3D8": "hexahedron",
     "Prism3D6": "wedge",
     "Line2D3": "line3",
+    "Line3D3": "line3",
     "Triangle2D6": "triangle6",
     "Triangle3D6": "triangle6",
     "Quadrilateral2D9": "quad9",
@@ -74,6 +75,7 @@ local_dimension_types = {
     "Hexahedra3D8": 3,
     "Prism3D6": 3,
     "Line2D3": 1,
+    "Line3D3": 1,
     "Triangle2D6": 2,
     "Triangle3D6": 2,
     "Quadrilateral2D9": 2,
@@ -99,31 +101,19 @@ def read(filename):
 
 
 def _read_nodes(f, is_ascii, data_size):
-    # Count the number of nodes. This is _extremely_ ugly; we first read the _entire_
-    # file until "End Nodes". The crazy thing is that first counting the lines, then
-    # skipping back to pos, and using fromfile there is _faster_ than accumulating the
-    # points into a list and converting them to a numpy array afterwards. A point count
-    # would be _really_ helpful here, but yeah, that's a fallacy of the format.
-    # <https://github.com/KratosMultiphysics/Kratos/issues/5365>
-    pos = f.tell()
-    num_nodes = 0
+    lines = []
     while True:
         line = f.readline().decode()
         if not line:
             raise ReadError("Unexpected end of file.")
         if "End Nodes" in line:
             break
-        num_nodes += 1
-    f.seek(pos)
+        # strip comments
+        lines.append(line.split("//")[0])
 
-    points = np.fromfile(f, count=num_nodes * 4, sep=" ").reshape((num_nodes, 4))
-    # The first number is the index
-    points = points[:, 1:]
-
-    line = f.readline().decode()
-    if line.strip() != "End Nodes":
-        raise ReadError()
-    return points
+    # The first number is the node id
+    data = np.array(" ".join(lines).split(), dtype=float).reshape(-1, 4)
+    return data[:, 1:], data[:, 0].astype(int)
 
 
 def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
@@ -150,8 +140,12 @@ def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
         line = f.readline().decode()
         if not line:
             raise ReadError("Unexpected end of file.")
-        if line.startswith("End Elements") or line.startswith("End Conditions"):
+        if line.strip().startswith(("End Elements", "End Conditions")):
             break
+        line = line.split("//")[0]
+        if not line.strip():
+            # blank lines and comments
+            continue
         # data[0] gives the entity id
         # data[1] gives the property id
         # The rest are the ids of the nodes
@@ -163,8 +157,7 @@ def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
 
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
-        # Subtract one to account for the fact that python indices are 0-based.
-        cells[-1][1].append(np.array(data[-num_nodes_per_elem:]) - 1)
+        cells[-1][1].append(data[-num_nodes_per_elem:])
 
         # Using the property id as tag
         if t not in cell_tags:
@@ -286,6 +279,7 @@ def read_buffer(f):
 
     # Initialize the optional data fields
     points = []
+    node_ids = []
     cells = []
     field_data = {}
     cell_data = {}
@@ -310,12 +304,19 @@ def read_buffer(f):
         environ = line.strip()
 
         if environ.startswith("Begin Nodes"):
-            points = _read_nodes(f, is_ascii, data_size)
+            points, node_ids = _read_nodes(f, is_ascii, data_size)
         elif environ.startswith("Begin Elements") or environ.startswith(
             "Begin Conditions"
         ):
             _read_cells(f, cells, is_ascii, cell_tags, environ)
 
+    # The cells refer to the node ids
+    node_idx = {node_id: k for k, node_id in enumerate(node_ids)}
+    try:
+        cells = [(t, np.array([[node_idx[k] for k in c] for c in d])) for t, d in cells]
+    except KeyError as e:
+        raise ReadError(f"Unknown node id {e}")
+
     # We finally prepare the cells
     has_additional_tag_data = _prepare_cells(cells, cell_tags)
 
-- 
2.43.0


From 5a74404a36ef2ea7614c343bdd16b83b5cb772fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:30 +0000
Subject: [PATCH 107/141] fix: dolfin: mesh functions of type double

---
 src/meshio/dolfin/_dolfin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 0be38a8..a5a0988 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -92,6 +92,7 @@ def _read_cell_data(filename):
     dolfin_type_to_numpy_type = {
         "int": np.dtype("int"),
         "float": np.dtype("float"),
+        "double": np.dtype("float"),
         "uint": np.dtype("uint"),
     }
 
-- 
2.43.0


From 9c707de69ef2a2b4ee644ff05d35d63571da9e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:05 +0000
Subject: [PATCH 108/141] fix: gmsh: version 4 (as Gmsh prints 4.0) is MSH 4.0

---
 src/meshio/gmsh/main.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/main.py b/src/meshio/gmsh/main.py
index f64ca4a..48e9f06 100644
--- a/src/meshio/gmsh/main.py
+++ b/src/meshio/gmsh/main.py
@@ -10,7 +10,7 @@ from .common import _fast_forward_to_end_block
 
 # Some mesh files out there have the version specified as version "2" when it really is
 # "2.2". Same with "4" vs "4.1".
-_readers = {"2": _gmsh22, "2.2": _gmsh22, "4.0": _gmsh40, "4": _gmsh41, "4.1": _gmsh41}
+_readers = {"2": _gmsh22, "2.2": _gmsh22, "4.0": _gmsh40, "4.1": _gmsh41}
 _writers = {"2.2": _gmsh22, "4.0": _gmsh40, "4.1": _gmsh41}
 
 
@@ -40,7 +40,7 @@ def read_buffer(f):
         reader = _readers[fmt_version]
     except KeyError:
         try:
-            reader = _readers[fmt_version.split(".")[0]]
+            reader = {"2": _gmsh22, "4": _gmsh41}[fmt_version.split(".")[0]]
         except KeyError:
             raise ValueError(
                 "Need mesh format in {} (got {})".format(
@@ -71,6 +71,9 @@ def _read_header(f):
     # into its components.
     str_list = list(filter(None, line.split()))
     fmt_version = str_list[0]
+    if fmt_version == "4":
+        # Gmsh prints the version number with %g
+        fmt_version = "4.0"
     if str_list[1] not in ["0", "1"]:
         raise ReadError()
     is_ascii = str_list[1] == "0"
-- 
2.43.0


From ef6cc5b7ab570ccc49372c9aacbfd06d3b288a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:10 +0000
Subject: [PATCH 109/141] fix: gmsh: element data and periodic nodes refer to
 tags, which may be sparse

---
 src/meshio/gmsh/_gmsh22.py | 28 ++++++++++++++++++++--------
 src/meshio/gmsh/_gmsh40.py | 18 ++++++++++++++----
 src/meshio/gmsh/_gmsh41.py | 16 ++++++++++++----
 src/meshio/gmsh/common.py  | 11 +++++++++++
 4 files changed, 57 insertions(+), 16 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 0b7b434..6520050 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -15,6 +15,7 @@ from .common import (
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
     _gmsh_to_meshio_type,
+    _index_from_tags,
     _meshio_to_gmsh_order,
     _meshio_to_gmsh_type,
     _read_data,
@@ -40,6 +41,7 @@ def read_buffer(f, is_ascii, data_size):
     point_data = {}
     periodic = None
     point_tags = None
+    elem_tags = None
     has_additional_tag_data = False
     while True:
         # fast-forward over blank lines
@@ -57,7 +59,7 @@ def read_buffer(f, is_ascii, data_size):
         elif environ == "Nodes":
             points, point_tags = _read_nodes(f, is_ascii)
         elif environ == "Elements":
-            has_additional_tag_data, cell_tags = _read_cells(
+            has_additional_tag_data, cell_tags, elem_tags = _read_cells(
                 f, cells, point_tags, is_ascii
             )
         elif environ == "Periodic":
@@ -67,13 +69,18 @@ def read_buffer(f, is_ascii, data_size):
                 f, "NodeData", point_data, data_size, is_ascii, point_tags
             )
         elif environ == "ElementData":
-            _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
+            _read_data(
+                f, "ElementData", cell_data_raw, data_size, is_ascii, elem_tags
+            )
         else:
             _fast_forward_to_end_block(f, environ)
 
     if has_additional_tag_data:
         warn("The file contains tag data that couldn't be processed.")
 
+    for link in periodic or []:
+        link[3] = _index_from_tags(link[3] + 1, point_tags)
+
     cells = [CellBlock(cell_type, cell_array) for cell_type, cell_array in cells]
     cell_data = cell_data_from_raw(cells, cell_data_raw)
 
@@ -113,8 +120,6 @@ def _read_nodes(f, is_ascii):
         # binary
         dtype = [("index", c_int), ("x", c_double, (3,))]
         data = np.fromfile(f, count=num_nodes, dtype=dtype)
-        if not (data["index"] == range(1, num_nodes + 1)).all():
-            raise ReadError()
         points = np.ascontiguousarray(data["x"])
         point_tags = data["index"]
 
@@ -129,9 +134,9 @@ def _read_cells(f, cells, point_tags, is_ascii):
     has_additional_tag_data = False
     cell_tags = {}
     if is_ascii:
-        _read_cells_ascii(f, cells, cell_tags, total_num_cells)
+        elem_tags = _read_cells_ascii(f, cells, cell_tags, total_num_cells)
     else:
-        _read_cells_binary(f, cells, cell_tags, total_num_cells)
+        elem_tags = _read_cells_binary(f, cells, cell_tags, total_num_cells)
 
     # override cells in-place
     cells[:] = [(key, _gmsh_to_meshio_order(key, values)) for key, values in cells]
@@ -168,13 +173,15 @@ def _read_cells(f, cells, point_tags, is_ascii):
                 output_cell_tags["gmsh:geometrical"] = {}
             output_cell_tags["gmsh:geometrical"][cell_type] = geometrical
 
-    return has_additional_tag_data, output_cell_tags
+    return has_additional_tag_data, output_cell_tags, elem_tags
 
 
-def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
+def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int):
+    elem_tags = []
     for _ in range(total_num_cells):
         line = f.readline().decode()
         data = [int(k) for k in filter(None, line.split())]
+        elem_tags.append(data[0])
         t = _gmsh_to_meshio_type[data[1]]
         num_nodes_per_elem = num_nodes_per_cell[t]
 
@@ -205,10 +212,12 @@ def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
         cells[k] = (c[0], np.array(c[1], dtype=c_int) - 1)
     # Cannot convert cell_tags[key] to numpy array: There may be a different number of
     # tags for each cell.
+    return np.array(elem_tags, dtype=int)
 
 
 def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     num_elems = 0
+    elem_tags = []
     while num_elems < total_num_cells:
         # read element header
         elem_type, num_elems0, num_tags = np.fromfile(f, count=3, dtype=c_int)
@@ -223,6 +232,7 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
         cells[-1][1].append(data[:, -num_nodes_per_elem:])
+        elem_tags.extend(data[:, 0])
 
         if t not in cell_tags:
             cell_tags[t] = []
@@ -238,6 +248,8 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     for key in cell_tags:
         cell_tags[key] = np.vstack(cell_tags[key])
 
+    return np.array(elem_tags, dtype=int)
+
 
 def _read_periodic(f):
     periodic = []
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 4ae936d..e3d8316 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -16,6 +16,7 @@ from .common import (
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
     _gmsh_to_meshio_type,
+    _index_from_tags,
     _meshio_to_gmsh_order,
     _meshio_to_gmsh_type,
     _read_data,
@@ -39,6 +40,7 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
     point_data = {}
     physical_tags = None
     periodic = None
+    elem_tags = None
     while True:
         line = f.readline().decode()
         if not line:
@@ -55,7 +57,9 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
         elif environ == "Nodes":
             points, point_tags = _read_nodes(f, is_ascii)
         elif environ == "Elements":
-            cells, cell_tags = _read_elements(f, point_tags, physical_tags, is_ascii)
+            cells, cell_tags, elem_tags = _read_elements(
+                f, point_tags, physical_tags, is_ascii
+            )
         elif environ == "Periodic":
             periodic = _read_periodic(f, is_ascii)
         elif environ == "NodeData":
@@ -63,7 +67,9 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
                 f, "NodeData", point_data, data_size, is_ascii, point_tags
             )
         elif environ == "ElementData":
-            _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
+            _read_data(
+                f, "ElementData", cell_data_raw, data_size, is_ascii, elem_tags
+            )
         else:
             # From
             # <http://gmsh.info//doc/texinfo/gmsh.html#MSH-file-format-_0028version-4_0029>:
@@ -75,6 +81,9 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
             # skip environment
             _fast_forward_to_end_block(f, environ)
 
+    for link in periodic or []:
+        link[3] = _index_from_tags(link[3] + 1, point_tags)
+
     cell_data = cell_data_from_raw(cells, cell_data_raw)
     cell_data.update(cell_tags)
 
@@ -187,7 +196,8 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
     itags = -np.ones(m, dtype=int)
     itags[point_tags] = np.arange(len(point_tags))
 
-    # Note that the first column in the data array is the element tag; discard it.
+    # Note that the first column in the data array is the element tag.
+    elem_tags = np.array([tag for _, _, _, d in data for tag in d[:, 0]], dtype=int)
     data = [
         (physical_tag, geom_tag, tpe, itags[d[:, 1:]])
         for physical_tag, geom_tag, tpe, d in data
@@ -210,7 +220,7 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
             cell_data["gmsh:geometrical"] = []
         cell_data["gmsh:geometrical"].append(np.full(len(values), geom_tag, int))
 
-    return cells, cell_data
+    return cells, cell_data, elem_tags
 
 
 def _read_periodic(f, is_ascii):
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 3db723c..1aa630b 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -15,6 +15,7 @@ from .common import (
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
     _gmsh_to_meshio_type,
+    _index_from_tags,
     _meshio_to_gmsh_order,
     _meshio_to_gmsh_type,
     _read_data,
@@ -47,6 +48,7 @@ def read_buffer(f, is_ascii: bool, data_size):
     bounding_entities = None
     cell_sets = {}
     periodic = None
+    elem_tags = None
     while True:
         # fast-forward over blank lines
         line, is_eof = _fast_forward_over_blank_lines(f)
@@ -67,7 +69,7 @@ def read_buffer(f, is_ascii: bool, data_size):
         elif environ == "Nodes":
             points, point_tags, point_entities = _read_nodes(f, is_ascii, data_size)
         elif environ == "Elements":
-            cells, cell_tags, cell_sets = _read_elements(
+            cells, cell_tags, cell_sets, elem_tags = _read_elements(
                 f,
                 point_tags,
                 physical_tags,
@@ -83,7 +85,9 @@ def read_buffer(f, is_ascii: bool, data_size):
                 f, "NodeData", point_data, data_size, is_ascii, point_tags + 1
             )
         elif environ == "ElementData":
-            _read_data(f, "ElementData", cell_data_raw, data_size, is_ascii)
+            _read_data(
+                f, "ElementData", cell_data_raw, data_size, is_ascii, elem_tags
+            )
         else:
             # From
             # <http://gmsh.info/doc/texinfo/gmsh.html#MSH-file-format>:
@@ -97,6 +101,9 @@ def read_buffer(f, is_ascii: bool, data_size):
 
     if cells is None:
         raise ReadError("$Element section not found.")
+    for link in periodic or []:
+        link[3] = _index_from_tags(link[3], point_tags)
+
     cell_data = cell_data_from_raw(cells, cell_data_raw)
     cell_data.update(cell_tags)
 
@@ -247,7 +254,8 @@ def _read_elements(
     inv_tags = np.full(np.max(point_tags) + 1, -1, dtype=int)
     inv_tags[point_tags] = np.arange(len(point_tags))
 
-    # Note that the first column in the data array is the element tag; discard it.
+    # Note that the first column in the data array is the element tag.
+    elem_tags = np.array([t for _, _, _, _, d in data for t in d[:, 0]], dtype=int)
     data = [
         (physical_tag, bound_entity, geom_tag, tpe, inv_tags[d[:, 1:] - 1])
         for physical_tag, bound_entity, geom_tag, tpe, d in data
@@ -275,7 +283,7 @@ def _read_elements(
                 cell_sets["gmsh:bounding_entities"] = []
             cell_sets["gmsh:bounding_entities"].append(bound_entity)
 
-    return cells, cell_data, cell_sets
+    return cells, cell_data, cell_sets, elem_tags
 
 
 def _read_periodic(f, is_ascii, data_size):
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index a3ff768..bd8901a 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -57,6 +57,17 @@ def _read_tag_line(f):
     return line
 
 
+def _index_from_tags(tags, item_tags):
+    # The tags don't have to be consecutive or ordered
+    tags, item_tags = np.asarray(tags, dtype=int), np.asarray(item_tags, dtype=int)
+    order = np.argsort(item_tags)
+    k = np.searchsorted(item_tags, tags, sorter=order)
+    index = order[np.minimum(k, len(order) - 1)]
+    if not np.array_equal(item_tags[index], tags):
+        raise ReadError("Reference to unknown tag.")
+    return index
+
+
 def _read_data(f, tag, data_dict, data_size, is_ascii, item_tags=None):
     # Read string tags
     num_string_tags = int(f.readline().decode())
-- 
2.43.0


From 80c37964141700ec347c643602b4e0bebce3c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:30 +0000
Subject: [PATCH 110/141] fix: vtk: read structured datasets of version 5.1
 files, skip color sections correctly

---
 src/meshio/vtk/_vtk_42.py | 20 ++++++++++++--------
 src/meshio/vtk/_vtk_51.py | 34 +++++++++++++++++++++++-----------
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 4a7a526..5753501 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -210,18 +210,22 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # don't touch num_items of the active POINT/CELL_DATA
+        _skip_colors(f, 4 * int(info.split[2]), info.is_ascii)
+        # rgba = data.reshape((-1, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
-        num_items = info.num_items
-        dtype = np.ubyte
-        if info.is_ascii:
-            dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+        _skip_colors(f, info.num_items * nValues, info.is_ascii)
+
+
+def _skip_colors(f, count, is_ascii):
+    # floats in [0, 1] in ASCII files, unsigned bytes in binary files
+    if is_ascii:
+        np.fromfile(f, count=count, sep=" ", dtype=float)
+    else:
+        np.fromfile(f, count=count, dtype=np.ubyte)
 
 
 def _read_subsection(f, info):
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 3b864da..007fe77 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -189,18 +189,22 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # don't touch num_items of the active POINT/CELL_DATA
+        _skip_colors(f, 4 * int(info.split[2]), info.is_ascii)
+        # rgba = data.reshape((-1, 4))
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
-        num_items = info.num_items
-        dtype = np.ubyte
-        if info.is_ascii:
-            dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+        _skip_colors(f, info.num_items * nValues, info.is_ascii)
+
+
+def _skip_colors(f, count, is_ascii):
+    # floats in [0, 1] in ASCII files, unsigned bytes in binary files
+    if is_ascii:
+        np.fromfile(f, count=count, sep=" ", dtype=float)
+    else:
+        np.fromfile(f, count=count, dtype=np.ubyte)
 
 
 def _read_subsection(f, info):
@@ -259,7 +263,7 @@ def _check_mesh(info):
             for i in range(3)
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        _set_generated_cells(info)
     elif info.dataset["type"] == "RECTILINEAR_GRID":
         axis = [
             info.dataset["X_COORDINATES"],
@@ -267,9 +271,17 @@ def _check_mesh(info):
             info.dataset["Z_COORDINATES"],
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        _set_generated_cells(info)
     elif info.dataset["type"] == "STRUCTURED_GRID":
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        _set_generated_cells(info)
+
+
+def _set_generated_cells(info):
+    cells, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+    # drop the leading numbers of nodes
+    cells = cells.reshape(len(info.types), -1)[:, 1:]
+    info.connectivity = cells.reshape(-1)
+    info.offsets = cells.shape[1] * np.arange(1, len(cells) + 1)
 
 
 def _generate_cells(dim):
-- 
2.43.0


From 35b784cc36ae33465990c5a44e3478332047da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:30 +0000
Subject: [PATCH 111/141] fix: vtu: resolve offsets of raw appended data before
 rewriting them; data sections are optional per piece

---
 src/meshio/vtu/_vtu.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index a37e6e6..a89c411 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -224,18 +224,20 @@ def _parse_raw_binary(filename):
     assert appended_data_tag is not None
     appended_data_tag.set("encoding", "base64")
 
+    # Collect the tags before any of the offsets is rewritten; a new offset may coincide
+    # with an old one.
+    da_tags = {
+        int(tag.get("offset")): tag for tag in root.iterfind(".//DataArray[@offset]")
+    }
+
     compressor = root.get("compressor")
     if compressor is None:
         arrays = ""
         i = 0
         while i < len(data):
-            # The following find() runs into issues if offset is padded with spaces, see
-            # <https://github.com/nschloe/meshio/issues/1135>. It works in ParaView.
-            # Unfortunately, Python's built-in XML tree can't handle regexes, see
-            # <https://stackoverflow.com/a/38810731/353337>.
-            da_tag = root.find(f".//DataArray[@offset='{i}']")
+            da_tag = da_tags.get(i)
             if da_tag is None:
-                raise RuntimeError(f"Could not find .//DataArray[@offset='{i}']")
+                raise RuntimeError(f"Could not find DataArray with offset {i}")
             da_tag.set("offset", str(len(arrays)))
 
             block_size = int(np.frombuffer(data[i : i + dtype.itemsize], dtype)[0])
@@ -252,7 +254,7 @@ def _parse_raw_binary(filename):
         arrays = ""
         i = 0
         while i < len(data):
-            da_tag = root.find(f".//DataArray[@offset='{i}']")
+            da_tag = da_tags.get(i)
             assert da_tag is not None
             da_tag.set("offset", str(len(arrays)))
 
@@ -416,20 +418,17 @@ class VtuReader:
                         except CorruptionError as e:
                             warn(e.args[0] + " Skipping.")
 
-                    point_data.append(piece_point_data)
-
                 elif child.tag == "CellData":
                     for c in child:
                         if c.tag != "DataArray":
                             raise ReadError()
                         piece_cell_data_raw[c.attrib["Name"]] = self.read_data(c)
-
-                    cell_data_raw.append(piece_cell_data_raw)
                 else:
                     raise ReadError(f"Unknown tag '{child.tag}'.")
 
-        if not cell_data_raw:
-            cell_data_raw = [{}] * len(cells)
+            # both sections are optional
+            point_data.append(piece_point_data)
+            cell_data_raw.append(piece_cell_data_raw)
 
         if len(cell_data_raw) != len(cells):
             raise ReadError()
@@ -441,13 +440,9 @@ class VtuReader:
             raise ReadError()
         self.points = np.concatenate(points)
 
-        if point_data:
-            self.point_data = {
-                key: np.concatenate([pd[key] for pd in point_data])
-                for key in point_data[0]
-            }
-        else:
-            self.point_data = None
+        self.point_data = {
+            key: np.concatenate([pd[key] for pd in point_data]) for key in point_data[0]
+        }
 
         self.cells, self.cell_data = _organize_cells(
             point_offsets, cells, cell_data_raw
-- 
2.43.0


From 1246091a55b18008bcdc6a60f49c956b7643a334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:56 +0000
Subject: [PATCH 112/141] fix: xdmf: honor Endian and Seek of binary items,
 flat topologies, the default format

---
 src/meshio/xdmf/common.py      | 19 +++++++++++++++++++
 src/meshio/xdmf/main.py        | 19 +++++++++++--------
 src/meshio/xdmf/time_series.py | 15 +++++++++------
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index d913326..e73cb46 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -157,6 +157,25 @@ def translate_mixed_cells(data):
     return cells
 
 
+def uniform_cells(xdmf_type, data):
+    meshio_type = xdmf_to_meshio_type[xdmf_type]
+    if data.ndim == 1:
+        # the dimensions of the data item may give the total number of values only
+        data = data.reshape(-1, num_nodes_per_cell[meshio_type])
+    return CellBlock(meshio_type, data)
+
+
+def read_binary(filename, data_item, dims, dtype):
+    endian = data_item.get("Endian", default="Native")
+    dtype = np.dtype(dtype).newbyteorder({"Big": ">", "Little": "<"}.get(endian, "="))
+    return np.fromfile(
+        filename,
+        dtype=dtype,
+        count=int(np.prod(dims)),
+        offset=int(data_item.get("Seek", default="0")),
+    ).reshape(dims)
+
+
 def attribute_type(data):
     # <https://xdmf.org/index.php/XDMF_Model_and_Format#Attribute>
     if len(data.shape) == 1 or (len(data.shape) == 2 and data.shape[1] == 1):
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 91c1610..9d02248 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -13,15 +13,16 @@ import numpy as np
 from .._common import cell_data_from_raw, raw_from_cell_data, write_xml
 from .._exceptions import ReadError, WriteError
 from .._helpers import register_format
-from .._mesh import CellBlock, Mesh
+from .._mesh import Mesh
 from .common import (
     attribute_type,
     dtype_to_format_string,
     meshio_to_xdmf_type,
     meshio_type_to_xdmf_index,
     numpy_to_xdmf_dtype,
+    read_binary,
     translate_mixed_cells,
-    xdmf_to_meshio_type,
+    uniform_cells,
     xdmf_to_numpy_type,
 )
 
@@ -80,7 +81,7 @@ class XdmfReader:
             data_type = "Float"
 
         precision = data_item.get("Precision", default="4")
-        fmt = data_item.attrib["Format"]
+        fmt = data_item.get("Format", default="XML")
 
         if fmt == "XML":
             dtype = xdmf_to_numpy_type[(data_type, precision)]
@@ -94,10 +95,12 @@ class XdmfReader:
         elif fmt == "Binary":
             # The path is given with respect to the XDMF (XML) file.
             dirname = pathlib.Path(self.filename).resolve().parent
-            return np.fromfile(
+            return read_binary(
                 dirname / data_item.text.strip(),
-                dtype=xdmf_to_numpy_type[(data_type, precision)],
-            ).reshape(dims)
+                data_item,
+                dims,
+                xdmf_to_numpy_type[(data_type, precision)],
+            )
 
         if fmt != "HDF":
             raise ReadError(f"Unknown XDMF Format '{fmt}'.")
@@ -183,7 +186,7 @@ class XdmfReader:
                     )
                 else:
                     data = self._read_data_item(data_items[0])
-                    cells.append(CellBlock(xdmf_to_meshio_type[topology_type], data))
+                    cells.append(uniform_cells(topology_type, data))
 
             elif c.tag == "Geometry":
                 if "GeometryType" in c.attrib:
@@ -275,7 +278,7 @@ class XdmfReader:
                 if cell_type == "Mixed":
                     cells = translate_mixed_cells(data)
                 else:
-                    cells.append(CellBlock(xdmf_to_meshio_type[cell_type], data))
+                    cells.append(uniform_cells(cell_type, data))
 
             elif c.tag == "Geometry":
                 if "Type" in c.attrib and "GeometryType" in c.attrib:
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index e063743..4931b13 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -17,8 +17,9 @@ from .common import (
     meshio_to_xdmf_type,
     meshio_type_to_xdmf_index,
     numpy_to_xdmf_dtype,
+    read_binary,
     translate_mixed_cells,
-    xdmf_to_meshio_type,
+    uniform_cells,
     xdmf_to_numpy_type,
 )
 
@@ -115,7 +116,7 @@ class TimeSeriesReader:
                 if cell_type == "Mixed":
                     cells = translate_mixed_cells(data)
                 else:
-                    cells.append(CellBlock(xdmf_to_meshio_type[cell_type], data))
+                    cells.append(uniform_cells(cell_type, data))
 
             elif c.tag == "Geometry":
                 if "GeometryType" in c.attrib:
@@ -190,7 +191,7 @@ class TimeSeriesReader:
         except KeyError:
             precision = "4"
 
-        data_format = data_item.attrib["Format"]
+        data_format = data_item.get("Format", default="XML")
 
         if data_format == "XML":
             return np.fromstring(
@@ -200,10 +201,12 @@ class TimeSeriesReader:
             ).reshape(dims)
         elif data_format == "Binary":
             # The path is given with respect to the XDMF (XML) file.
-            return np.fromfile(
+            return read_binary(
                 self.filename.resolve().parent / data_item.text.strip(),
-                dtype=xdmf_to_numpy_type[(data_type, precision)],
-            ).reshape(dims)
+                data_item,
+                dims,
+                xdmf_to_numpy_type[(data_type, precision)],
+            )
 
         if data_format != "HDF":
             raise ReadError(f"Unknown XDMF Format '{data_format}'.")
-- 
2.43.0


From 1f500298a2c2f5f637f8eb5e110ed8291e167480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:56 +0000
Subject: [PATCH 113/141] fix: h5m: connectivity refers to node handles, which
 start at start_id

---
 src/meshio/h5m/_h5m.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 7dd1cb1..82161e9 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -24,7 +24,10 @@ def read(filename):
     f = h5py.File(filename, "r")
     dset = f["tstt"]
 
-    points = dset["nodes"]["coordinates"][()]
+    coordinates = dset["nodes"]["coordinates"]
+    points = coordinates[()]
+    # the handle of the first node
+    start_id = int(coordinates.attrs.get("start_id", 1))
     # read point data
     point_data = {}
     if "tags" in dset["nodes"]:
@@ -51,8 +54,8 @@ def read(filename):
     for h5m_type, data in dset["elements"].items():
         meshio_type = h5m_to_meshio_type[h5m_type]
         conn = data["connectivity"]
-        # Note that the indices are off by 1 in h5m.
-        cells.append(CellBlock(meshio_type, conn[()] - 1))
+        # The connectivity contains node handles.
+        cells.append(CellBlock(meshio_type, conn[()] - start_id))
 
         cell_tags.append(
             {name: dataset[()] for name, dataset in data["tags"].items()}
-- 
2.43.0


From a903befcd1bd16c53e64393c4f4735f132ec66f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:56 +0000
Subject: [PATCH 114/141] fix: flac3d: a group ends with the next section,
 whatever it is

---
 src/meshio/flac3d/_flac3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index cfa426b..36b1a8c 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -343,7 +343,8 @@ def _read_cell_group_ascii(buf_or_line, line: str):
     data = []
     while True:
         line = line.rstrip().split()
-        if line and (line[0] not in {"*", "ZGROUP", "FGROUP"}):
+        # the group ends with anything that isn't a list of IDs
+        if line and line[0].isdigit():
             data += [int(l) for l in line]
         else:
             buf_or_line.seek(i)
-- 
2.43.0


From 5f055ae3fa30f572eef269da107045eb2957e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:56 +0000
Subject: [PATCH 115/141] fix: ugrid: read ASCII coordinates in double
 precision

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index a74e2b3..5966c86 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -23,7 +23,7 @@ from .._mesh import CellBlock, Mesh
 # 64-bit versions described here
 # https://www.simcenter.msstate.edu/software/documentation/ug_io/ugc_l_file_formats.html
 file_types = {
-    "ascii": {"type": "ascii", "float_type": "f", "int_type": "i"},
+    "ascii": {"type": "ascii", "float_type": "f8", "int_type": "i"},
     "b8l": {"type": "C", "float_type": ">f8", "int_type": ">i8"},
     "b8": {"type": "C", "float_type": ">f8", "int_type": ">i4"},
     "b4": {"type": "C", "float_type": ">f4", "int_type": ">i4"},
-- 
2.43.0


From 54e6139712819ae73a459ac2a67a184e17181834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:56 +0000
Subject: [PATCH 116/141] fix: ansys: opening bracket of cells and faces on a
 line of its own

---
 src/meshio/ansys/_ansys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index ddcdde6..778a0d2 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -171,7 +171,7 @@ def _read_cells(f, line):
             # ASCII cells
             data = np.empty((num_cells, num_nodes_per_cell), dtype=int)
             for k in range(num_cells):
-                line = f.readline().decode()
+                line = _read_data_line(f)
                 dat = line.split()
                 if len(dat) != num_nodes_per_cell:
                     raise ReadError()
@@ -266,7 +266,7 @@ def _read_faces(f, line):
             # read cell data
             data = np.empty((num_cells, num_nodes_per_cell), dtype=int)
             for k in range(num_cells):
-                line = f.readline().decode()
+                line = _read_data_line(f)
                 dat = line.split()
                 # The body of a regular face section contains the grid connectivity, and
                 # each line appears as follows:
-- 
2.43.0


From c1157506d94784394c04bcb9fc83b5c1fb02c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:39 +0000
Subject: [PATCH 117/141] fix: exodus: element types whose name doesn't contain
 the number of nodes

---
 src/meshio/exodus/_exodus.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index d75b914..34eeabe 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -12,7 +12,7 @@ import re
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import warn
+from .._common import num_nodes_per_cell, warn
 from .._exceptions import ReadError, WriteError
 from .._files import is_buffer
 from .._helpers import register_format
@@ -121,8 +121,18 @@ def read(filename):  # noqa: C901
                 for val in value:
                     info += [b"".join(c).decode("UTF-8") for c in val[:]]
             elif key[:7] == "connect":
-                meshio_type = exodus_to_meshio_type[value.elem_type.upper()]
                 data = value[:] - 1
+                # The number of nodes isn't necessarily part of the type name.
+                elem_type = value.elem_type.upper()
+                numbered = elem_type.rstrip("0123456789") + str(data.shape[1])
+                meshio_type = exodus_to_meshio_type[
+                    numbered if numbered in exodus_to_meshio_type else elem_type
+                ]
+                n = num_nodes_per_cell.get(meshio_type, data.shape[1])
+                if data.shape[1] != n:
+                    raise ReadError(
+                        f"Illegal number of nodes of {elem_type}: {data.shape[1]}"
+                    )
                 if meshio_type in exodus_to_meshio_order:
                     data = data[:, exodus_to_meshio_order[meshio_type]]
                 cells[int(key[7:])] = (meshio_type, data)
-- 
2.43.0


From c8554aa190f7d979930374663fc635523c30e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:24 +0000
Subject: [PATCH 118/141] fix: cgns writer announces skipped cells, joins tetra
 blocks

---
 src/meshio/cgns/_cgns.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index fde2ae7..f2844fe 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -6,7 +6,8 @@ TODO link to specification?
 
 import numpy as np
 
-from .._exceptions import ReadError
+from .._common import warn
+from .._exceptions import ReadError, WriteError
 from .._helpers import register_format
 from .._mesh import Mesh
 
@@ -43,6 +44,14 @@ def read(filename):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
+    # TODO write cells other than tetra
+    skip = [c.type for c in mesh.cells if c.type != "tetra"]
+    if skip:
+        warn(f'CGNS writer only supports tetra cells. Skipping {", ".join(skip)}.')
+    tetra = mesh.get_cells_type("tetra")
+    if len(tetra) == 0:
+        raise WriteError("CGNS writer needs at least one tetra cell.")
+
     f = h5py.File(filename, "w")
 
     base = f.create_group("Base")
@@ -76,26 +85,21 @@ def write(filename, mesh, compression="gzip", compression_opts=4):
     )
 
     # write cells
-    # TODO write cells other than tetra
     elems = zone1.create_group("GridElements")
     rnge = elems.create_group("ElementRange")
-    for cell_block in mesh.cells:
-        if cell_block.type == "tetra":
-            rnge.create_dataset(
-                " data",
-                data=[1, cell_block.data.shape[0]],
-                compression=compression,
-                compression_opts=compression_opts,
-            )
+    rnge.create_dataset(
+        " data",
+        data=[1, len(tetra)],
+        compression=compression,
+        compression_opts=compression_opts,
+    )
     conn = elems.create_group("ElementConnectivity")
-    for cell_block in mesh.cells:
-        if cell_block.type == "tetra":
-            conn.create_dataset(
-                " data",
-                data=cell_block.data.reshape(-1) + 1,
-                compression=compression,
-                compression_opts=compression_opts,
-            )
+    conn.create_dataset(
+        " data",
+        data=tetra.reshape(-1) + 1,
+        compression=compression,
+        compression_opts=compression_opts,
+    )
 
 
 register_format("cgns", [".cgns"], read, {"cgns": write})
-- 
2.43.0


From 756151e2e31f7de23be637c77ef39bf55b484668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:24 +0000
Subject: [PATCH 119/141] fix: flac3d writer announces the loss of higher-order
 nodes

---
 src/meshio/flac3d/_flac3d.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 36b1a8c..97da94b 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -415,6 +415,13 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
             f'Skipping {", ".join(skip)}.'
         )
 
+    reduced = [c.type for c in mesh.cells if supported.get(c.type, c.type) != c.type]
+    if reduced:
+        warn(
+            "FLAC3D format only supports linear cells. "
+            f'Writing only the corner points of {", ".join(reduced)}.'
+        )
+
     # split into face/zone data
     zcells, fcells, zsets, fsets = split_f_z(mesh)
 
-- 
2.43.0


From 94f8617eb73afab57cce78df14b655cfc6816098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:24 +0000
Subject: [PATCH 120/141] fix: neuroglancer writer pads 2D points

---
 src/meshio/neuroglancer/_neuroglancer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index 2231126..6d1af69 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -26,7 +26,15 @@ def write_buffer(f, mesh):
         will be called with :class:`bytes` objects).
     :param meshio.Mesh mesh: Mesh object to write
     """
-    vertices = np.asarray(mesh.points, "<f")
+    points = mesh.points
+    if points.shape[1] == 2:
+        warn(
+            "Neuroglancer requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
+
+    vertices = np.asarray(points, "<f")
     skip = [c.type for c in mesh.cells if c.type != "triangle"]
     if skip:
         warn(f'Neuroglancer only supports triangle cells. Skipping {", ".join(skip)}.')
-- 
2.43.0


From 8401de23c40b6cd7d2cda201e14b4de1dc560b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:24 +0000
Subject: [PATCH 121/141] fix: svg writer announces skipped cells

---
 src/meshio/svg/_svg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/meshio/svg/_svg.py b/src/meshio/svg/_svg.py
index c361692..558c118 100644
--- a/src/meshio/svg/_svg.py
+++ b/src/meshio/svg/_svg.py
@@ -4,6 +4,7 @@ from xml.etree import ElementTree as ET
 
 import numpy as np
 
+from .._common import warn
 from .._exceptions import WriteError
 from .._helpers import register_format
 
@@ -69,6 +70,13 @@ def write(
     # the style alongside. No problem if it's paths all the way.
     style.text = "path {" + "; ".join(opts) + "}"
 
+    skip = [c.type for c in mesh.cells if c.type not in ["line", "triangle", "quad"]]
+    if skip:
+        warn(
+            "SVG only supports line, triangle and quad cells. "
+            f'Skipping {", ".join(skip)}.'
+        )
+
     for cell_block in mesh.cells:
         if cell_block.type not in ["line", "triangle", "quad"]:
             continue
-- 
2.43.0


From c299c5541e1c676c4cc64244faa92aa4012b5fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:24 +0000
Subject: [PATCH 122/141] fix: ugrid writer pads 2D points

---
 src/meshio/ugrid/_ugrid.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 5966c86..191ccd5 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -182,7 +182,15 @@ def _write_buffer(f, file_type, mesh):
         "hexahedron": -1,
     }
 
-    ugrid_counts["points"] = mesh.points.shape[0]
+    points = mesh.points
+    if points.shape[1] == 2:
+        warn(
+            "UGRID requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
+
+    ugrid_counts["points"] = points.shape[0]
 
     for i, cell_block in enumerate(mesh.cells):
         key = cell_block.type
@@ -214,7 +222,7 @@ def _write_buffer(f, file_type, mesh):
         _write_section(f, file_type, fortran_header, itype)
 
         # start next record
-        fortran_header = mesh.points.size * np.dtype(ftype).itemsize
+        fortran_header = points.size * np.dtype(ftype).itemsize
         for i in ugrid_meshio_id.values():
             if i >= 0:
                 fortran_header += mesh.cells[i].data.size * np.dtype(itype).itemsize
@@ -226,7 +234,7 @@ def _write_buffer(f, file_type, mesh):
         fortran_header = np.array([fortran_header])
         _write_section(f, file_type, fortran_header, itype)
 
-    _write_section(f, file_type, mesh.points, ftype)
+    _write_section(f, file_type, points, ftype)
 
     for key in ["triangle", "quad"]:
         if ugrid_counts[key] == 0:
-- 
2.43.0


From 45c4e24989346692091c41f94bc9e722d23a12a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:24 +0000
Subject: [PATCH 123/141] fix: wkt reader accepts 2D points and empty TINs

---
 src/meshio/wkt/_wkt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 2e12535..38f2abf 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -15,7 +15,7 @@ from .._mesh import CellBlock, Mesh
 float_pattern = r"[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
-point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
+point_pattern = r"{0}\s+{0}(?:\s+{0}(?:\s+{0})?)?".format(float_pattern)
 point_re = re.compile(point_pattern)
 
 triangle_pattern = r"\(\s*\(\s*({})\s*\)\s*\)".format(
@@ -58,7 +58,9 @@ def read_str(s):
         else:
             raise e
 
-    tri_arr = np.array(tri_idxs, np.uint64)
+    if not point_idxs:
+        point_arr = np.zeros((0, 3))
+    tri_arr = np.array(tri_idxs, np.uint64).reshape(-1, 3)
 
     return Mesh(point_arr, [CellBlock("triangle", tri_arr)])
 
-- 
2.43.0


From be64f89e07c6c9f873a733f00b7db9e410242d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:43 +0000
Subject: [PATCH 124/141] fix: cgns closes its file when reading or writing
 fails

---
 src/meshio/cgns/_cgns.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index f2844fe..1b7dbc8 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -15,8 +15,11 @@ from .._mesh import Mesh
 def read(filename):
     import h5py
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        return _read(f)
 
+
+def _read(f):
     if "Base" not in f:
         raise ReadError('Expected "Base" in file. Malformed CGNS?')
 
@@ -52,8 +55,11 @@ def write(filename, mesh, compression="gzip", compression_opts=4):
     if len(tetra) == 0:
         raise WriteError("CGNS writer needs at least one tetra cell.")
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh.points, tetra, compression, compression_opts)
+
 
+def _write(f, points, tetra, compression, compression_opts):
     base = f.create_group("Base")
 
     # TODO something is missing here
@@ -65,21 +71,21 @@ def write(filename, mesh, compression="gzip", compression_opts=4):
     coord_x = coords.create_group("CoordinateX")
     coord_x.create_dataset(
         " data",
-        data=mesh.points[:, 0],
+        data=points[:, 0],
         compression=compression,
         compression_opts=compression_opts,
     )
     coord_y = coords.create_group("CoordinateY")
     coord_y.create_dataset(
         " data",
-        data=mesh.points[:, 1],
+        data=points[:, 1],
         compression=compression,
         compression_opts=compression_opts,
     )
     coord_z = coords.create_group("CoordinateZ")
     coord_z.create_dataset(
         " data",
-        data=mesh.points[:, 2],
+        data=points[:, 2],
         compression=compression,
         compression_opts=compression_opts,
     )
-- 
2.43.0


From 87983aaddb1ab4916f7130e73157864567826400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:43 +0000
Subject: [PATCH 125/141] fix: h5m closes its file when reading or writing
 fails

---
 src/meshio/h5m/_h5m.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 82161e9..6b270e1 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -21,7 +21,11 @@ from .._mesh import CellBlock, Mesh
 def read(filename):
     import h5py
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        return _read(f)
+
+
+def _read(f):
     dset = f["tstt"]
 
     coordinates = dset["nodes"]["coordinates"]
@@ -170,7 +174,12 @@ def _write_tag(tags, tstt_tags, key, data, compression, compression_opts):
 def write(filename, mesh, add_global_ids=True, compression="gzip", compression_opts=4):
     import h5py
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh, add_global_ids, compression, compression_opts)
+
+
+def _write(f, mesh, add_global_ids, compression, compression_opts):
+    import h5py
 
     tstt = f.create_group("tstt")
 
-- 
2.43.0


From 579b48aa0c5b2ad95ae4362cea0d6d86f28f4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:43 +0000
Subject: [PATCH 126/141] fix: med closes its file when reading or writing
 fails

---
 src/meshio/med/_med.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index cdd82de..dcd35bc 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -35,8 +35,11 @@ numpy_void_str = np.bytes_("")
 def read(filename):
     import h5py
 
-    f = h5py.File(filename, "r")
+    with h5py.File(filename, "r") as f:
+        return _read(f)
 
+
+def _read(f):
     # Mesh ensemble
     mesh_ensemble = f["ENS_MAA"]
     meshes = mesh_ensemble.keys()
@@ -225,8 +228,11 @@ def write(filename, mesh):
     # <https://github.com/nschloe/meshio/issues/781#issuecomment-616438066>
     # compression = None
 
-    f = h5py.File(filename, "w")
+    with h5py.File(filename, "w") as f:
+        _write(f, mesh)
+
 
+def _write(f, mesh):
     # Strangely the version must be 3.0.x
     # Any version >= 3.1.0 will NOT work with SALOME 8.3
     info = f.create_group("INFOS_GENERALES")
-- 
2.43.0


From 5b3d4492d40e49cf92296191e97562edf9b4f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:43 +0000
Subject: [PATCH 127/141] fix: xdmf closes its data files, short binary writes
 raise

---
 src/meshio/xdmf/main.py        | 21 ++++++++++++---------
 src/meshio/xdmf/time_series.py | 10 ++++++----
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 9d02248..22b7c18 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -112,16 +112,15 @@ class XdmfReader:
         dirname = pathlib.Path(self.filename).resolve().parent
         full_hdf5_path = dirname / filename
 
-        f = h5py.File(full_hdf5_path, "r")
-
         # Some files don't contain the leading slash /.
         if h5path[0] == "/":
             h5path = h5path[1:]
 
-        for key in h5path.split("/"):
-            f = f[key]
-        # `[()]` gives a np.ndarray
-        return f[()]
+        with h5py.File(full_hdf5_path, "r") as f:
+            for key in h5path.split("/"):
+                f = f[key]
+            # `[()]` gives a np.ndarray
+            return f[()]
 
     def read_information(self, c_data):
         field_data = {}
@@ -358,8 +357,12 @@ class XdmfWriter:
 
         if data_format == "HDF":
             self.h5_filename = self.filename.with_suffix(".h5")
-            self.h5_file = h5py.File(self.h5_filename, "w")
+            with h5py.File(self.h5_filename, "w") as self.h5_file:
+                self.write(mesh)
+        else:
+            self.write(mesh)
 
+    def write(self, mesh):
         xdmf_file = ET.Element("Xdmf", Version="3.0")
 
         domain = ET.SubElement(xdmf_file, "Domain")
@@ -376,7 +379,7 @@ class XdmfWriter:
 
         ET.register_namespace("xi", "https://www.w3.org/2001/XInclude/")
 
-        write_xml(filename, xdmf_file)
+        write_xml(self.filename, xdmf_file)
 
     def numpy_to_xml_string(self, data):
         if self.data_format == "XML":
@@ -390,7 +393,7 @@ class XdmfWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.astype(data.dtype.newbyteorder("=")).tofile(f)
+                f.write(data.astype(data.dtype.newbyteorder("=")).tobytes())
             # relative to the XDMF file, just like HDF
             return os.path.basename(bin_filename)
 
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 4931b13..36fa4f8 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -272,9 +272,11 @@ class TimeSeriesWriter:
         return self
 
     def __exit__(self, *_):
-        write_xml(self.filename, self.xdmf_file)
-        if self.data_format == "HDF":
-            self.h5_file.close()
+        try:
+            write_xml(self.filename, self.xdmf_file)
+        finally:
+            if self.data_format == "HDF":
+                self.h5_file.close()
 
     def write_points_cells(
         self,
@@ -340,7 +342,7 @@ class TimeSeriesWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.astype(data.dtype.newbyteorder("=")).tofile(f)
+                f.write(data.astype(data.dtype.newbyteorder("=")).tobytes())
             # relative to the XDMF file, just like HDF
             return bin_filename.name
 
-- 
2.43.0


From 5da14750d127a8e1c730e7fbeb63ef3507522bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:43 +0000
Subject: [PATCH 128/141] fix: medit writer raises when the device is full

---
 src/meshio/medit/_medit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 62bf4cd..2209442 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -443,7 +443,7 @@ def write_binary_file(f, mesh):
         tmp_array["f2"] = field
         tmp_array["f3"] = pos
         tmp_array["f4"] = dim
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
         # write points
         field = 4  # GmfVertices
@@ -457,7 +457,7 @@ def write_binary_file(f, mesh):
         tmp_array["f0"] = field
         tmp_array["f1"] = pos
         tmp_array["f2"] = num_verts
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
         field_template = field_code[2]
         dtype = np.dtype(_produce_dtype(field_template, dim, itype, ftype))
@@ -480,7 +480,7 @@ def write_binary_file(f, mesh):
         tmp_array = np.empty(num_verts, dtype=dtype)
         tmp_array["f0"] = mesh.points
         tmp_array["f1"] = labels
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
         labels_key, other = _pick_first_int_data(mesh.cell_data)
         if labels_key and other:
@@ -520,7 +520,7 @@ def write_binary_file(f, mesh):
             tmp_array["f0"] = medit_key
             tmp_array["f1"] = pos
             tmp_array["f2"] = num_cells
-            tmp_array.tofile(fh)
+            fh.write(tmp_array.tobytes())
 
             # pick out cell data
             labels = (
@@ -538,7 +538,7 @@ def write_binary_file(f, mesh):
                 i += 1
 
             tmp_array[dtype.names[-1]] = labels
-            tmp_array.tofile(fh)
+            fh.write(tmp_array.tobytes())
 
         pos = 0
         field = 54  # GmfEnd
@@ -546,7 +546,7 @@ def write_binary_file(f, mesh):
         tmp_array = np.empty(1, dtype=header_type)
         tmp_array["f0"] = field
         tmp_array["f1"] = pos
-        tmp_array.tofile(fh)
+        fh.write(tmp_array.tobytes())
 
 
 register_format("medit", [".mesh", ".meshb"], read, {"medit": write})
-- 
2.43.0


From 8e2a7bafc9f9656aa915827f0f599d2c27592e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:43 +0000
Subject: [PATCH 129/141] fix: binary stl raises when the device fails

---
 src/meshio/stl/_stl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index b871442..048aa35 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -173,6 +173,8 @@ def _read_binary(f, num_triangles: int):
             [("normal", "<f4", (3,)), ("facet", "<f4", (3, 3)), ("attr count", "<i2")]
         ),
     )
+    if len(out) != num_triangles:
+        raise ReadError(f"Expected {num_triangles} facets, could only read {len(out)}.")
     # discard normals, attribute count
     facets = out["facet"]
     # if not np.all(out["attr count"] == 0):
@@ -254,7 +256,7 @@ def _write_binary(filename, pts, normals):
         a["normal"] = normals
         a["points"] = pts
         a["attr"] = 0
-        a.tofile(fh)
+        fh.write(a.tobytes())
 
 
 register_format("stl", [".stl"], read, {"stl": write})
-- 
2.43.0


From 159fcec5c02eb57747d7664a7f25c29776530b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:43 +0000
Subject: [PATCH 130/141] fix: ugrid writer raises when the device is full

---
 src/meshio/ugrid/_ugrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 191ccd5..393329e 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -148,13 +148,14 @@ def _write_section(f, file_type, array, dtype):
         fmt = " ".join(["%r"] * ncols)
         np.savetxt(f, array, fmt=fmt)
     else:
-        array.astype(dtype).tofile(f)
+        f.write(array.astype(dtype).tobytes())
 
 
 def write(filename, mesh):
     file_type = determine_file_type(filename)
 
-    with open_file(filename, "w") as f:
+    mode = "w" if file_type["type"] == "ascii" else "wb"
+    with open_file(filename, mode) as f:
         _write_buffer(f, file_type, mesh)
 
 
-- 
2.43.0


From e83fdc22a43426b8e9c6c453592199d942c5e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:01 +0000
Subject: [PATCH 131/141] fix: binary medit reader raises on read errors

---
 src/meshio/medit/_medit.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 2209442..86003e4 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -18,8 +18,9 @@ from ._medit_internal import medit_codes
 
 
 def read(filename):
-    with open_file(filename) as f:
-        if str(filename)[-1] == "b":
+    is_binary = str(filename)[-1] == "b"
+    with open_file(filename, "rb" if is_binary else "r") as f:
+        if is_binary:
             mesh = read_binary_buffer(f)
         else:
             mesh = read_ascii_buffer(f)
@@ -122,14 +123,15 @@ def read_binary_buffer(f):
         raise ReadError("Invalid mesh dimension : " + str(dim))
 
     while True:
-        field = np.fromfile(f, count=1, dtype=keytype)
+        # np.fromfile doesn't tell a read error from the end of the file
+        field = f.read(np.dtype(keytype).itemsize)
 
-        if field.size == 0:
+        if len(field) < np.dtype(keytype).itemsize:
             msg = "End-of-file reached before GmfEnd keyword"
             warn(msg)
             break
 
-        field = field.item()
+        field = np.frombuffer(field, dtype=keytype).item()
         if field not in medit_codes.keys():
             raise ReadError("Unsupported field")
 
-- 
2.43.0


From 4f5320f32f6d6f60981359d4a1b63cb6b00edffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:47 +0000
Subject: [PATCH 132/141] fix: write() recognises write-only file objects as
 buffers

---
 src/meshio/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 9818e23..9143666 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -148,7 +148,7 @@ def write(filename, mesh: Mesh, file_format: str | None = None, **kwargs):
     :params point_data: Named additional point data to write to the file.
     :type point_data: dict
     """
-    if is_buffer(filename, "r"):
+    if is_buffer(filename, "w"):
         if file_format is None:
             raise WriteError("File format must be supplied if `filename` is a buffer")
         if file_format == "tetgen":
-- 
2.43.0


From 15a2578b89c6be1cf58beb2297f5244803ec7220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:12 +0000
Subject: [PATCH 133/141] fix: SU2 reader keeps its file position when elements
 precede points

Iterating over the text file disables its position bookkeeping, so
np.fromfile() started at a wrong offset in files with CRLF line ends.
---
 src/meshio/su2/_su2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index ba2881e..6d029de 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -118,7 +118,7 @@ def read_buffer(f):
             num_elems = int(rest_of_line)
             if num_elems == 0:
                 continue
-            gen = islice(f, num_elems)
+            gen = islice(iter(f.readline, ""), num_elems)
 
             # some files has an extra int column while other not
             # We do not need it so make sure we will skip it
-- 
2.43.0


From 839a9e4930ae7176b7765f8d46ff3548a7534b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:21 +0000
Subject: [PATCH 134/141] fix: MED families with slashes in their group names
 can be read back

---
 src/meshio/med/_med.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index dcd35bc..f099c54 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -459,7 +459,8 @@ def _family_name(set_id, name):
     """Return the FAM object name corresponding to the unique set id and a list of
     subset names
     """
-    return "FAM" + "_" + str(set_id) + "_" + "_".join(name)
+    # a slash would separate HDF5 groups; the subset names themselves are in GRO/NOM
+    return ("FAM" + "_" + str(set_id) + "_" + "_".join(name)).replace("/", "\\")
 
 
 def _write_families(fm_group, tags):
-- 
2.43.0


From f16adbeecbb56fd8366c2e4b91bc29a74a946b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:56 +0000
Subject: [PATCH 135/141] fix: Exodus names beyond ASCII are written with all
 their bytes

---
 src/meshio/exodus/_exodus.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 34eeabe..2db2f9f 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -369,8 +369,8 @@ def write(filename, mesh):
             )
             point_data_names.set_auto_mask(False)
             for k, name in enumerate(mesh.point_data.keys()):
-                for i, letter in enumerate(name):
-                    point_data_names[k, i] = letter.encode()
+                for i, byte in enumerate(name.encode()):
+                    point_data_names[k, i] = bytes([byte])
 
             # Set data. ParaView might have some problems here, see
             # <https://gitlab.kitware.com/paraview/paraview/-/issues/18403>.
@@ -397,8 +397,8 @@ def write(filename, mesh):
             )
             for k, name in enumerate(mesh.point_sets.keys()):
                 data[k] = k
-                for i, letter in enumerate(name):
-                    data_names[k, i] = letter.encode()
+                for i, byte in enumerate(name.encode()):
+                    data_names[k, i] = bytes([byte])
             for k, (key, values) in enumerate(mesh.point_sets.items()):
                 dim1 = f"num_nod_ns{k + 1}"
                 rootgrp.createDimension(dim1, values.shape[0])
-- 
2.43.0


From 563b39e2f0213a3e3029031a592d4b144599b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:26 +0000
Subject: [PATCH 136/141] fix: STL facets without area are written with a zero
 normal, not with NaN

---
 src/meshio/stl/_stl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 048aa35..2aa2faf 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -207,6 +207,8 @@ def write(filename, mesh, binary=False):
     else:
         normals = np.cross(pts[:, 1] - pts[:, 0], pts[:, 2] - pts[:, 0])
         nrm = np.sqrt(np.einsum("ij,ij->i", normals, normals))
+        # degenerate facets have no normal; the file says 0 0 0
+        nrm[nrm == 0] = 1
         normals = (normals.T / nrm).T
 
     fun = _write_binary if binary else _write_ascii
-- 
2.43.0


From 4f63d9f13823d8cd41f30e0452018217cfc6f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:52 +0000
Subject: [PATCH 137/141] fix: PLY polygons with more than 255 corners

---
 src/meshio/ply/_ply.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index e2f7fc9..eceaced 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -454,6 +454,10 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"property {type_name} {key}\n".encode())
             pd.append(value)
 
+        # polygons may have more corners than fit into one byte
+        n_max = max([c.data.shape[1] for c in mesh.cells], default=0)
+        count_dtype = np.dtype("uint8" if n_max < 256 else "uint32")
+
         num_cells = 0
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
         for cell_block in mesh.cells:
@@ -485,7 +489,9 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
             if cell_dtype is not None:
                 ply_type = numpy_to_ply_dtype[cell_dtype]
-                fh.write(f"property list uint8 {ply_type} vertex_indices\n".encode())
+                fh.write(
+                    f"property list {count_dtype} {ply_type} vertex_indices\n".encode()
+                )
 
         # TODO other cell data
         fh.write(b"end_header\n")
@@ -506,7 +512,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
                 # prepend with count
                 d = cell_block.data
                 out = np.rec.fromarrays(
-                    [np.broadcast_to(np.uint8(d.shape[1]), d.shape[0]), *d.T]
+                    [np.full(d.shape[0], d.shape[1], dtype=count_dtype), *d.T]
                 )
                 fh.write(out.tobytes())
         else:
-- 
2.43.0


From b4f3910abae9b307152bc71e6b03ba04b2a78e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:24 +0000
Subject: [PATCH 138/141] fix: PERMAS files may have comments after and inside
 sets

---
 src/meshio/permas/_permas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index 6b7caf2..4133a16 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -226,6 +226,9 @@ def read_set(f, params_map):
         line = f.readline()
         if line.startswith("$") or line == "":
             break
+        if line.startswith("!"):
+            # comments
+            continue
         set_ids += [int(k) for k in line.split()]
     f.seek(last_pos)
 
-- 
2.43.0


From 95db789d0f29386afa96d18fccca2644d1a2e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:50 +0000
Subject: [PATCH 139/141] fix: print messages which contain square brackets as
 they are

Names and paths in messages were taken for console markup: reading a broken
file 'x[/b].vtu' raised MarkupError instead of ReadError.
---
 src/meshio/_common.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index cdf63ad..7157a04 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -5,6 +5,7 @@ from xml.etree import ElementTree as ET
 
 import numpy as np
 from rich.console import Console
+from rich.markup import escape
 
 # See <https://github.com/nschloe/meshio/wiki/Node-ordering-in-cells> for the node
 # ordering.
@@ -139,18 +140,20 @@ def _pick_first_int_data(data, is_point_data=False):
 
 
 def info(string, highlight: bool = True) -> None:
-    Console(stderr=True).print(f"[bold]Info:[/bold] {string}", highlight=highlight)
+    Console(stderr=True).print(
+        f"[bold]Info:[/bold] {escape(string)}", highlight=highlight
+    )
 
 
 def warn(string, highlight: bool = True) -> None:
     Console(stderr=True).print(
-        f"[yellow][bold]Warning:[/bold] {string}[/yellow]", highlight=highlight
+        f"[yellow][bold]Warning:[/bold] {escape(string)}[/yellow]", highlight=highlight
     )
 
 
 def error(string, highlight: bool = True) -> None:
     Console(stderr=True).print(
-        f"[red][bold]Error:[/bold] {string}[/red]", highlight=highlight
+        f"[red][bold]Error:[/bold] {escape(string)}[/red]", highlight=highlight
     )
 
 
-- 
2.43.0


From a1c89f2c54416f8b099e4397985cd387feb9cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:20 +0000
Subject: [PATCH 140/141] fix: don't register an XML namespace process-wide
 when writing XDMF

The prefix was registered for a namespace no file contains.
---
 src/meshio/xdmf/main.py        | 2 --
 src/meshio/xdmf/time_series.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 22b7c18..68a395f 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -377,8 +377,6 @@ class XdmfWriter:
         self.write_point_data(mesh.point_data, grid)
         self.write_cell_data(mesh.cell_data, grid)
 
-        ET.register_namespace("xi", "https://www.w3.org/2001/XInclude/")
-
         write_xml(self.filename, xdmf_file)
 
     def numpy_to_xml_string(self, data):
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 36fa4f8..3b5dfd8 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -258,8 +258,6 @@ class TimeSeriesWriter:
             CollectionType="Temporal",
         )
 
-        ET.register_namespace("xi", "https://www.w3.org/2001/XInclude/")
-
         self.has_mesh = False
         self.mesh_name = "mesh"
 
-- 
2.43.0


From 6b3d38cce89f10104db54e9a018ba077c93481f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:47 +0000
Subject: [PATCH 141/141] fix: don't wrap large index numbers in Netgen files

They were squeezed through 32-bit integers: 2**32 + 5 was written as 5.
---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 36ee8aa..a471a05 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -190,7 +190,7 @@ def _write_cells(f, cell_block, index=None):
     col2 = col1 + len(pmap)
     col3 = col2 + len(post_data)
 
-    pi = np.zeros((len(cell_block), col3), dtype=np.int32)
+    pi = np.zeros((len(cell_block), col3), dtype=np.int64)
     pi[:, :col1] = np.repeat([pre_data], len(cell_block), axis=0)
     pi[:, col1:col2] = cell_block.data[:, pmap] + 1
     pi[:, col2:] = np.repeat([post_data], len(cell_block), axis=0)
-- 
2.43.0

