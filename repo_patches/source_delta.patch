From 62287d07dad9d74aab9166147532a471abf21d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 01/14] fix: Geom2D.buffer deleted pieces that lie in a hole of
 another piece

---
 plycutter/geometry/impl2d/geom2d_simple_holes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/plycutter/geometry/impl2d/geom2d_simple_holes.py b/plycutter/geometry/impl2d/geom2d_simple_holes.py
index fe6eff9..306c615 100644
--- a/plycutter/geometry/impl2d/geom2d_simple_holes.py
+++ b/plycutter/geometry/impl2d/geom2d_simple_holes.py
@@ -314,8 +314,12 @@ class Geom2D_Py_Simple_Holes(geom2dbase.Geom2DBase):
             return self
         amount = FractionFromExact(amount)
         buf = buffer_of_size(abs(amount))
-        res = self._minkowski_convex_op(
-            buf, 1 if amount > 0 else -1)
+        sign = 1 if amount > 0 else -1
+        # Piece by piece: the hole of one piece may contain another piece
+        res = union_tree([
+            polygon._minkowski_convex_op(buf, sign)
+            for polygon in self.polygons()
+        ])
         oplogger.debug('done')
         return res
 
-- 
2.43.0


From 5432963215ceb6e5389f2fa7bac7775161bf3049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 02/14] fix: SheetPlex.limit raised AttributeError on every
 sheetplex with intersections

---
 plycutter/sheetplex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 84c7afb..0060c44 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -83,7 +83,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
                 for inter_id, inter
                 in self.intersections.items()
                 if inter.sides[0].sheet in sheet_ids
-                and iter.sides[1].sheet in sheet_ids
+                and inter.sides[1].sheet in sheet_ids
             })
         )
 
-- 
2.43.0


From 50a9bef6c53525d29baeb0faa305dd371d74e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 03/14] fix: no joints were made in parts of a model more than
 1000 units from its origin

---
 plycutter/sheetbuild.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/plycutter/sheetbuild.py b/plycutter/sheetbuild.py
index 89ddf10..3d6788a 100644
--- a/plycutter/sheetbuild.py
+++ b/plycutter/sheetbuild.py
@@ -23,7 +23,7 @@ import pyrsistent as pyr
 import logging
 
 from .misc import Autocompletable
-from .plytypes import fastr, F, Fraction
+from .plytypes import fastr, F
 from .geometry.geom1d import Geom1D
 
 logger = logging.getLogger(__name__)
@@ -252,12 +252,15 @@ def create_sheetbuild(sp, params):
     interside_chosen = {interside.id: Geom1D.empty()
                         for interside in sp.intersides()}
 
-    interside_ok = {interside.id:
-                    interside.project_to_1d(
-                        sheet_ok[interside.sheet] &
-                        sp.sheets[interside.sheet].slices_max &
-                        interside.make_fingers(
-                            Geom1D([[Fraction(-1000), Fraction(1000)]])))
+    def possible_along(interside):
+        material = (sheet_ok[interside.sheet] &
+                    sp.sheets[interside.sheet].slices_max)
+        # All along the joint, wherever the model lies in its coordinates
+        whole_joint = interside.project_to_1d(material).buffer(1)
+        return interside.project_to_1d(
+            material & interside.make_fingers(whole_joint))
+
+    interside_ok = {interside.id: possible_along(interside)
                     for interside in sp.intersides()}
 
     for interside in sp.intersides():
-- 
2.43.0


From c69e09db13c2603e5aeae43eae5eb54f4537b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 04/14] fix: write_dxf placed every sheet after an empty one at
 NaN coordinates

---
 plycutter/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plycutter/writer.py b/plycutter/writer.py
index 3c61c3d..8c59bdc 100644
--- a/plycutter/writer.py
+++ b/plycutter/writer.py
@@ -32,6 +32,10 @@ def write_dxf(filename, geom2ds):
     for name, geom in geom2ds.items():
         print(name)
 
+        if geom.is_empty():
+            # Nothing to draw, and no bounding box
+            continue
+
         aabb = AABB()
 
         for polygon in geom.polygons():
-- 
2.43.0


From d0ef6e3ad5388654514baed84c957e9beda2360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 05/14] fix: canned_1 hid the exception of a failing step
 behind KeyError or UnboundLocalError

---
 plycutter/canned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plycutter/canned.py b/plycutter/canned.py
index f541bf7..c01cdb0 100644
--- a/plycutter/canned.py
+++ b/plycutter/canned.py
@@ -37,6 +37,7 @@ def canned_1(sheetplex, params, show=False):
     global sb_log
     sb_log = []
     ok = False
+    sb = None
     try:
         sp = sheetplex
         logger.info("Create sheetbuild")
@@ -79,7 +80,7 @@ def canned_1(sheetplex, params, show=False):
 
     except Exception as e:
         logger.error('Exception in canned_1: %s', e, exc_info=True)
-        if not params['return_on_failure']:
+        if sb is None or not params.get('return_on_failure'):
             raise
 
     return argparse.Namespace(
-- 
2.43.0


From ece078d771421a5dd11123f2058e2b4c0f08d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 06/14] fix: random_min_max failed on rounding when the finger
 widths were forced

---
 plycutter/heuristics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index fd18b6a..6406baf 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -416,7 +416,9 @@ def random_min_max(n, mn, mx, total, rng):
         low = max(at_min, mn)
         hi = min(at_most, mx)
         # logger.debug(low, hi)
-        assert low <= hi
+        # Rounding may make the range of a forced length slightly negative
+        assert low <= hi + 1e-8
+        hi = max(low, hi)
         cur = rng.uniform(low, hi)
         # logger.debug(cur)
         lengths[i] = cur
-- 
2.43.0


From 51f3f1f45d10d56cd07425a2ac5b7a98bffbd59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 07/14] fix: the same input and random seed gave different
 parts in every process

---
 plycutter/command_line.py     |  2 +-
 plycutter/create_sheetplex.py |  3 ++-
 plycutter/heuristics.py       | 12 ++++++------
 plycutter/sheetplex.py        |  2 +-
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/plycutter/command_line.py b/plycutter/command_line.py
index fc3a9da..4c5a175 100644
--- a/plycutter/command_line.py
+++ b/plycutter/command_line.py
@@ -96,7 +96,7 @@ def main(arguments=sys.argv[1:]):
 
     to_write_dilated = {
         k: v.buffer(args.final_dilation)
-        for k, v in to_write.items()
+        for k, v in sorted(to_write.items())
     }
     print(to_write_dilated)
 
diff --git a/plycutter/create_sheetplex.py b/plycutter/create_sheetplex.py
index 52d64cf..fd48a0c 100644
--- a/plycutter/create_sheetplex.py
+++ b/plycutter/create_sheetplex.py
@@ -297,7 +297,8 @@ def find_all_facets(mesh):
 
 
 def create_intersections(sp):
-    sheets = list(sp.sheets.values())
+    # In the order of ids: that of the map depends on string hash seeds
+    sheets = [sheet for _, sheet in sorted(sp.sheets.items())]
     for i, sheet0 in enumerate(sheets):
         for sheet1 in sheets[i+1:]:
             sp = create_intersection(sp, (sheet0, sheet1))
diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index 6406baf..112991f 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -152,7 +152,7 @@ def _find_interactions(sb):
 
     interactions = collections.defaultdict(lambda: [])
 
-    for sheet in sp.sheets.values():
+    for _, sheet in sorted(sp.sheets.items()):
         intersides = list(sp.intersides(sheet.id))
         for i, i_interside in enumerate(intersides):
             i_fingers = i_interside.make_fingers(
@@ -258,7 +258,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
     for cluster in clusters.values():
         logger.debug('CLUSTER', cluster)
         intersections = [sp.intersections[intersection_id]
-                         for intersection_id in cluster.keys()]
+                         for intersection_id in sorted(cluster.keys())]
 
         sheet_ids = set()
         intersides_by_sheet = collections.defaultdict(lambda: [])
@@ -268,7 +268,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
                 sheet_ids.add(interside.sheet)
                 intersides_by_sheet[interside.sheet].append(interside)
 
-        sheets = [sp.sheets[sheet_id] for sheet_id in sheet_ids]
+        sheets = [sp.sheets[sheet_id] for sheet_id in sorted(sheet_ids)]
 
         eps = F(2, 10)
         min_finger = 3
@@ -355,7 +355,7 @@ def heuristic_multi_inter_single_decisions(sb, params=None):  # noqa
 
         # Unchoose all other intersides
 
-        for other_intersection_id, rnge in cluster.items():
+        for other_intersection_id, rnge in sorted(cluster.items()):
             other_intersection = sp.intersections[other_intersection_id]
             for side in other_intersection.sides:
                 if side.sheet != sheets[choice].id:
@@ -379,7 +379,7 @@ def choose_the_ok_side(sb, params=None):
     sb.check()
 
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         for interside in intersection.sides:
             this_only = sb.interside_ok[interside.id]
             this_only -= sb.interside_chosen[interside.id]
@@ -444,7 +444,7 @@ def single_fingers_random(sb, params=None):
     # XXX Assert that there are no multiple intersections
     # any more
     sp = sb.sheetplex
-    for intersection in sp.intersections.values():
+    for _, intersection in sorted(sp.intersections.items()):
         sides = intersection.sides
         assert len(sides) == 2
         # At this point, everything left should be
diff --git a/plycutter/sheetplex.py b/plycutter/sheetplex.py
index 0060c44..0b7c201 100644
--- a/plycutter/sheetplex.py
+++ b/plycutter/sheetplex.py
@@ -65,7 +65,7 @@ class SheetPlex(pyr.PRecord, Autocompletable):
 
     def intersides(self, sheet_id=None):
         """Return an iterator for intersides of a particular sheet or all"""
-        for intersection in self.intersections.values():
+        for _, intersection in sorted(self.intersections.items()):
             for side in intersection.sides:
                 if sheet_id is None or side.sheet == sheet_id:
                     yield side
-- 
2.43.0


From 1480b5e8320dbd6fb9162cc1bca962ff4d62c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 08/14] fix: set operations failed on holes of an island inside
 a hole, by merge order

---
 plycutter/geometry/impl2d/arrangement2d.py | 60 ++++++++++------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/plycutter/geometry/impl2d/arrangement2d.py b/plycutter/geometry/impl2d/arrangement2d.py
index b1600ef..8b96ca9 100644
--- a/plycutter/geometry/impl2d/arrangement2d.py
+++ b/plycutter/geometry/impl2d/arrangement2d.py
@@ -850,39 +850,35 @@ class SegmentArrangement:
                 outer = pos_original_cell[container]
                 pos_negatives[outer].add(negative)
         else:
-            for negative in negatives:
-                # print('NEG', fstr(negative,
-                #    cells_originals[negative], approx=True))
-                # All the originals should be in the same outer cell
-                outer = None
+            # Original cell -> the positive merged cell it belongs to.
+            # Originals may be left only on the rim of a hole if they
+            # were merged after the hole became separate
+            original_outer = {**pos_original_cell}
+
+            def direct_outer(negative):
+                for orig in cells_originals[negative]:
+                    if orig in pos_original_cell:
+                        return pos_original_cell[orig]
+                return None
+
+            # First the holes that were merged with their outer cell,
+            # then the others, outermost first
+            def order(negative):
+                return (direct_outer(negative) is None,
+                        min(self.cells[orig].count_from_outside
+                            for orig in cells_originals[negative]))
+
+            for negative in sorted(negatives, key=order):
+                outer = direct_outer(negative)
+                if outer is None:
+                    # Traverse outwards
+                    cur = cells_originals[negative][0]
+                    while cur is not None and cur not in original_outer:
+                        cur = self.cells[cur].container
+                    outer = original_outer.get(cur, None)
+
                 for orig in cells_originals[negative]:
-                    opos = pos_original_cell.get(orig, None)
-                    # print('OPOS', fstr(opos, approx=True))
-                    # For negative cells, get the container
-                    if opos is None:
-                        # Traverse outwards
-                        cur = orig
-                        while True:
-                            cur = self.cells[cur].container
-                            # print('Trav', fstr(cur, approx=True))
-                            if cur is None:
-                                # This happens if there is an outer
-                                # ring in two parts
-                                break
-                            opos = pos_original_cell.get(cur, None)
-                            # print('TravO', fastr(opos))
-                            if opos is not None:
-                                break
-
-                        # ocell = self.cells[cur]
-                        # if ocell.negative:
-                        #    ocell = ocell.container
-                        #    opos = pos_original_cell.get(ocell, None)
-                    if opos is not None:
-                        if outer is not None:
-                            assert outer == opos
-                        else:
-                            outer = opos
+                    original_outer.setdefault(orig, outer)
 
                 global locs
                 locs = locals()
-- 
2.43.0


From c041c35b41154893625035e9dbb715fa2be826b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 09/14] fix: set operations failed when an island was filled in
 while its group was being split

CellMergerSlow.add_cell passed the originals of an annihilated pair of
cells on to the other cells of their groups, but not to those still
waiting to be added, and check() then failed; whether it happened
depended on the order in which the cells were merged.
---
 plycutter/geometry/impl2d/cell_merger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plycutter/geometry/impl2d/cell_merger.py b/plycutter/geometry/impl2d/cell_merger.py
index c812e45..87c9aba 100644
--- a/plycutter/geometry/impl2d/cell_merger.py
+++ b/plycutter/geometry/impl2d/cell_merger.py
@@ -133,7 +133,9 @@ class CellMergerSlow:
                         assert len(set(cell.origs) & set(other.origs)) == 0
                         orig_cells = set(cell.origs) | set(other.origs)
                         saved = False
-                        for outside_cell in self.cells:
+                        # Other parts of the same groups may still be
+                        # waiting in to_add
+                        for outside_cell in [*self.cells, *to_add]:
                             if set(outside_cell.origs) & orig_cells:
                                 # Changes the value inside the obj
                                 # --> the list above is ok
-- 
2.43.0


From f15f5924b82ad37440c395c3a0dc3f0f4b29690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:47 +0000
Subject: [PATCH 10/14] fix: single_fingers_random ignored the parity that the
 ends of a stretch need

---
 plycutter/heuristics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plycutter/heuristics.py b/plycutter/heuristics.py
index 112991f..9a4df50 100644
--- a/plycutter/heuristics.py
+++ b/plycutter/heuristics.py
@@ -494,9 +494,10 @@ def single_fingers_random(sb, params=None):
             preferred_min = 5
 
             if n_min < preferred_min:
-                n_min = min(preferred_min, n_max)
+                # n_min must stay odd or even
+                n_min = min(preferred_min + (n_min + 1) % 2, n_max)
 
-            n = rng.randint(n_min, n_max + 1)
+            n = n_min + 2 * rng.randint(0, (n_max - n_min) // 2 + 1)
 
             locations = random_min_max(
                 n, min_width, max_width, end - start, rng)
-- 
2.43.0


From e876b538896e4c76c8324154103a7e7d93a84c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:28 +0000
Subject: [PATCH 11/14] fix: faces across a joint near an edge are no wrong
 thickness setting

---
 plycutter/create_sheetplex.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/plycutter/create_sheetplex.py b/plycutter/create_sheetplex.py
index fd48a0c..a2a2896 100644
--- a/plycutter/create_sheetplex.py
+++ b/plycutter/create_sheetplex.py
@@ -88,6 +88,10 @@ def create_sheets(mesh,  # noqa XXX Too complex function
 
     n_slices = 3
 
+    # Facets that cannot be sides of sheets, and the planes of all sheets
+    no_slice = []
+    planes = []
+
     for facet in facet_order:
         if facet in todo_facets:
             todo_facets.remove(facet)
@@ -115,10 +119,10 @@ def create_sheets(mesh,  # noqa XXX Too complex function
                 for sl in slices[0:2]]
             slices = slices[2:]
 
-            for sl in slices:
-                assert sl is not None, (
-                    "Null slice - wrong thickness setting?",
-                    normal, offset)
+            if any(sl is None for sl in slices):
+                # Cannot be a side of a sheet
+                no_slice.append((facet, normal, offset))
+                continue
 
             slice_rotation = slices[0].metadata['to_3D'].copy()
             # Remove translation
@@ -149,6 +153,7 @@ def create_sheets(mesh,  # noqa XXX Too complex function
             idx += 1
 
             logger.debug(f'Adding sheet {id}')
+            planes.append((normal, offset))
 
             # Find area supported by actual faces
 
@@ -184,6 +189,16 @@ def create_sheets(mesh,  # noqa XXX Too complex function
                 slices_min=slices_min
             )
 
+    # They must be where the sheets are, for example across a joint
+    for facet, normal, offset in no_slice:
+        for v in np.unique(all_facets.boundaries[facet]):
+            assert any(o - thickness - offset_tolerance
+                       <= np.dot(mesh.vertices[v], n)
+                       <= o + offset_tolerance
+                       for n, o in planes), (
+                "Null slice - wrong thickness setting?",
+                normal, offset)
+
     return sheets
 
 
-- 
2.43.0


From 5206177e94e98fb3dd750f94a6337ef3be632060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 12/14] fix: keep facets inside of a slab that turns out to be
 no sheet

A plate narrower than it is thick lies within the slab below its own
side, and was dropped when that side was looked at first.
---
 plycutter/create_sheetplex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plycutter/create_sheetplex.py b/plycutter/create_sheetplex.py
index a2a2896..04e0ef5 100644
--- a/plycutter/create_sheetplex.py
+++ b/plycutter/create_sheetplex.py
@@ -147,6 +147,8 @@ def create_sheets(mesh,  # noqa XXX Too complex function
                                    normal_tolerance, offset_tolerance)
             if len(opposed) == 0:
                 logger.debug('Skipping one at %s, no opposed facets', idx)
+                # Not inside of a sheet, may be sides of one
+                todo_facets.update(within)
                 continue
 
             id = 's%d' % idx
-- 
2.43.0


From adba5a0fab890c357d61141fc34a6fe43b127d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 13/14] fix: fstr and fastr of a Geom1D raised TypeError

fastr passes approximate=True on to __fstr__, which passed it on to fastr
again; a Geom1D inside another value could not be printed.
---
 plycutter/geometry/geom1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plycutter/geometry/geom1d.py b/plycutter/geometry/geom1d.py
index d4bcb04..4fe2f97 100644
--- a/plycutter/geometry/geom1d.py
+++ b/plycutter/geometry/geom1d.py
@@ -19,7 +19,7 @@
 import math
 
 from ..plytypes import FractionFromExact, \
-    FractionFromExactOrInf, fastr
+    FractionFromExactOrInf, fastr, fstr
 
 
 class Geom1D:
@@ -122,7 +122,7 @@ class Geom1D:
                                           for interval in self.intervals]))
 
     def __fstr__(self, **args):
-        return "Geom1D(%s)" % (", ".join([fastr(interval, **args)
+        return "Geom1D(%s)" % (", ".join([fstr(interval, **args)
                                           for interval in self.intervals]))
 
     def get_intervals(self):
-- 
2.43.0


From befdacf259f8ef038c0f6c12af96d68a2486d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:35 +0000
Subject: [PATCH 14/14] fix: set operations failed when the cells along a hole
 were merged after it was separate

---
 plycutter/geometry/impl2d/arrangement2d.py | 33 +++++++++-------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/plycutter/geometry/impl2d/arrangement2d.py b/plycutter/geometry/impl2d/arrangement2d.py
index 8b96ca9..06e2a82 100644
--- a/plycutter/geometry/impl2d/arrangement2d.py
+++ b/plycutter/geometry/impl2d/arrangement2d.py
@@ -850,35 +850,28 @@ class SegmentArrangement:
                 outer = pos_original_cell[container]
                 pos_negatives[outer].add(negative)
         else:
-            # Original cell -> the positive merged cell it belongs to.
-            # Originals may be left only on the rim of a hole if they
-            # were merged after the hole became separate
-            original_outer = {**pos_original_cell}
-
             def direct_outer(negative):
                 for orig in cells_originals[negative]:
                     if orig in pos_original_cell:
                         return pos_original_cell[orig]
                 return None
 
-            # First the holes that were merged with their outer cell,
-            # then the others, outermost first
-            def order(negative):
-                return (direct_outer(negative) is None,
-                        min(self.cells[orig].count_from_outside
-                            for orig in cells_originals[negative]))
+            def surrounding_outer(negative):
+                # There is material along the hole, so the middle of an
+                # edge is strictly inside of its outer cell. There may be
+                # others around that one.
+                mid = tuple((NP(negative[0]) + negative[1]) / 2)
+                return min((positive for positive in positives
+                            if locate_point_polygon_winding_number(
+                                positive, mid) > 0),
+                           key=simple_polygon_area, default=None)
 
-            for negative in sorted(negatives, key=order):
+            for negative in negatives:
                 outer = direct_outer(negative)
                 if outer is None:
-                    # Traverse outwards
-                    cur = cells_originals[negative][0]
-                    while cur is not None and cur not in original_outer:
-                        cur = self.cells[cur].container
-                    outer = original_outer.get(cur, None)
-
-                for orig in cells_originals[negative]:
-                    original_outer.setdefault(orig, outer)
+                    # All original cells along the outer cell were merged
+                    # when the hole was already separate
+                    outer = surrounding_outer(negative)
 
                 global locs
                 locs = locals()
-- 
2.43.0

