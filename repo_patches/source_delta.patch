From 101003d276c89a066afd323ba4a9995a390cad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 01/22] fix: map the periodic average into the limits of the
 coordinate system

---
 nodefinder/coordinate_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index 3291463..c6e4a69 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -100,7 +100,9 @@ class CoordinateSystem(SimpleHDF5Mapping):
         else:
             origin = positions[0]
             deltas = [self.connecting_vector(origin, pos) for pos in positions]
-            return (origin + np.average(deltas, axis=0)) % self.size
+            return self.normalize_position(
+                origin + np.average(deltas, axis=0)
+            )
 
     def normalize_position(self, pos):
         """
-- 
2.43.0


From a37786235a30632824102726eb491b4fb8366488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 02/22] fix: scale the connecting_vector sanity check with the
 size of the box

---
 nodefinder/coordinate_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index c6e4a69..4c00546 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -88,7 +88,10 @@ class CoordinateSystem(SimpleHDF5Mapping):
             delta = (pos2 - pos1) % self.size
             delta_negative = delta - self.size
             res = np.where(-delta_negative < delta, delta_negative, delta)
-            assert np.all(self.distance((res + pos1), pos2) < 1e-8)
+            assert np.all(
+                self.distance((res + pos1), pos2) <
+                1e-8 * max(1, la.norm(self.size))
+            )
             return res
 
     def average(self, positions):
-- 
2.43.0


From 76f007b0d923504954ee87708a5e1a85f12f8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 03/22] fix: queue objects given more than once in a single
 batch only once

---
 nodefinder/search/_queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 549816c..46498b7 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -23,7 +23,7 @@ class ObjectQueue(HDF5Enabled, ABC):
     HDF5_ATTRIBUTES = ['objects']
 
     def __init__(self, objects=frozenset()):
-        all_objects = self.normalize(objects)
+        all_objects = list(dict.fromkeys(self.normalize(objects)))
         self._queued_objects = Queue()
         self._extend_queue(all_objects)
 
@@ -45,7 +45,7 @@ class ObjectQueue(HDF5Enabled, ABC):
         """
         Add new objects to the queue.
         """
-        new_objects = self.normalize(objects)
+        new_objects = dict.fromkeys(self.normalize(objects))
         new_objects_filtered = [
             obj for obj in new_objects if obj not in self._all_objects
         ]
-- 
2.43.0


From 4fdd8137b1a482f8b35451072089f18734c09733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 04/22] fix: visit each neighbouring cell only once for small
 periodic cell lists

---
 nodefinder/search/result/_cell_list.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 1d6c232..89b95fd 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -50,7 +50,13 @@ class CellList:
         indices = idx + self._neighbour_offset
 
         if self.periodic:
-            return [tuple(i % self._total_num_cells) for i in indices]
+            # With less than three cells in a direction, different offsets can
+            # point to the same cell.
+            return list(
+                dict.fromkeys(
+                    tuple(i % self._total_num_cells) for i in indices
+                )
+            )
         return [
             tuple(i) for i in indices
             if np.all(i >= 0) and np.all(i < self._total_num_cells)
-- 
2.43.0


From d32bd3431a318facc28e5e1b0548cad738127bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 05/22] fix: wrap periodic cell indices for fractional
 coordinates rounded to one

---
 nodefinder/search/result/_cell_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 89b95fd..7f77047 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -72,6 +72,9 @@ class CellList:
         if not self.periodic:
             vals += 1
             vals = np.maximum(0, np.minimum(vals, self._total_num_cells - 1))  # pylint: disable=assignment-from-no-return,useless-suppression
+        else:
+            # the fractional coordinate can be rounded up to exactly one
+            vals %= self._total_num_cells
         return tuple(vals)
 
     def values(self):
-- 
2.43.0


From 12230559d34e5ac59179363640038aa3ed69590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 06/22] fix: mark the search result as unsaved when a
 minimization result is added

---
 nodefinder/search/result/_search_result_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_search_result_container.py b/nodefinder/search/result/_search_result_container.py
index 75ee09d..ec5667f 100644
--- a/nodefinder/search/result/_search_result_container.py
+++ b/nodefinder/search/result/_search_result_container.py
@@ -96,6 +96,7 @@ class SearchResultContainer(SimpleHDF5Mapping):
         res : MinimizationResult
             Minimization result to add.
         """
+        self.needs_saving = True
         res.pos = self.coordinate_system.normalize_position(res.pos)
         if not res.success or res.value > self.gap_threshold:  # pylint: disable=no-else-return
             self.rejected_results.append(res)
@@ -103,7 +104,6 @@ class SearchResultContainer(SimpleHDF5Mapping):
         else:
             self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)
             return True
-        self.needs_saving = True
 
     def set_refined(self, pos):
         """
-- 
2.43.0


From fc0baa6f10ada3b8771635aa841d90496b80c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 07/22] fix: determine the default feature_size after unpacking
 a ControllerState

---
 nodefinder/identify/_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/_run.py b/nodefinder/identify/_run.py
index 233b13a..1ab7379 100644
--- a/nodefinder/identify/_run.py
+++ b/nodefinder/identify/_run.py
@@ -30,10 +30,10 @@ def run(result, feature_size=None, evaluate_line_method='ballistic'):
         Distance between two nodal points at which they are considered distinct.
         Uses the ``feature_size`` used in the search step by default.
     """
-    if feature_size is None:
-        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     if isinstance(result, ControllerState):
         result = result.result
+    if feature_size is None:
+        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     positions = [node.pos for node in result.nodes]
     coordinate_system = result.coordinate_system
     return run_from_positions(
-- 
2.43.0


From 9fa715fb4c401c52e3a97ee93c795933f86dc7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 08/22] fix: convert neighbour tuples to a sequence before
 sampling from them

---
 nodefinder/identify/_dimension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index e87d207..70232eb 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -155,7 +155,7 @@ def _has_dimension(
         num_draws = 10
         while neighbour_tuples:
             vals = random.sample(
-                neighbour_tuples, min(num_draws, len(neighbour_tuples))
+                tuple(neighbour_tuples), min(num_draws, len(neighbour_tuples))
             )
             yield from vals
             neighbour_tuples -= set(vals)
-- 
2.43.0


From 4afa19f79e2147c63f78c4fd13cd762d8c597cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 09/22] fix: evaluate all positions if min_pos_evaluations is
 None

---
 nodefinder/identify/_dimension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index 70232eb..ab5ca79 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -56,7 +56,7 @@ def calculate_dimension(
 
     dim_counter = Counter()
     for i, pos in enumerate(positions_to_evaluate):
-        if i >= min_pos_evaluations:
+        if min_pos_evaluations is not None and i >= min_pos_evaluations:
             finished, dim = _check_count(dim_counter)
             if finished:
                 return dim
-- 
2.43.0


From ac7b37c2144a8f24036fb5345661eaa9f8ebabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 10/22] fix: load identification results with h5py versions
 raising TypeError for groups

---
 nodefinder/identify/result/_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 22b5062..9cbf4a9 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -83,10 +83,10 @@ class IdentificationResult(SimpleNamespace, HDF5Enabled):
         shape = from_hdf5(hdf5_handle['shape'])
         try:
             dimension = hdf5_handle['dimension'][()]
-        except AttributeError:
+        except (AttributeError, TypeError):
             dimension = from_hdf5(hdf5_handle['dimension'])
         try:
             positions = [tuple(x) for x in hdf5_handle['positions'][()]]
-        except AttributeError:
+        except (AttributeError, TypeError):
             positions = from_hdf5(hdf5_handle['positions'])
         return cls(positions=positions, dimension=dimension, shape=shape)
-- 
2.43.0


From d22fa5cb089d8102b7826ee094f4f4df57cc1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 11/22] fix: keep the edge weights in the dominating set
 subgraph

---
 nodefinder/identify/_evaluate/_line/_dominating_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6da810d..b79c432 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -36,7 +36,8 @@ def _evaluate_line_dominating_set(*, graph, coordinate_system, feature_size):
             graph_reduced_neighbours.add_edge(*edge)
 
     dominating_set = nx.algorithms.dominating_set(graph_reduced_neighbours)
-    subgraph = graph.subgraph(dominating_set).copy()
+    # the edge weights are defined only on the copy of the graph
+    subgraph = graph_copy.subgraph(dominating_set).copy()
 
     _patch_all_subgraph_holes(
         subgraph=subgraph,
-- 
2.43.0


From b38c247f87ed09fdd0d7b352e90388373c77ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 12/22] fix: patch disconnected parts of the dominating set
 subgraph

---
 .../identify/_evaluate/_line/_dominating_set.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index b79c432..c77b721 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -77,7 +77,7 @@ def _patch_all_subgraph_holes(
             np.array(pos1), np.array(pos2)
         )
         if dist_minimal < 2 * feature_size:
-            dist_reduced = nx.algorithms.shortest_path_length(
+            dist_reduced = _get_path_length(
                 subgraph, pos1, pos2, weight=weight
             )
             if dist_reduced > max(feature_size, patch_cutoff * dist_minimal):
@@ -94,7 +94,7 @@ def _patch_all_subgraph_holes(
     to_patch = sorted(to_patch, key=operator.attrgetter('dist_original'))
     for edge, dist_original in to_patch:
         # might have changed since the subgraph is being patched
-        dist_reduced = nx.algorithms.shortest_path_length(
+        dist_reduced = _get_path_length(
             subgraph, *edge, weight=_DISTANCE_KEY
         )
         if dist_reduced > 2 * dist_original:
@@ -107,6 +107,19 @@ def _patch_all_subgraph_holes(
             )
 
 
+def _get_path_length(graph, source, target, *, weight):
+    """
+    Length of the shortest path between two nodes, which is infinite if the
+    nodes are not connected.
+    """
+    try:
+        return nx.algorithms.shortest_path_length(
+            graph, source, target, weight=weight
+        )
+    except nx.NetworkXNoPath:
+        return float('inf')
+
+
 def _patch_subgraph_hole(*, subgraph, graph, start, end):
     """
     Patch a single hole in the subgraph between the given start and end points.
-- 
2.43.0


From 3cf793ae81563ca3b30050df6e0d799e9d151fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 13/22] fix: stop the ballistic line search at nodes without
 distinct neighbours

---
 nodefinder/identify/_evaluate/_line/_ballistic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nodefinder/identify/_evaluate/_line/_ballistic.py b/nodefinder/identify/_evaluate/_line/_ballistic.py
index c0998e4..5104368 100644
--- a/nodefinder/identify/_evaluate/_line/_ballistic.py
+++ b/nodefinder/identify/_evaluate/_line/_ballistic.py
@@ -110,7 +110,6 @@ class _BallisticLineImpl:
                     "Loop search finished -- no more nodes in given direction. Current node: %s, direction: %s",
                     node, previous_direction
                 )
-                assert previous_direction is not None
                 break
             if new_node in self.result_graph:
                 if on_graph:
-- 
2.43.0


From 12497a2907a889bf3b6d12696d1e37fc9ef500a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 14/22] fix: decode the message when loading a minimization
 result

---
 nodefinder/search/result/_minimization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index cd1ec82..f7db858 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -103,9 +103,13 @@ class MinimizationResult(SimpleNamespace, HDF5Enabled):
 
     @classmethod
     def from_hdf5(cls, hdf5_handle):
+        kwargs = {
+            key: val[()]
+            for key, val in hdf5_handle.items() if key != 'type_tag'
+        }
         return cls(
             **{
-                key: val[()]
-                for key, val in hdf5_handle.items() if key != 'type_tag'
+                key: val.decode() if isinstance(val, bytes) else val
+                for key, val in kwargs.items()
             }
         )
-- 
2.43.0


From 40fce0180b0c6889b65b321782ffefa976e2f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 15/22] fix: allow copying and pickling joined minimization
 results

---
 nodefinder/search/result/_minimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index f7db858..4b1d1ec 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -51,6 +51,9 @@ class JoinedMinimizationResult(SimpleHDF5Mapping):
         Joins child and ancestor values where that makes sense, and returns the
         child value otherwise.
         """
+        # not set yet, for example when creating a copy
+        if key in self.HDF5_ATTRIBUTES:
+            raise AttributeError(key)
         if key in self.JOIN_KEYS:
             return self._join(
                 getattr(self.ancestor, key), getattr(self.child, key)
-- 
2.43.0


From ee68cd85b689050b197b460f50d67937b1a26cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 16/22] fix: do not wait for a result if the search thread was
 cancelled or exited

---
 nodefinder/search/_run.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 32d7c54..04a55e0 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -189,9 +189,11 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     try:
         loop = asyncio.new_event_loop()
-        res = loop.run_until_complete(run_async(*args, **kwargs))
-        loop.close()
+        try:
+            res = loop.run_until_complete(run_async(*args, **kwargs))
+        finally:
+            loop.close()
         res_queue.put(res)
-    except Exception as exc:
+    except BaseException as exc:
         exc_queue.put(exc)
         raise
-- 
2.43.0


From a11a01fefe59af0a9099467b6698744c1dc9b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 17/22] fix: find neighbours across non-periodic directions
 smaller than the cutoff

---
 nodefinder/search/result/_cell_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 7f77047..782c9dc 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -72,6 +72,9 @@ class CellList:
         if not self.periodic:
             vals += 1
             vals = np.maximum(0, np.minimum(vals, self._total_num_cells - 1))  # pylint: disable=assignment-from-no-return,useless-suppression
+            # A single cell can be smaller than the cutoff, so the boundary
+            # boxes on either side of it are not necessarily separated.
+            vals = np.where(self.num_cells == 1, 1, vals)
         else:
             # the fractional coordinate can be rounded up to exactly one
             vals %= self._total_num_cells
-- 
2.43.0


From 1788ff737e0d8d77e4b9c1d5f3b449474c76eaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 18/22] fix: leave queued positions alone if there is no
 refinement stencil

---
 nodefinder/search/_controller.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index f504854..117ddcb 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -188,6 +188,17 @@ class Controller:
     async def run(self):
         await self.create_tasks()
 
+    @property
+    def _has_queued_positions(self):
+        """
+        Queued positions which can be refined. Without a refinement stencil,
+        positions loaded from the initial state remain in the queue.
+        """
+        return (
+            self.refinement_stencil is not None
+            and self.state.position_queue.has_queued
+        )
+
     async def create_tasks(self):
         """
         Create minimization tasks until the calculation is finished.
@@ -195,14 +206,14 @@ class Controller:
         async with PeriodicTask(self.save, delay=self.save_delay):
             while (
                 not self.state.simplex_queue.finished
-            ) or self.state.position_queue.has_queued:
+            ) or self._has_queued_positions:
                 # if (not self.state.simplex_queue.has_queued) and (self.state.position_queue.has_queued):
                 while (
                     self.state.simplex_queue.num_running <
                     self.num_minimize_parallel
                 ):
                     while not self.state.simplex_queue.has_queued:
-                        if self.state.position_queue.has_queued:
+                        if self._has_queued_positions:
                             pos = self.state.position_queue.pop_queued()
                             if (not self.recheck_pos_dist
                                 ) or self._check_pos_refinement(
-- 
2.43.0


From 99cb376e0a455119f4b734c7fd059ff1ca4687a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 19/22] fix: report the value of the best vertex if the
 function is NaN elsewhere

---
 nodefinder/search/_minimization/_nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index bafc0cb..9a9cee6 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -201,7 +201,7 @@ async def root_nelder_mead(
             simplex_history[0] = np.copy(sim)
 
     x = sim[0]
-    fval = np.min(fsim)
+    fval = fsim[0]
     warnflag = 0
 
     if fcalls[0] >= maxfun:
-- 
2.43.0


From 895e8eac2dd46183257e3f1ceb755953545c4a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 20/22] fix: do not truncate vertices when starting from an
 integer simplex

---
 nodefinder/search/_minimization/_nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index 9a9cee6..8d98c22 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -110,7 +110,7 @@ async def root_nelder_mead(
     sigma = 0.5
     one2np1 = list(range(1, N + 1))
 
-    sim = np.array(initial_simplex)
+    sim = np.array(initial_simplex, dtype=float)
     assert sim.shape == (N + 1, N)
 
     fsim = np.array(await asyncio.gather(*[func(x) for x in sim]), dtype=float)
-- 
2.43.0


From 5b02a47e1413c93903144b7e1eec3f01fea46fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 21/22] fix: mark the position queue as unsaved when a position
 is removed

---
 nodefinder/search/_queue.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 46498b7..d91a643 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -151,3 +151,11 @@ class PositionQueue(ObjectQueue):
     @staticmethod
     def normalize(objects):
         return [tuple(pos) for pos in objects]
+
+    def pop_queued(self):
+        """
+        Get a queued position, which is no longer part of the saved objects.
+        """
+        pos = super().pop_queued()
+        self.needs_saving = True
+        return pos
-- 
2.43.0


From 83e7a56a697dd2281e0f75ba750653c6044c4cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 22/22] fix: calculate_dimension with min_pos_evaluations=0
 looked for the majority among no positions

---
 nodefinder/identify/_dimension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index ab5ca79..a3e9ad4 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -56,7 +56,7 @@ def calculate_dimension(
 
     dim_counter = Counter()
     for i, pos in enumerate(positions_to_evaluate):
-        if min_pos_evaluations is not None and i >= min_pos_evaluations:
+        if min_pos_evaluations is not None and i >= max(min_pos_evaluations, 1):
             finished, dim = _check_count(dim_counter)
             if finished:
                 return dim
-- 
2.43.0

