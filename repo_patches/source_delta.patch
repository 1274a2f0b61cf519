From 39cacf2228ce5b272edd125d5176fd630692373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:40 +0000
Subject: [PATCH 01/49] fix: remove_edge drops the reverse index entry of the
 removed direction

Hard-removing an edge that exists in one direction only raised KeyError and
left the parent index inconsistent.
---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 9e22e05..21e2735 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -775,12 +775,12 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if u.id in self.edges and v.id in self.edges[u.id]:
             self._deleted_edges[u.id][v.id] = self.edges[u.id][v.id]
             del self.edges[u.id][v.id]
-            del self._reverse_edges[u.id][v.id]
+            del self._reverse_edges[v.id][u.id]
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self._deleted_edges[v.id][u.id] = self.edges[v.id][u.id]
             del self.edges[v.id][u.id]
-            del self._reverse_edges[v.id][u.id]
+            del self._reverse_edges[u.id][v.id]
 
     def restore_edge(self, u: Node, v: Node):
         """
-- 
2.43.0


From 8eecc0f4ef97a2f48bb07eaa0e2735c191808603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:38 +0000
Subject: [PATCH 02/49] fix: edge_value and edge_type return None when only the
 opposite direction exists

Both raised KeyError for an edge that exists as v -> u only, and returned the
data of a soft deleted direction.
---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 21e2735..2b389dd 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -178,7 +178,7 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if not self.edge_exists(u, v):
+        if not self.directed_edge_exists(u, v):
             return None
         return self.edges[u][v].metadata
 
@@ -195,7 +195,7 @@ class GraphBaseAccessMixin:
             u = u.id
         if isinstance(v, Node):
             v = v.id
-        if not self.edge_exists(u, v):
+        if not self.directed_edge_exists(u, v):
             return None
         return self.edges[u][v].edge_type
 
-- 
2.43.0


From 2b066aeb1f6b4a6b840dbce3d32e420b1f308ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:38 +0000
Subject: [PATCH 03/49] fix: restoring an edge brings back exactly the removed
 directions and edge types

restore_edge turned a removed directed edge into an undirected one, lost the
edge type and raised KeyError when only one direction had been removed;
restore_directed_edge lost the edge type.
---
 causy/graph.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 2b389dd..68f30ac 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -794,19 +794,28 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if v.id not in self.nodes:
             raise GraphError(f"Node {v} does not exist")
 
+        u_v_restored = self._restore_direction(u, v)
+        v_u_restored = self._restore_direction(v, u)
+        if not u_v_restored and not v_u_restored:
+            raise GraphError(f"There is no deleted edge between {u} and {v}")
+
+    def _restore_direction(self, u: Node, v: Node) -> bool:
+        """
+        Restore the direction u -> v of a deleted edge with its metadata and edge type
+        :param u:
+        :param v:
+        :return: True if u -> v exists afterwards, False if there was nothing to restore
+        """
         if u.id in self.edges and v.id in self.edges[u.id]:
             self.edges[u.id][v.id].deleted = False
             self._reverse_edges[v.id][u.id].deleted = False
-        else:
-            self.add_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
+            return True
 
-        if v.id in self.edges and u.id in self.edges[v.id]:
-            self.edges[v.id][u.id].deleted = False
-            self._reverse_edges[u.id][v.id].deleted = False
-        else:
-            self.add_edge(v, u, self._deleted_edges[v.id][u.id].metadata)
-            del self._deleted_edges[v.id][u.id]
+        edge = self._deleted_edges.get(u.id, {}).pop(v.id, None)
+        if edge is None:
+            return False
+        self.add_directed_edge(u, v, edge.metadata, edge.edge_type)
+        return True
 
     def remove_directed_edge(self, u: Node, v: Node, soft_delete: bool = False):
         """
@@ -847,12 +856,8 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if v.id not in self.nodes:
             raise GraphError(f"Node {v} does not exist")
 
-        if u.id in self.edges and v.id in self.edges[u.id]:
-            self.edges[u.id][v.id].deleted = False
-            self._reverse_edges[v.id][u.id].deleted = False
-        else:
-            self.add_directed_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
+        if not self._restore_direction(u, v):
+            raise GraphError(f"There is no deleted edge from {u} to {v}")
 
     def update_edge(
         self,
-- 
2.43.0


From 9f7600c3822fc45b3cc15e00715ae6c7b7f9072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:47 +0000
Subject: [PATCH 04/49] fix: every collider on a path has to be opened for the
 path to be open

_is_a_collider_blocking only reported the last collider of a path, so two nodes
were reported as d-connected along a path which is blocked by an earlier
collider.
---
 causy/graph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 68f30ac..f3c81ab 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -340,15 +340,16 @@ class GraphBaseAccessMixin:
         Check if a path is blocked by a collider which is not in the conditioning set and has no descendants in the conditioning set.
         :return: Boolean indicating if the path is blocked
         """
-        is_path_blocked = False
         for i in range(1, len(path) - 1):
             if self._is_collider(path[i - 1], path[i], path[i + 1]):
                 # if the node is a collider, check if the node or any of its descendants are in the conditioning set
-                is_path_blocked = True
-                for descendant in self.descendants_of_node(path[i]):
-                    if descendant in conditioning_set:
-                        is_path_blocked = False
-        return is_path_blocked
+                # a single collider which is not opened by the conditioning set blocks the path
+                if not any(
+                    descendant in conditioning_set
+                    for descendant in self.descendants_of_node(path[i])
+                ):
+                    return True
+        return False
 
     def _is_a_non_collider_in_conditioning_set(self, path, conditioning_set) -> bool:
         """
-- 
2.43.0


From 640fceec2a3ee3018cd132d6379cf1c806a3fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:47 +0000
Subject: [PATCH 05/49] fix: d-separation accepts conditioning sets of node ids
 and of nodes

With ids in the conditioning set the result ignored it, and with nodes the
check that u and v are not part of it never triggered.
---
 causy/graph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index f3c81ab..c542e6b 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -393,8 +393,13 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # the conditioning set may contain nodes or node ids
+        conditioning_set = [
+            self.nodes[n.id if isinstance(n, Node) else n] for n in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if any(n.id in (u, v) for n in conditioning_set):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
@@ -442,8 +447,13 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # the conditioning set may contain nodes or node ids
+        conditioning_set = [
+            self.nodes[n.id if isinstance(n, Node) else n] for n in conditioning_set
+        ]
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if any(n.id in (u, v) for n in conditioning_set):
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
-- 
2.43.0


From c89f8856c959119a6c085de3e4779506cd527ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:17 +0000
Subject: [PATCH 06/49] fix: d-separation in a CPDAG only considers paths of
 definite status

Paths which are not of definite status were treated as open, so separated nodes
were reported as d-connected.
---
 causy/graph.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index c542e6b..2a48876 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -465,14 +465,16 @@ class GraphBaseAccessMixin:
             # If the path only has two nodes, it cannot be blocked and is open. Therefore, u and v are not d-separated
             if len(path) == 2:
                 return False
+            # only paths of definite status are relevant for d-separation in a CPDAG
+            if not self._is_path_of_definite_status(path):
+                continue
             is_path_blocked = False
-            if self._is_path_of_definite_status(path):
-                if self._is_definite_noncollider_in_conditioning_set(
-                    path, conditioning_set
-                ):
-                    is_path_blocked = True
-                if self._is_a_collider_blocking(path, conditioning_set):
-                    is_path_blocked = True
+            if self._is_definite_noncollider_in_conditioning_set(
+                path, conditioning_set
+            ):
+                is_path_blocked = True
+            if self._is_a_collider_blocking(path, conditioning_set):
+                is_path_blocked = True
             list_of_results_for_paths.append(is_path_blocked)
         if False in list_of_results_for_paths:
             return False
-- 
2.43.0


From ee2ed6c8db5b75f3b5e94a7ecf69eeb7cb7e4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:49 +0000
Subject: [PATCH 07/49] fix: directed path queries find all paths and terminate

directed_path_exists and directed_paths recursed forever on cycles and
undirected edges and raised KeyError for nodes without edges;
directed_path_exists followed soft deleted edges and directed_paths dropped
all other paths when u and v are adjacent.
---
 causy/edge_types.py | 28 +++++++++++++++++++++-------
 causy/graph.py      | 16 +++++++++++-----
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/causy/edge_types.py b/causy/edge_types.py
index f789fd2..1580cd7 100644
--- a/causy/edge_types.py
+++ b/causy/edge_types.py
@@ -1,5 +1,5 @@
 import enum
-from typing import Optional, List, Generic, Union, Tuple
+from typing import Optional, List, Generic, Set, Union, Tuple
 
 from causy.contrib.graph_ui import (
     EdgeTypeConfig,
@@ -71,13 +71,27 @@ class DirectedEdge(EdgeTypeInterface, Generic[EdgeTypeInterfaceType]):
             """
             u, v = self._resolve_node_references(u, v)
             # TODO: try a better data structure for this
-            if self.directed_edge_exists(u, v):
-                return [[(u, v)]]
+            return self._directed_paths(u, v, {u.id})
+
+        def _directed_paths(
+            self, u: NodeInterface, v: NodeInterface, visited: Set[str]
+        ) -> List[List[Tuple[NodeInterface, NodeInterface]]]:
+            """
+            Return all directed paths from u to v which do not contain a visited node
+            :param u: node u
+            :param v: node v
+            :param visited: ids of the nodes which are already part of the path
+            :return: list of directed paths
+            """
             paths = []
-            for w in self.edges[u.id]:
-                if self.directed_edge_exists(u, self.nodes[w]):
-                    for path in self.directed_paths(self.nodes[w], v):
-                        paths.append([(u, self.nodes[w])] + path)
+            for w in self.edges.get(u.id, {}):
+                if w in visited or not self.directed_edge_exists(u, self.nodes[w]):
+                    continue
+                if w == v.id:
+                    paths.append([(u, v)])
+                    continue
+                for path in self._directed_paths(self.nodes[w], v, visited | {w}):
+                    paths.append([(u, self.nodes[w])] + path)
             return paths
 
 
diff --git a/causy/graph.py b/causy/graph.py
index 2a48876..a1db2cf 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -267,11 +267,17 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if self.directed_edge_exists(u, v):
-            return True
-        for w in self.edges[u]:
-            if self.directed_path_exists(self.nodes[w], v):
-                return True
+        visited = set()
+        to_visit = [u]
+        while to_visit:
+            current = to_visit.pop()
+            for w in self.edges.get(current, {}):
+                if w in visited or not self.directed_edge_exists(current, w):
+                    continue
+                if w == v:
+                    return True
+                visited.add(w)
+                to_visit.append(w)
         return False
 
     def edge_of_type_exists(
-- 
2.43.0


From fb9d3b2ca54b46bc5290743d237835a4d32df4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:03 +0000
Subject: [PATCH 08/49] fix: queries on nodes without any edge return empty
 results

parents_of_node and retrieve_edge_history raised KeyError for nodes which never
had an edge.
---
 causy/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index a1db2cf..e9ecf17 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -95,7 +95,7 @@ class GraphBaseAccessMixin:
 
         return [
             self.nodes[n]
-            for n in self._reverse_edges[u].keys()
+            for n in self._reverse_edges.get(u, {}).keys()
             if not self.directed_edge_is_soft_deleted(n, u)
         ]
 
@@ -246,12 +246,12 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if action is None:
-            return self.edge_history[(u, v)]
-
         if (u, v) not in self.edge_history:
             return []
 
+        if action is None:
+            return self.edge_history[(u, v)]
+
         return [i for i in self.edge_history[(u, v)] if i.action == action]
 
     def directed_path_exists(self, u: Union[Node, str], v: Union[Node, str]) -> bool:
-- 
2.43.0


From d554cce95ecc13ee4d45512d7247a07282f8d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:12 +0000
Subject: [PATCH 09/49] fix: purge soft deleted edges after logic steps

Edges removed inside a logic step (e.g. ApplyActionsTogether in PCStable) stayed
in graph.edges, so following steps like ColliderTest treated removed edges as
adjacencies and oriented the graph wrongly.
---
 causy/graph_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 2f7222a..51d410f 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -209,6 +209,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
             if isinstance(filter, LogicStepInterface):
                 actions_taken = filter.execute(self.graph.graph, self)
                 self.graph.graph.action_history.append(actions_taken)
+                self.graph.purge_soft_deleted_edges()
                 continue
             yield {
                 "step": filter.__class__.__name__,
-- 
2.43.0


From 6cd89094aad593e51f6a2f88141d0580f2cb255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 10/49] fix: orientation rules look at existing edges in a
 deterministic order

The collider rules used raw graph.edges (including soft deleted edges, KeyError
for nodes without edges), treated nodes connected by an oriented edge as not
adjacent, and all rules iterated over sets of strings, so results depended on
the hash seed of the interpreter.
---
 .../constraint/orientation_rules/fci.py       | 10 ++++---
 .../constraint/orientation_rules/pc.py        | 26 +++++++++++--------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/fci.py b/causy/causal_discovery/constraint/orientation_rules/fci.py
index 0012ab7..a0b0917 100644
--- a/causy/causal_discovery/constraint/orientation_rules/fci.py
+++ b/causy/causal_discovery/constraint/orientation_rules/fci.py
@@ -48,13 +48,15 @@ class ColliderRuleFCI(
         y = graph.nodes[nodes[1]]
 
         # if u and v are adjacent, do nothing
-        if graph.undirected_edge_exists(x, y):
+        if graph.edge_exists(x, y):
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [
+            z
+            for z in graph.nodes
+            if graph.directed_edge_exists(x, z) and graph.directed_edge_exists(y, z)
+        ]
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index aa0e1c1..eab9477 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -112,13 +112,15 @@ class ColliderTest(
         y = graph.nodes[nodes[1]]
 
         # if u and v are adjacent, do nothing
-        if graph.undirected_edge_exists(x, y):
+        if graph.edge_exists(x, y):
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [
+            z
+            for z in graph.nodes
+            if graph.directed_edge_exists(x, z) and graph.directed_edge_exists(y, z)
+        ]
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
@@ -242,9 +244,11 @@ class NonColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [
+            z
+            for z in graph.nodes
+            if graph.directed_edge_exists(x, z) and graph.directed_edge_exists(y, z)
+        ]
         # if one edge has an arrowhead at z, orient the other one pointing away from z.
         # It cannot be a collider because we have already oriented all unshielded triples that contain colliders.
         for z in potential_zs:
@@ -385,13 +389,13 @@ class OrientQuadrupleTest(
         y = graph.nodes[nodes[0]]
         w = graph.nodes[nodes[1]]
 
-        potential_zs = set()
+        potential_zs = []
 
         # TODO: just iterate over edges
         for z in graph.nodes:
             z = graph.nodes[z]
             if graph.edge_exists(y, z) and graph.edge_exists(z, w):
-                potential_zs.add(z)
+                potential_zs.append(z)
 
         results = []
         for zs in itertools.combinations(potential_zs, 2):
@@ -453,13 +457,13 @@ class FurtherOrientQuadrupleTest(
         x = graph.nodes[nodes[0]]
         w = graph.nodes[nodes[1]]
 
-        potential_zs = set()
+        potential_zs = []
 
         # TODO: just iterate over edges
         for z in graph.nodes:
             z = graph.nodes[z]
             if graph.edge_exists(x, z) and graph.edge_exists(z, w):
-                potential_zs.add(z)
+                potential_zs.append(z)
 
         results = []
         for zs in itertools.combinations(potential_zs, 2):
-- 
2.43.0


From b286d8fb025f4091baf3d2a6d20871c1946f98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 11/49] fix: PairsWithNeighboursGenerator yields combinations
 in a reproducible order

The neighbours were collected in a set of strings, so the order of the
conditioning sets, and with it the separating set which is found first,
depended on the hash seed of the interpreter.
---
 causy/generators.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/causy/generators.py b/causy/generators.py
index 73a3219..478da7d 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -153,13 +153,12 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
                         yield [[node, neighbour]]
                         continue
 
-                    other_neighbours = set(
-                        [
-                            k
-                            for k, value in graph.edges[node].items()
-                            if graph.directed_edge_exists(k, node)
-                        ]
-                    )
+                    # keep the order of the edges, so that the combinations do not depend on the hash seed
+                    other_neighbours = [
+                        k
+                        for k, value in graph.edges[node].items()
+                        if graph.directed_edge_exists(k, node)
+                    ]
                     logger.info(f"other_neighbors before removal={other_neighbours}")
 
                     if neighbour in other_neighbours:
-- 
2.43.0


From f5f398b579fce59d470317fe4ae60e1ff616937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 12/49] fix: chunked PairsWithEdgesInBetweenGenerator yields
 every edge only once

After the chunks all edges were yielded again one by one, which broke the
execution of chunked steps.
---
 causy/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/generators.py b/causy/generators.py
index 478da7d..3c6f1b6 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -89,6 +89,7 @@ class PairsWithEdgesInBetweenGenerator(GeneratorInterface):
         if self.chunked:
             for i in range(0, len(edges), self.chunk_size):
                 yield edges[i : i + self.chunk_size]
+            return
 
         for edge in edges:
             yield edge
-- 
2.43.0


From 1475914474eeb3b2cd233e959fdfdfd9a3e43234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 13/49] fix: the order of the nodes does not depend on the
 format of the data

Data given as rows created the nodes in the order of the keys of the first row,
data given as columns in sorted order; the result of order dependent algorithms
differed for the same data.
---
 causy/graph_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 51d410f..69c0c37 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -128,7 +128,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 nodes[key].append(row[key])
 
         graph = GraphManager(graph_class=self._graph_class)
-        for key in keys:
+        for key in nodes:
             graph.add_node(key, nodes[key], id_=key)
 
         return graph
@@ -157,7 +157,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 nodes[key].append(row[key])
 
         graph = GraphManager(graph_class=self._graph_class)
-        for key in keys:
+        for key in nodes:
             graph.add_node(key, nodes[key], id_=key)
 
         return graph
-- 
2.43.0


From 28cb638d2cc914607e0d81594afc734685d060a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 14/49] fix: PairsWithNeighboursGenerator yields plain pairs
 when it is not chunked

With min=2 and chunked=False the pairs were wrapped in a chunk, so steps failed
to unpack them.
---
 causy/generators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causy/generators.py b/causy/generators.py
index 3c6f1b6..83180e3 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -151,7 +151,10 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
 
                     checked_combinations.add((node, neighbour))
                     if range_size == 2:
-                        yield [[node, neighbour]]
+                        if self.chunked:
+                            yield [[node, neighbour]]
+                        else:
+                            yield [node, neighbour]
                         continue
 
                     # keep the order of the edges, so that the combinations do not depend on the hash seed
-- 
2.43.0


From 39b4d813e6187253584ab7ae3f2910cc9cb18301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 15/49] fix: independence tests handle perfect correlations

A (partial) correlation of 1 or -1, or slightly beyond because of rounding, made
Fisher's Z transformation fail with ZeroDivisionError or a math domain error.
---
 .../constraint/independence_tests/common.py         |  8 ++++----
 causy/math_utils.py                                 | 13 +++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index aa3f84b..93873fa 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -7,7 +7,7 @@ import torch
 from scipy import stats
 
 from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator
-from causy.math_utils import get_t_and_critical_t
+from causy.math_utils import fisher_z_transformation, get_t_and_critical_t
 from causy.interfaces import (
     PipelineStepInterface,
     BaseGraphInterface,
@@ -47,7 +47,7 @@ class CorrelationCoefficientTest(
         corr = graph.edge_value(x, y)["correlation"]
 
         # Fisher's Z transformation
-        fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
+        fisher_z = fisher_z_transformation(corr)
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - 3)
@@ -133,7 +133,7 @@ class PartialCorrelationTest(
             nb_of_control_vars = len(nodes) - 2
 
             # Fisher's Z transformation
-            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+            fisher_z = fisher_z_transformation(par_corr)
 
             # Use absolute value of fisher_z for a two-tailed test
             z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
@@ -231,7 +231,7 @@ class ExtendedPartialCorrelationTestMatrix(
         nb_of_control_vars = len(nodes) - 2
 
         # Fisher's Z transformation
-        fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+        fisher_z = fisher_z_transformation(par_corr)
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
diff --git a/causy/math_utils.py b/causy/math_utils.py
index c679e66..dc59aa3 100644
--- a/causy/math_utils.py
+++ b/causy/math_utils.py
@@ -23,3 +23,16 @@ def get_t_and_critical_t(sample_size, nb_of_control_vars, par_corr, threshold):
     critical_t = scipy_stats.t.ppf(1 - threshold / 2, deg_of_freedom)
     t = par_corr * math.sqrt(deg_of_freedom / (1 - par_corr**2))
     return t, critical_t
+
+
+def fisher_z_transformation(corr):
+    """
+    Fisher's Z transformation of a (partial) correlation coefficient
+    :param corr: the (partial) correlation coefficient
+    :return: the transformed value, infinite for a perfect correlation
+    """
+    if corr >= 1:
+        return math.inf
+    if corr <= -1:
+        return -math.inf
+    return 0.5 * math.log((1 + corr) / (1 - corr))
-- 
2.43.0


From f534ca7b760891486883cee767146b2786d0afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 16/49] fix: regressions take the mean of the variables into
 account

The direct effects and the partial correlation by linear regression were
computed without an intercept, so they were wrong for data which is not
centered.
---
 .../constraint/independence_tests/common.py              | 5 +++++
 .../causal_effect_estimation/multivariate_regression.py  | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 93873fa..f3f8a14 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -290,6 +290,11 @@ def partial_correlation_regression(x, y, z):
     Returns:
     partial_corr : torch.Tensor : Partial correlation coefficient between x and y.
     """
+    # center the variables (the regression has no intercept)
+    x = x - x.mean()
+    y = y - y.mean()
+    z = z - z.mean(dim=1, keepdim=True)
+
     # Define linear regression model
     model_x = torch.linalg.lstsq(z.T, x).solution
     model_y = torch.linalg.lstsq(z.T, y).solution
diff --git a/causy/causal_effect_estimation/multivariate_regression.py b/causy/causal_effect_estimation/multivariate_regression.py
index bda11b6..0a0ada8 100644
--- a/causy/causal_effect_estimation/multivariate_regression.py
+++ b/causy/causal_effect_estimation/multivariate_regression.py
@@ -48,8 +48,15 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
             ],
             dim=1,
         )
+        # center the variables (the regression has no intercept)
+        effect_variable_parents_values = (
+            effect_variable_parents_values
+            - effect_variable_parents_values.mean(dim=0, keepdim=True)
+        )
         # multivariate regression via tridiagonal reduction and SVD, see torch documentation
-        reshaped_effect_variable_values = effect_variable.values.view(-1, 1)
+        reshaped_effect_variable_values = (
+            effect_variable.values - effect_variable.values.mean()
+        ).view(-1, 1)
 
         coefficients = torch.linalg.lstsq(
             effect_variable_parents_values,
-- 
2.43.0


From fc5a61e27d29a694f830e335c1128b80ff2336ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:38 +0000
Subject: [PATCH 17/49] fix: pipeline steps use all parameters they are created
 with

Parameters defined by a step itself (e.g. conflict_resolution_strategy of
ColliderTest) and falsy values (parallel=False, threshold=0.0) were silently
ignored. The strategy is compared by value, so that it also works for steps
which are loaded from a file.
---
 .../constraint/orientation_rules/pc.py              |  4 ++--
 causy/interfaces.py                                 | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index eab9477..02ecd23 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -146,7 +146,7 @@ class ColliderTest(
                 if len(unapplied_actions_y_z) > 0 or len(unapplied_actions_x_z) > 0:
                     if (
                         ColliderTestConflictResolutionStrategies.KEEP_FIRST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We prioritize the first edge that was removed, we do nothing
                         if len(unapplied_actions_y_z) > 0:
@@ -176,7 +176,7 @@ class ColliderTest(
 
                     elif (
                         ColliderTestConflictResolutionStrategies.KEEP_LAST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We keep the last edge that was removed and restore the other edges
                         results.extend(generate_restores(unapplied_actions_x_z))
diff --git a/causy/interfaces.py b/causy/interfaces.py
index 0fbf88f..6368ed4 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -375,21 +375,26 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
             else:
                 self.generator = generator
 
-        if chunk_size_parallel_processing:
+        if chunk_size_parallel_processing is not None:
             self.chunk_size_parallel_processing = chunk_size_parallel_processing
 
-        if apply_synchronous:
+        if apply_synchronous is not None:
             self.apply_synchronous = apply_synchronous
 
-        if parallel:
+        if parallel is not None:
             self.parallel = parallel
 
         if display_name:
             self.display_name = display_name
 
-        if threshold:
+        if threshold is not None:
             self.threshold = threshold
 
+        # parameters which are defined by the pipeline step itself
+        for name, value in kwargs.items():
+            if name in self.model_fields:
+                setattr(self, name, value)
+
     @computed_field
     @property
     def name(self) -> str:
-- 
2.43.0


From d7686dbcd0c23adff1d2af2975d41d16a083f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:38 +0000
Subject: [PATCH 18/49] fix: an orientation which was not taken does not
 conflict with later colliders

ColliderTest counted the DO_NOTHING results of earlier conflicts as removed
edges and skipped colliders which agree with the orientation that was kept.
---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 02ecd23..8059ce3 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -35,7 +35,11 @@ def filter_unapplied_actions(actions, u, v):
         if result_set is None:
             continue
         for result in result_set:
-            if result.u == u and result.v == v:
+            if (
+                result.action != TestResultAction.DO_NOTHING
+                and result.u == u
+                and result.v == v
+            ):
                 filtered.append(result)
     return filtered
 
-- 
2.43.0


From 70fd5235c2c261a58bf911c3514686fa83473215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:09 +0000
Subject: [PATCH 19/49] fix: conflicting orientations of
 FurtherOrientTripleTest do not remove the edge

When both orientations of an edge were implied by different triples, both
directions were removed and the adjacency got lost.
---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 8059ce3..aa76d64 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -355,6 +355,8 @@ class FurtherOrientTripleTest(
                         data={"between": {"x": x, "y": y, "z": z}},
                     )
                 )
+                # orient the edge only once, otherwise a conflicting z removes both directions
+                break
             if (
                 graph.undirected_edge_exists(x, y)
                 and graph.only_directed_edge_exists(y, z)
@@ -368,6 +370,7 @@ class FurtherOrientTripleTest(
                         data={"between": {"x": x, "y": y, "z": z}},
                     )
                 )
+                break
         return results
 
 
-- 
2.43.0


From 3a0ad1ef213d037dab3c27868a065a2c52a1361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:09 +0000
Subject: [PATCH 20/49] fix: removing a directed edge which does not exist is
 not recorded as taken

REMOVE_EDGE_DIRECTED for u -> v was added to the action and edge history without
changing the graph when only v -> u exists.
---
 causy/graph_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 69c0c37..b8815d9 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -362,9 +362,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 elif i.action == TestResultAction.DO_NOTHING:
                     continue
                 elif i.action == TestResultAction.REMOVE_EDGE_DIRECTED:
-                    if not self.graph.directed_edge_exists(
-                        i.u, i.v
-                    ) and not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.directed_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to remove directed edge {i.u.name} -> {i.v.name}. But it does not exist."
                         )
-- 
2.43.0


From bfa12e3eb3ca5936e4b4bea2544b9a7fce82b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:31 +0000
Subject: [PATCH 21/49] fix: UPDATE_EDGE and UPDATE_EDGE_TYPE work on edges
 with a single direction

The actions are executed if any edge exists between the nodes, but failed with a
GraphError if the edge exists in one direction only.
---
 causy/graph_model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index b8815d9..4086656 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -344,7 +344,10 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                         )
                         continue
                     self._execute_hook("pre_edge_update_hook", i)
-                    self.graph.update_edge(i.u, i.v, metadata=i.data)
+                    # the edge might only exist in one direction
+                    for u, v in ((i.u, i.v), (i.v, i.u)):
+                        if self.graph.directed_edge_exists(u, v):
+                            self.graph.update_directed_edge(u, v, metadata=i.data)
                     self.graph.add_edge_history(i.u, i.v, i)
                     self.graph.add_edge_history(i.v, i.u, i)
                     self._execute_hook("post_edge_update_hook", i)
@@ -385,7 +388,11 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                         )
                         continue
                     self._execute_hook("pre_edge_type_change_hook", i)
-                    self.graph.update_edge(i.u, i.v, edge_type=i.edge_type)
+                    for u, v in ((i.u, i.v), (i.v, i.u)):
+                        if self.graph.directed_edge_exists(u, v):
+                            self.graph.update_directed_edge(
+                                u, v, edge_type=i.edge_type
+                            )
                     self.graph.add_edge_history(i.u, i.v, i)
                     self.graph.add_edge_history(i.v, i.u, i)
                     self._execute_hook("post_edge_type_change_hook", i)
-- 
2.43.0


From 4e9e54ca7b8e3451ef4548411a7c790630c5c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:31 +0000
Subject: [PATCH 22/49] fix: test results can carry the edge type which
 UPDATE_EDGE_TYPE needs

The actions read edge_type from the result, but TestResult had no such field, so
they always failed with an AttributeError.
---
 causy/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/models.py b/causy/models.py
index 96f5f13..9cc32fe 100644
--- a/causy/models.py
+++ b/causy/models.py
@@ -57,6 +57,9 @@ class TestResult(TestResultInterface):
     v: NodeInterface
     action: TestResultAction
     data: Optional[Dict] = None
+    edge_type: Optional[
+        EdgeTypeInterface
+    ] = None  # the new type of the edge for UPDATE_EDGE_TYPE(_DIRECTED)
 
 
 class AlgorithmReferenceType(str, enum.Enum):
-- 
2.43.0


From 798f9545d3e062893918323c683ec1ad15fe1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:49 +0000
Subject: [PATCH 23/49] fix: ApplyActionsTogether records the actions taken and
 runs hooks once

The action history contained all proposed actions as taken, and the graph update
hooks were executed for the dry run, which does not update the graph, and again
when the actions were applied.
---
 causy/common_pipeline_steps/logic.py |  6 +++---
 causy/graph_model.py                 | 15 +++++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/causy/common_pipeline_steps/logic.py b/causy/common_pipeline_steps/logic.py
index 93b8f08..d6fad54 100644
--- a/causy/common_pipeline_steps/logic.py
+++ b/causy/common_pipeline_steps/logic.py
@@ -80,7 +80,6 @@ class ApplyActionsTogether(
         :param graph_model_instance_:
         :return:
         """
-        actions = []
         steps = []
         loop_started = time.time()
         for pipeline_step in self.pipeline_steps:
@@ -99,9 +98,10 @@ class ApplyActionsTogether(
                     duration=time.time() - started,
                 )
             )
-            actions.extend(actions_taken)
 
-        graph_model_instance_._take_action(actions)
+        for step in steps:
+            # only keep the actions which were really taken
+            step.actions, _ = graph_model_instance_._take_action(step.actions)
 
         return ActionHistoryStep(
             name=self.name,
diff --git a/causy/graph_model.py b/causy/graph_model.py
index 4086656..15e9c68 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -312,9 +312,11 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 continue
             if not isinstance(result_items, list):
                 result_items = [result_items]
-            result_items = self._execute_pre_graph_update_hooks(
-                self.algorithm.pre_graph_update_hooks, self.graph, result_items
-            )
+            # a dry run does not update the graph - the hooks are executed when the actions are applied
+            if not dry_run:
+                result_items = self._execute_pre_graph_update_hooks(
+                    self.algorithm.pre_graph_update_hooks, self.graph, result_items
+                )
             actions_taken = []
             all_actions.extend(result_items)
             for i in result_items:
@@ -430,9 +432,10 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 # add the action to the actions history
                 actions_taken.append(i)
             all_actions_taken.extend(actions_taken)
-            self._execute_post_graph_update_hooks(
-                self.algorithm.post_graph_update_hooks, self.graph, actions_taken
-            )
+            if not dry_run:
+                self._execute_post_graph_update_hooks(
+                    self.algorithm.post_graph_update_hooks, self.graph, actions_taken
+                )
         return all_actions_taken, all_actions
 
     def execute_pipeline_step(
-- 
2.43.0


From 792631b51d99c817f9415fdca3b4bc20b5c27fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:07 +0000
Subject: [PATCH 24/49] fix: creating a graph model neither changes the given
 algorithm nor loses default variables

graph_model_factory resolved the variables inside of the algorithm it was
given, so a second model created from the same algorithm silently kept the
values of the first one. Giving only some of the variables raised an error
instead of using the default values of the others.
---
 causy/graph_model.py    | 10 +++++++---
 causy/workspaces/cli.py |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 15e9c68..3470884 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -545,11 +545,15 @@ def graph_model_factory(
     :return: the graph model
     """
     original_algorithm = deepcopy(algorithm)
-    if variables is None and algorithm.variables is not None:
-        variables = resolve_variables(algorithm.variables, {})
-    elif variables is None:
+    # the variables are only resolved in the algorithm of the model - the given algorithm can be used again
+    algorithm = deepcopy(algorithm)
+    if variables is None:
         variables = {}
 
+    if algorithm.variables is not None:
+        # variables which are not given use their default value
+        variables = {**resolve_variables(algorithm.variables, variables), **variables}
+
     if len(variables) > 0:
         algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
             algorithm.pipeline_steps, variables
diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index f486b7b..09b4385 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -309,7 +309,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         nodes=model.graph.nodes,
         variables=variables,
         data_loader_hash=data_loader.hash(),
-        algorithm_hash=pipeline.hash(),
+        algorithm_hash=model.algorithm.hash(),
         variables_hash=hash_dictionary(variables),
     )
 
-- 
2.43.0


From 6432a9e8b563d64de2d3fc0ccb81ab06f310cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:25 +0000
Subject: [PATCH 25/49] fix: ejected pipelines can be loaded and executed again

Loading a specification kept the edge types as dictionaries (no model could be
created from it), failed on enum parameters and removed the names from the
specification of the caller, so it could only be loaded once.
---
 causy/graph_utils.py   | 4 +---
 causy/serialization.py | 8 ++++++++
 causy/variables.py     | 2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/causy/graph_utils.py b/causy/graph_utils.py
index b49c6ca..ac9da71 100644
--- a/causy/graph_utils.py
+++ b/causy/graph_utils.py
@@ -25,9 +25,7 @@ def load_pipeline_artefact_by_definition(step):
     if not st_function:
         raise ValueError(f"{name} not found")
 
-    del step["name"]
-
-    return st_function(**step)
+    return st_function(**{key: val for key, val in step.items() if key != "name"})
 
 
 def load_pipeline_steps_by_definition(steps):
diff --git a/causy/serialization.py b/causy/serialization.py
index b9f91ba..47c9be7 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -28,6 +28,8 @@ def serialize_algorithm(model, algorithm_name: str = None):
 
 def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
     """Load the model from a dictionary."""
+    # do not change the specification of the caller
+    algorithm_dict = dict(algorithm_dict)
     algorithm_dict["pipeline_steps"] = load_pipeline_steps_by_definition(
         algorithm_dict["pipeline_steps"]
     )
@@ -43,6 +45,12 @@ def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
     algorithm_dict["variables"] = [
         deserialize_variable(variable) for variable in algorithm_dict["variables"]
     ]
+    algorithm_dict["edge_types"] = [
+        EDGE_TYPES[edge_type["name"]](**edge_type)
+        if isinstance(edge_type, dict)
+        else edge_type
+        for edge_type in algorithm_dict["edge_types"]
+    ]
     from causy.models import Algorithm
 
     return TypeAdapter(Algorithm).validate_python(algorithm_dict)
diff --git a/causy/variables.py b/causy/variables.py
index bf59625..a849085 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -256,7 +256,7 @@ def deserialize_variable_references(element: object) -> object:
         if isinstance(value, dict) and "type" in value and value["type"] == "reference":
             setattr(element, attribute, VariableReference(name=value["name"]))
 
-        if hasattr(value, "__dict__"):
+        if isinstance(value, BaseModel):
             setattr(element, attribute, deserialize_variable_references(value))
 
     if hasattr(element, "pipeline_steps"):
-- 
2.43.0


From 0b2025908327aee22ab275da7e9557797bc80565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:40 +0000
Subject: [PATCH 26/49] fix: loading an algorithm from a python module returns
 an independent algorithm

---
 causy/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 47c9be7..d331446 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -91,7 +91,7 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         st_function = getattr(module, ref_)
         if not st_function:
             raise ValueError(f"Algorithm {algorithm} not found")
-        return st_function()._original_algorithm
+        return copy.deepcopy(st_function()._original_algorithm)
 
 
 class CausyJSONEncoder(JSONEncoder):
-- 
2.43.0


From 7d09e6261e3ef86ac6463ab57dd4d12d6025be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:40 +0000
Subject: [PATCH 27/49] fix: algorithm file references can not leave the
 working directory

---
 causy/serialization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index d331446..29d172a 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -62,8 +62,10 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         # validate if the reference points only in the same directory or subdirectory
         # to avoid security issues
         absolute_path = os.path.realpath(algorithm)
-        common_prefix = os.path.commonprefix([os.getcwd(), absolute_path])
-        if common_prefix != os.getcwd():
+        # compare whole path segments - /workspace_other is not in /workspace
+        working_directory = os.path.realpath(os.getcwd())
+        common_path = os.path.commonpath([working_directory, absolute_path])
+        if common_path != working_directory:
             raise ValueError("Invalid reference")
 
         with open(absolute_path, "r") as file:
-- 
2.43.0


From b4b01d2fbc71208a329ca6bcf6b74d251071ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:08 +0000
Subject: [PATCH 28/49] fix: dynamic data loaders can be loaded by their
 reference

---
 causy/data_loader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causy/data_loader.py b/causy/data_loader.py
index afe56e7..4c455a9 100644
--- a/causy/data_loader.py
+++ b/causy/data_loader.py
@@ -111,16 +111,17 @@ class DynamicDataLoader(AbstractDataLoader):
 
     def __init__(self, reference: str, options: Optional[Dict[str, Any]] = None):
         self.reference = reference
-        self.data_loader = self._load_data_loader()
         self.options = options
+        self.data_loader = self._load_data_loader()
 
     reference: str
     data_loader: AbstractDataLoader
 
     def _load_data_loader(self) -> AbstractDataLoader:
-        module = importlib.import_module(self.reference)
-        # todo: should the cls be referenced here?
-        return module.DataLoader(**self.options)
+        # the reference is the path of the data loader class, e.g. my_data_loader.DataLoader
+        module_name, class_name = self.reference.rsplit(".", 1)
+        module = importlib.import_module(module_name)
+        return getattr(module, class_name)(**(self.options or {}))
 
     def load(self) -> Iterator[Dict[str, Union[float, int, str]]]:
         return self.data_loader.load()
-- 
2.43.0


From 831155c8fddd5e1807fccd9424ea54f8ef39d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:33 +0000
Subject: [PATCH 29/49] fix: i.i.d. samples of a cyclic graph raise an error
 instead of hanging

---
 causy/sample_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 306b499..010345b 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -155,6 +155,10 @@ class IIDSampleGenerator(AbstractSampleGenerator):
                     sorted_nodes.append(node)
                     nodes.remove(node)
                     break
+            else:
+                raise ValueError(
+                    f"The edges between {nodes} contain a cycle. Cannot sort them topologically."
+                )
         return sorted_nodes
 
     def _generate_data(self, size):
-- 
2.43.0


From 0d1fda8447b523a3a5eefd2c2e09baa6b219753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:16 +0000
Subject: [PATCH 30/49] fix: time series samples do not depend on the hash seed

---
 causy/sample_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 010345b..bec3546 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -96,13 +96,14 @@ class AbstractSampleGenerator(abc.ABC):
     def _find_variables_in_edges(self):
         """
         Find all variables in the edges of the sample generator. We need this to calculate the initial values for all existing variables.
-        :return: a set of all variables submitted via the edges
+        :return: a sorted list of all variables submitted via the edges
         """
         variables = set()
         for edge in self._edges:
             variables.add(edge.from_node.node)
             variables.add(edge.to_node.node)
-        return variables
+        # the order has to be stable to generate reproducible data
+        return sorted(variables)
 
     def _get_edges_for_node_to(self, node: str):
         """
-- 
2.43.0


From a38f0f9108ecc5a152d16eb4926c079ea27b144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:29 +0000
Subject: [PATCH 31/49] fix: the workspace file is written and read with the
 same yaml version

Names like 1e3 were written by a yaml 1.1 dumper as plain scalars, which the
yaml 1.2 parser reads back as numbers - the workspace could not be loaded.
---
 causy/workspaces/cli.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 09b4385..7618eeb 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,6 +1,5 @@
 import json
 import logging
-from collections import OrderedDict
 from datetime import datetime
 from typing import List, Dict
 
@@ -10,7 +9,6 @@ import typer
 import os
 import sys
 
-import yaml
 from markdown.extensions.toc import slugify
 from pydantic_yaml import to_yaml_str
 from jinja2 import (
@@ -79,16 +77,8 @@ def show_success(message: str):
 
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
-    ordered_val = OrderedDict(json.loads(workspace.model_dump_json()))
-    yaml.add_representer(
-        OrderedDict,
-        lambda dumper, data: dumper.represent_mapping(
-            "tag:yaml.org,2002:map", data.items()
-        ),
-    )
-    output = yaml.dump(ordered_val)
     with open(workspace_path, "w") as f:
-        f.write(output)
+        f.write(pydantic_yaml.to_yaml_str(workspace))
 
 
 def _current_workspace(fail_if_none: bool = True) -> Workspace:
-- 
2.43.0


From 73d37c09a16d1e3eebd907f4ffdce4b34305cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:29 +0000
Subject: [PATCH 32/49] fix: experiments and pipelines without variables can be
 executed and updated

---
 causy/variables.py      | 7 ++++---
 causy/workspaces/cli.py | 9 ++++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/causy/variables.py b/causy/variables.py
index a849085..0ca56f8 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -158,9 +158,9 @@ def validate_variable_values(algorithm, variable_values: Dict[str, VariableType]
     :param variable_values:
     :return:
     """
-    algorithm_variables = {avar.name: avar for avar in algorithm.variables}
+    algorithm_variables = {avar.name: avar for avar in algorithm.variables or []}
 
-    for variable_name, variable_value in variable_values.items():
+    for variable_name, variable_value in (variable_values or {}).items():
         if variable_name not in algorithm_variables.keys():
             raise ValueError(
                 f"Variable {variable_name} not found in the algorithm variables."
@@ -180,7 +180,8 @@ def resolve_variables(
     :return:
     """
     resolved_variables = {}
-    for variable in variables:
+    variable_values = variable_values or {}
+    for variable in variables or []:
         if variable.name in variable_values:
             resolved_variables[variable.name] = variable_values[variable.name]
         else:
diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 7618eeb..3c8c12f 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -193,7 +193,7 @@ def _create_experiment(workspace: Workspace) -> Workspace:
         workspace.pipelines[experiment_pipeline].type,
         workspace.pipelines[experiment_pipeline].reference,
     )
-    if len(pipeline.variables) > 0:
+    if pipeline.variables:
         variables = resolve_variables(pipeline.variables, {})
 
     workspace.experiments[experiment_slug] = Experiment(
@@ -524,7 +524,7 @@ def update_experiment_variable(
     )
 
     current_variable = None
-    for existing_variable in pipeline.variables:
+    for existing_variable in pipeline.variables or []:
         if variable_name == existing_variable.name:
             current_variable = existing_variable
             break
@@ -546,7 +546,10 @@ def update_experiment_variable(
         show_error(f"Variable {variable_name} is not a valid value.")
         return
 
-    experiment.variables[variable_name] = variable_value
+    experiment.variables = {
+        **(experiment.variables or {}),
+        variable_name: variable_value,
+    }
 
     write_to_workspace(workspace)
 
-- 
2.43.0


From 65c96abc568f61bd7edfb5885b8189ae47f25448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:29 +0000
Subject: [PATCH 33/49] fix: other files in the workspace are no experiment
 versions

Files like experiment_notes.json made every command which lists versions fail,
experiment_12.bak.json and experiment_0012.json were listed as version 12.
---
 causy/workspaces/cli.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 3c8c12f..3491c93 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,5 +1,6 @@
 import json
 import logging
+import re
 from datetime import datetime
 from typing import List, Dict
 
@@ -343,14 +344,12 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
     for file in os.listdir():
         # check for files if they have the right prefix followed by a unix timestamp (int) and the file extension, e.g. experiment_123456789.json.
         # Extract the unix timestamp
-        if file.startswith(f"{experiment_name}_") and file.endswith(".json"):
-            segments = file.split("_")
-            timestamp = int(segments[-1].split(".")[0])
-            name = "_".join(segments[:-1])
-            if name != experiment_name:
-                # an experiment with a different name
-                continue
-            versions.append(timestamp)
+        # Files with another suffix belong to an experiment with a different name or are no results.
+        match = re.fullmatch(
+            rf"{re.escape(experiment_name)}_(0|[1-9][0-9]*)\.json", file
+        )
+        if match:
+            versions.append(int(match.group(1)))
     return sorted(versions, reverse=True)
 
 
-- 
2.43.0


From f8d8f516a58d51d38a7e7a4338bd2a0d636bf760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:33 +0000
Subject: [PATCH 34/49] fix: update-variable parses booleans and rejects
 invalid values with an error message

bool("False") is True, so a bool variable could never be set to False. Values
which are not in the choices of a variable ended in a traceback.
---
 causy/workspaces/cli.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 3491c93..a368b05 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -11,6 +11,7 @@ import os
 import sys
 
 from markdown.extensions.toc import slugify
+from pydantic import TypeAdapter
 from pydantic_yaml import to_yaml_str
 from jinja2 import (
     Environment,
@@ -533,7 +534,11 @@ def update_experiment_variable(
 
     # try to cast the variable value to the correct type
     try:
-        variable_value = current_variable._PYTHON_TYPE(variable_value)
+        if current_variable._PYTHON_TYPE is bool:
+            # bool("False") is True - so we have to parse the value
+            variable_value = TypeAdapter(bool).validate_python(variable_value)
+        else:
+            variable_value = current_variable._PYTHON_TYPE(variable_value)
     except ValueError:
         show_error(
             f'Variable {variable_name} should be {current_variable.type}. But got "{variable_value}" which is not a valid value.'
@@ -541,8 +546,10 @@ def update_experiment_variable(
         return
 
     # check if the variable is a valid value
-    if not validate_variable_values(pipeline, {variable_name: variable_value}):
-        show_error(f"Variable {variable_name} is not a valid value.")
+    try:
+        validate_variable_values(pipeline, {variable_name: variable_value})
+    except ValueError as e:
+        show_error(f"Variable {variable_name} is not a valid value. {e}")
         return
 
     experiment.variables = {
-- 
2.43.0


From 4bebc68900871b724439acad352feed8458b8a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:35 +0000
Subject: [PATCH 35/49] fix: an interrupted command does not leave a truncated
 workspace or result file

---
 causy/workspaces/cli.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index a368b05..d586fc0 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -77,10 +77,26 @@ def show_success(message: str):
     typer.echo(f"✅ {message}")
 
 
+def _write_file(path: str, content: str):
+    """
+    Replace a file atomically: an interruption leaves either the old or the new content, but never a part of it.
+    """
+    directory, file_name = os.path.split(path)
+    temporary_path = os.path.join(directory, f".{file_name}.{os.getpid()}.tmp")
+    try:
+        with open(temporary_path, "w") as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temporary_path, path)
+    finally:
+        if os.path.exists(temporary_path):
+            os.remove(temporary_path)
+
+
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
-    with open(workspace_path, "w") as f:
-        f.write(pydantic_yaml.to_yaml_str(workspace))
+    _write_file(workspace_path, pydantic_yaml.to_yaml_str(workspace))
 
 
 def _current_workspace(fail_if_none: bool = True) -> Workspace:
@@ -356,8 +372,10 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
 
 def _save_experiment_result(workspace: Workspace, experiment_name: str, result: Result):
     timestamp = int(datetime.timestamp(result.created_at))
-    with open(f"{experiment_name}_{timestamp}.json", "w") as f:
-        f.write(json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4))
+    _write_file(
+        f"{experiment_name}_{timestamp}.json",
+        json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4),
+    )
 
 
 @pipeline_app.command(name="add")
@@ -699,8 +717,7 @@ def init():
         if configure_experiment:
             workspace = _create_experiment(workspace)
 
-    with open(workspace_path, "w") as f:
-        f.write(pydantic_yaml.to_yaml_str(workspace))
+    _write_file(workspace_path, pydantic_yaml.to_yaml_str(workspace))
 
     typer.echo(f"Workspace created in {workspace_path}")
 
-- 
2.43.0


From 45385cd5753cae43bc3f5ddfd12077d803cff810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 36/49] fix: the latest result in the ui has the version of its
 content

---
 causy/ui/server.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/causy/ui/server.py b/causy/ui/server.py
index 202f3bb..c22635c 100644
--- a/causy/ui/server.py
+++ b/causy/ui/server.py
@@ -16,7 +16,6 @@ from causy.models import (
 from causy.serialization import load_algorithm_by_reference
 from causy.ui.models import ExtendedResult, ExtendedExperiment, ExperimentVersion
 from causy.workspaces.cli import (
-    _load_latest_experiment_result,
     _load_experiment_versions,
     _load_experiment_result,
 )
@@ -66,13 +65,19 @@ async def get_latest_experiment(experiment_name: str):
     if experiment_name not in WORKSPACE.experiments:
         raise HTTPException(404, "Experiment not found")
 
+    # look up the version only once - another one might be added while we load the result
+    versions = _load_experiment_versions(WORKSPACE, experiment_name)
+    if len(versions) == 0:
+        raise HTTPException(
+            400, f"Experiment {experiment_name} not found in the file system"
+        )
+    version = versions[0]
+
     try:
-        experiment = _load_latest_experiment_result(WORKSPACE, experiment_name)
+        experiment = _load_experiment_result(WORKSPACE, experiment_name, version)
     except Exception as e:
         raise HTTPException(400, str(e))
 
-    version = _load_experiment_versions(WORKSPACE, experiment_name)[0]
-
     experiment["algorithm"] = AlgorithmReference(**experiment["algorithm"])
     experiment["version"] = version
     experiment = ExtendedResult(**experiment)
-- 
2.43.0


From 51663cc31e96b8421afbf3d2183a52af8469515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:53 +0000
Subject: [PATCH 37/49] fix: the result of parallel partial correlation tests
 does not depend on the order of the tests

---
 .../constraint/independence_tests/common.py                 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index f3f8a14..c2b739c 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -114,8 +114,10 @@ class PartialCorrelationTest(
 
             try:
                 cor_xy = graph.edge_value(x, y)["correlation"]
-                cor_xz = graph.edge_value(x, z)["correlation"]
-                cor_yz = graph.edge_value(y, z)["correlation"]
+                # the edges to z might already be removed by a test of this step which finished earlier (when running in
+                # parallel). They still have to be used, otherwise the result depends on the order of the tests.
+                cor_xz = graph.edges[x.id][z.id].metadata["correlation"]
+                cor_yz = graph.edges[y.id][z.id].metadata["correlation"]
             except (KeyError, TypeError):
                 return
 
-- 
2.43.0


From 156c1b9f115887ea5f5f8704891869bc2bae6b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:20 +0000
Subject: [PATCH 38/49] undo the repairs in independence_tests/common.py
 (recorded as findings instead)

---
 .../constraint/independence_tests/common.py   | 19 ++++++-------------
 causy/math_utils.py                           | 13 -------------
 2 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index c2b739c..aa3f84b 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -7,7 +7,7 @@ import torch
 from scipy import stats
 
 from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator
-from causy.math_utils import fisher_z_transformation, get_t_and_critical_t
+from causy.math_utils import get_t_and_critical_t
 from causy.interfaces import (
     PipelineStepInterface,
     BaseGraphInterface,
@@ -47,7 +47,7 @@ class CorrelationCoefficientTest(
         corr = graph.edge_value(x, y)["correlation"]
 
         # Fisher's Z transformation
-        fisher_z = fisher_z_transformation(corr)
+        fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - 3)
@@ -114,10 +114,8 @@ class PartialCorrelationTest(
 
             try:
                 cor_xy = graph.edge_value(x, y)["correlation"]
-                # the edges to z might already be removed by a test of this step which finished earlier (when running in
-                # parallel). They still have to be used, otherwise the result depends on the order of the tests.
-                cor_xz = graph.edges[x.id][z.id].metadata["correlation"]
-                cor_yz = graph.edges[y.id][z.id].metadata["correlation"]
+                cor_xz = graph.edge_value(x, z)["correlation"]
+                cor_yz = graph.edge_value(y, z)["correlation"]
             except (KeyError, TypeError):
                 return
 
@@ -135,7 +133,7 @@ class PartialCorrelationTest(
             nb_of_control_vars = len(nodes) - 2
 
             # Fisher's Z transformation
-            fisher_z = fisher_z_transformation(par_corr)
+            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
 
             # Use absolute value of fisher_z for a two-tailed test
             z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
@@ -233,7 +231,7 @@ class ExtendedPartialCorrelationTestMatrix(
         nb_of_control_vars = len(nodes) - 2
 
         # Fisher's Z transformation
-        fisher_z = fisher_z_transformation(par_corr)
+        fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
 
         # Use absolute value of fisher_z for a two-tailed test
         z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
@@ -292,11 +290,6 @@ def partial_correlation_regression(x, y, z):
     Returns:
     partial_corr : torch.Tensor : Partial correlation coefficient between x and y.
     """
-    # center the variables (the regression has no intercept)
-    x = x - x.mean()
-    y = y - y.mean()
-    z = z - z.mean(dim=1, keepdim=True)
-
     # Define linear regression model
     model_x = torch.linalg.lstsq(z.T, x).solution
     model_y = torch.linalg.lstsq(z.T, y).solution
diff --git a/causy/math_utils.py b/causy/math_utils.py
index dc59aa3..c679e66 100644
--- a/causy/math_utils.py
+++ b/causy/math_utils.py
@@ -23,16 +23,3 @@ def get_t_and_critical_t(sample_size, nb_of_control_vars, par_corr, threshold):
     critical_t = scipy_stats.t.ppf(1 - threshold / 2, deg_of_freedom)
     t = par_corr * math.sqrt(deg_of_freedom / (1 - par_corr**2))
     return t, critical_t
-
-
-def fisher_z_transformation(corr):
-    """
-    Fisher's Z transformation of a (partial) correlation coefficient
-    :param corr: the (partial) correlation coefficient
-    :return: the transformed value, infinite for a perfect correlation
-    """
-    if corr >= 1:
-        return math.inf
-    if corr <= -1:
-        return -math.inf
-    return 0.5 * math.log((1 + corr) / (1 - corr))
-- 
2.43.0


From 9bab92d27a9ceea870cefd3544aa877b4f7fa330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:00 +0000
Subject: [PATCH 39/49] fix: parallel tests see the graph as it was when the
 step began

Results are applied while further tests are prepared. A test which was prepared
later saw the edges removed so far, so the removed edges depended on the timing.
---
 causy/graph_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 3470884..010f527 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -461,11 +461,14 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 )
                 self.pool = self.__initialize_pool()
 
+            # results are applied while further tests are prepared. All tests have to see the graph as it is now, otherwise
+            # their results depend on the timing of the workers.
+            graph_before_step = deepcopy(self.graph.graph)
             for result in self.pool.imap_unordered(
                 unpack_run,
                 self._format_yield(
                     test_fn,
-                    self.graph.graph,
+                    graph_before_step,
                     test_fn.generator.generate(self.graph.graph, self),
                 ),
                 chunksize=test_fn.chunk_size_parallel_processing,
-- 
2.43.0


From 3628da06852202fdf4ed1bf48d01477ce98062b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:10 +0000
Subject: [PATCH 40/49] fix: an interrupted command does not leave truncated
 pipeline or data loader files

---
 causy/workspaces/cli.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index d586fc0..ff5e0ea 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -168,8 +168,10 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
         pipeline_reference = AVAILABLE_ALGORITHMS[pipeline_skeleton]
         pipeline_name = questionary.text("Enter the name of the pipeline").ask()
         pipeline_slug = slugify(pipeline_name, "_")
-        with open(f"{pipeline_slug}.yml", "w") as f:
-            f.write(to_yaml_str(pipeline_reference()._original_algorithm))
+        _write_file(
+            f"{pipeline_slug}.yml",
+            to_yaml_str(pipeline_reference()._original_algorithm),
+        )
 
         pipeline = AlgorithmReference(
             reference=f"{pipeline_slug}.yml", type=AlgorithmReferenceType.FILE
@@ -179,9 +181,12 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
     elif pipeline_creation == "SKELETON":
         pipeline_name = questionary.text("Enter the name of the pipeline").ask()
         pipeline_slug = slugify(pipeline_name, "_")
-        JINJA_ENV.get_template("pipeline.py.tpl").stream(
-            pipeline_name=pipeline_name
-        ).dump(f"{pipeline_slug}.py")
+        _write_file(
+            f"{pipeline_slug}.py",
+            JINJA_ENV.get_template("pipeline.py.tpl").render(
+                pipeline_name=pipeline_name
+            ),
+        )
         pipeline = AlgorithmReference(
             reference=f"{pipeline_slug}.PIPELINE",
             type=AlgorithmReferenceType.PYTHON_MODULE,
@@ -252,9 +257,12 @@ def _create_data_loader(workspace: Workspace) -> Workspace:
         )
     elif data_loader_type == "dynamic":
         data_loader_slug = slugify(data_loader_name, "_")
-        JINJA_ENV.get_template("dataloader.py.tpl").stream(
-            data_loader_name=data_loader_name
-        ).dump(f"{data_loader_slug}.py")
+        _write_file(
+            f"{data_loader_slug}.py",
+            JINJA_ENV.get_template("dataloader.py.tpl").render(
+                data_loader_name=data_loader_name
+            ),
+        )
         workspace.dataloaders[data_loader_slug] = DataLoaderReference(
             **{
                 "type": data_loader_type,
@@ -698,9 +706,12 @@ def init():
                 "Enter the name of the data loader"
             ).ask()
             data_loader_slug = slugify(data_loader_name, "_")
-            JINJA_ENV.get_template("dataloader.py.tpl").stream(
-                data_loader_name=data_loader_name
-            ).dump(f"{data_loader_slug}.py")
+            _write_file(
+                f"{data_loader_slug}.py",
+                JINJA_ENV.get_template("dataloader.py.tpl").render(
+                    data_loader_name=data_loader_name
+                ),
+            )
             workspace.dataloaders[data_loader_slug] = DataLoaderReference(
                 **{
                     "type": data_loader_type,
-- 
2.43.0


From c091d11bff72422e4c13fbb5c0e80b8c4d2baa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:12 +0000
Subject: [PATCH 41/49] fix: keep boolean variables of an experiment boolean in
 the workspace file

---
 causy/variables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causy/variables.py b/causy/variables.py
index 0ca56f8..48b9433 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -8,7 +8,8 @@ from pydantic import BaseModel, computed_field
 
 VariableInterfaceType = TypeVar("VariableInterfaceType")
 
-VariableType = Union[str, int, float, bool]
+# bool before float: pydantic otherwise serializes True as 1.0
+VariableType = Union[str, int, bool, float]
 
 
 class VariableTypes(enum.Enum):
@@ -29,8 +30,8 @@ class BaseVariable(BaseModel, Generic[VariableInterfaceType]):
         self.validate_value(self.value)
 
     name: str
-    value: Union[str, int, float, bool]
-    choices: Optional[List[Union[str, int, float, bool]]] = None
+    value: VariableType
+    choices: Optional[List[VariableType]] = None
 
     def is_valid(self):
         return self.is_valid_value(self.value)
-- 
2.43.0


From 3a7a112d5937b23e8471054585b5f1826b7f8f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:12 +0000
Subject: [PATCH 42/49] fix: keep the workspace readable when a variable is
 infinite or NaN

---
 causy/workspaces/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/models.py b/causy/workspaces/models.py
index dbf1c4d..95fab00 100644
--- a/causy/workspaces/models.py
+++ b/causy/workspaces/models.py
@@ -1,6 +1,6 @@
 from typing import Optional, Dict
 
-from pydantic import BaseModel
+from pydantic import BaseModel, ConfigDict
 
 from causy.data_loader import DataLoaderReference
 from causy.models import AlgorithmReference, Algorithm
@@ -20,6 +20,9 @@ class Experiment(BaseModel):
 
 
 class Workspace(BaseModel):
+    # keep infinite and NaN variables, otherwise they are written as null
+    model_config = ConfigDict(ser_json_inf_nan="constants")
+
     name: str
     author: Optional[str]
 
-- 
2.43.0


From 3e55000b93e205c5649c5c2a5e6499f8088dc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:12 +0000
Subject: [PATCH 43/49] fix: keep boolean metadata boolean when nodes and edges
 are serialized to JSON

---
 causy/interfaces.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 6368ed4..18959a5 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -25,9 +25,10 @@ DEFAULT_THRESHOLD = 0.01
 
 AS_MANY_AS_FIELDS = 0
 
-MetadataBaseType = Union[str, int, float, bool]
+# bool before float: pydantic otherwise serializes True as 1.0
+MetadataBaseType = Union[str, int, bool, float]
 MetadataType = Union[
-    str, int, float, bool, List[MetadataBaseType], Dict[str, MetadataBaseType]
+    str, int, bool, float, List[MetadataBaseType], Dict[str, MetadataBaseType]
 ]
 
 
-- 
2.43.0


From ad9433d36e868fcd96a8f4d24ec363840846d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:25 +0000
Subject: [PATCH 44/49] fix: list experiment versions whose number is not a
 valid date

The UI answered GET /experiments with an internal error as soon as one result
file carried a number beyond the range of datetime.
---
 causy/ui/server.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/causy/ui/server.py b/causy/ui/server.py
index c22635c..63276ce 100644
--- a/causy/ui/server.py
+++ b/causy/ui/server.py
@@ -109,6 +109,14 @@ async def get_experiment(experiment_name: str, version_number: int):
     return experiment
 
 
+def _version_name(experiment_version: int) -> str:
+    """Name of a version. Not every number in a file name is a point in time."""
+    try:
+        return datetime.fromtimestamp(experiment_version).isoformat()
+    except (ValueError, OverflowError, OSError):
+        return str(experiment_version)
+
+
 @API_ROUTES.get("/experiments", response_model=List[ExtendedExperiment])
 async def get_experiments():
     """Get the current experiment."""
@@ -123,7 +131,7 @@ async def get_experiments():
             versions.append(
                 ExperimentVersion(
                     version=experiment_version,
-                    name=datetime.fromtimestamp(experiment_version).isoformat(),
+                    name=_version_name(experiment_version),
                 )
             )
         extended_experiment.versions = versions
-- 
2.43.0


From 947be322d638cf7a4172aada736efe4953c72bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:25 +0000
Subject: [PATCH 45/49] fix: compute the initial distribution of time series in
 double precision

In single precision the pseudo inverse lost all accuracy for processes close
to a unit root: initial values were far too small or NaN.
---
 causy/sample_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index bec3546..f979c3c 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -353,7 +353,7 @@ class TimeseriesSampleGenerator(AbstractSampleGenerator):
         total_cols = num_matrices * n
 
         # Create an empty tensor to hold the block diagonal matrix
-        block_diag = torch.zeros(total_rows, total_cols)
+        block_diag = torch.zeros(total_rows, total_cols, dtype=torch.float64)
 
         # Fill in the first rows with the input matrices
         for i, matrix in enumerate(matrices):
@@ -397,7 +397,7 @@ class TimeseriesSampleGenerator(AbstractSampleGenerator):
 
     def vectorize_identity_block(self, n):
         # Create an empty tensor
-        matrix = torch.zeros(n, n)
+        matrix = torch.zeros(n, n, dtype=torch.float64)
 
         # Fill the upper left block with an identity matrix
         matrix[: n // self._longest_lag, : n // self._longest_lag] = torch.eye(
@@ -430,7 +430,7 @@ class TimeseriesSampleGenerator(AbstractSampleGenerator):
         n, _ = coefficient_matrix.shape
 
         kronecker_product = torch.kron(coefficient_matrix, coefficient_matrix)
-        identity_matrix = torch.eye(n**2)
+        identity_matrix = torch.eye(n**2, dtype=torch.float64)
         cov_matrix_noise_terms_vectorized = self.vectorize_identity_block(n)
         inv_identity_minus_kronecker_product = torch.linalg.pinv(
             identity_matrix - kronecker_product
-- 
2.43.0


From ecf2b24df6266b5ec534c65d905659459fb8601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:25 +0000
Subject: [PATCH 46/49] fix: reject data which is not one value per variable
 and row

Columns of different lengths and nested values were accepted as a table.
---
 causy/graph_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 010f527..d84f9c5 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -179,6 +179,11 @@ class AbstractGraphModel(GraphModelInterface, ABC):
         else:
             graph = self.__create_graph_from_list(data)
 
+        # otherwise values of different samples would be compared
+        shapes = {tuple(node.values.shape) for node in graph.nodes.values()}
+        if len(shapes) > 1 or any(len(shape) != 1 for shape in shapes):
+            raise ValueError("The data has to contain one value per variable and row.")
+
         self.graph = graph
         return graph
 
-- 
2.43.0


From 6d5d90e1e13ff59404bd7241a6d8c228e1748ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:42 +0000
Subject: [PATCH 47/49] fix: quote the name of a pipeline in the pipeline
 skeleton

A name with a quote or a backslash made a Python file that could not be imported.
---
 causy/workspaces/templates/pipeline.py.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/workspaces/templates/pipeline.py.tpl b/causy/workspaces/templates/pipeline.py.tpl
index 39390ea..1c7953d 100644
--- a/causy/workspaces/templates/pipeline.py.tpl
+++ b/causy/workspaces/templates/pipeline.py.tpl
@@ -8,6 +8,6 @@ PIPELINE = graph_model_factory(
         edge_types=[],
         extensions=[],
         variables=[],
-        name="{{pipeline_name}}",
+        name={{ "%r"|format(pipeline_name) }},
     )
 )
-- 
2.43.0


From a6bbe44606c39c31790dd58b8e47f59778331fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:00 +0000
Subject: [PATCH 48/49] fix: convert integer tensors to floating point numbers

Data given as integer tensors made every run fail when the mean is calculated.
---
 causy/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/graph.py b/causy/graph.py
index e9ecf17..897a31b 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -1021,6 +1021,9 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
 
         if isinstance(values, torch.Tensor):
             tensor_values = values
+            # e.g. the mean of integer tensors is not defined
+            if not tensor_values.is_floating_point():
+                tensor_values = tensor_values.to(torch.float64)
         else:
             try:
                 tensor_values = torch.tensor(values, dtype=torch.float64)
-- 
2.43.0


From 79363fc75326aee7fca453aa2ed083e66b913c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:37 +0000
Subject: [PATCH 49/49] fix: read YAML algorithms in the YAML version they are
 written in

---
 causy/serialization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 29d172a..2166a3e 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -7,8 +7,9 @@ from typing import Dict, Any, List
 import os
 
 import torch
-import yaml
 from pydantic import TypeAdapter
+from ruamel.yaml import YAML
+from ruamel.yaml.error import YAMLError
 
 
 from causy.edge_types import EDGE_TYPES
@@ -77,11 +78,11 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
             except json.JSONDecodeError:
                 pass
             file.seek(0)
-            # then try yaml
+            # then try yaml - with the same YAML version algorithms are written in
             try:
-                data = yaml.load(file.read(), Loader=yaml.FullLoader)
+                data = YAML(typ="safe", pure=True).load(file.read())
                 return load_algorithm_from_specification(data)
-            except yaml.YAMLError:
+            except YAMLError:
                 pass
             raise ValueError("Invalid file format")
 
-- 
2.43.0

