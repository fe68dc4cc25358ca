From c20d356e23d0f5205a919e3fcb9fae1d496af519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 01/25] fix: traversals no longer call the removed
 asyncio.coroutine

asyncio.coroutine does not exist since Python 3.11: every traversal raised
AttributeError as soon as it visited an element. The visitor result is
collected directly.
---
 .../rei/foundations/hierarchical_traversal_strategies.py  | 6 +++---
 .../rei/foundations/hypergraph_traversal_strategies.py    | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 3d70877..8da17be 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -26,7 +26,7 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
-            _task_list.append(asyncio.coroutine(self._visitor_func(start)))
+            _task_list.append(self._visitor_func(start))
         return _fringe, _task_list
 
     async def _fill_visit_fringe(self, current_node, _fringe: asyncio.Queue, current_depth: int = 0):
@@ -39,8 +39,8 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         if not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
-            # Add coroutine (TODO: seek for another solution to create coroutines)
-            _task_list.append(asyncio.coroutine(self._visitor_func(_next)))
+            # Collect the result of the visitor
+            _task_list.append(self._visitor_func(_next))
             await self._traverse(_fringe, _task_list)
 
 
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 07f1851..880b7ea 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -47,16 +47,16 @@ class HypergraphTraversal(GraphVisitor):
 
     def __fill_relations(self, weight, endpoint_id, edge_id, norm_weight, el, task_list: list):
         if weight[0] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(
                 self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                                    self.get_node_identification(el))]))
 
         if weight[1] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(
                 self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                                    self.get_node_identification(el))]))
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-- 
2.43.0


From 03407d277bbe75d1ded6f75ab4c61cda5035578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 02/25] fix: every traversal starts from its own fringe

The fringe was a default argument that is created once, and copy.copy shares
the underlying deque: elements left over by a traversal aborted by its visitor were visited by
later runs.
---
 .../rei/foundations/hierarchical_traversal_strategies.py     | 5 ++---
 .../rei/foundations/hypergraph_traversal_strategies.py       | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 8da17be..6421e3f 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -2,7 +2,6 @@ import asyncio
 import math
 
 import typing
-import copy
 from abc import ABC
 
 from rei.foundations.graph_monad import GraphVisitor
@@ -19,10 +18,10 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         self._ignore_root = ignore_root
 
     async def _setup_visit_algorithm(self, start: typing.Any,
-                                     fringe: asyncio.Queue = asyncio.Queue()) \
+                                     fringe: asyncio.Queue = None) \
             -> tuple[asyncio.Queue | asyncio.LifoQueue, list]:
         # Fringe setup
-        _fringe = copy.copy(fringe)
+        _fringe = asyncio.Queue() if fringe is None else fringe
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 880b7ea..bd49f30 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -1,5 +1,4 @@
 import asyncio
-import copy
 import math
 import typing
 
@@ -100,8 +99,8 @@ class HypergraphTraversal(GraphVisitor):
                         _fringe.task_done()
             await self._traverse(_fringe, _task_list)
 
-    async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue = asyncio.Queue()):
-        _fringe = copy.copy(fringe)
+    async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue = None):
+        _fringe = asyncio.Queue() if fringe is None else fringe
         await _fringe.put((start, 0))
         _fringe.task_done()
         # Task list
-- 
2.43.0


From 8d56e1c23dfa6fb833a8188175c92c2f6fab936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 03/25] fix: query engine awaits its tasks with gather and
 forgets awaited ones

asyncio.wait rejects coroutines since Python 3.11 and empty sets always, and a
second execution awaited the coroutines of the first one again.
---
 framework_python/rei/query/query_engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index ab51e61..a3a7652 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -27,6 +27,7 @@ class HierarchicalPrepositionQuery(GraphMonad):
                                                                             HypergraphEdge | SemanticValueNode) and traversal_statement(x))
 
     async def prefilter(self):
+        self.__prefilter = []
         await self.__bfs.execute(self.__start)
         return self.__prefilter
 
@@ -76,7 +77,7 @@ class HypergraphQueryEngine(HypergraphNode):
         prefilter = self.prefilter_queries()
         for i in prefilter:
             __tasks.extend(await i)
-        await asyncio.wait(__tasks)
+        await asyncio.gather(*__tasks)
         res = []
         __task_list = await self.task_result_queries_lists()
         for t in __task_list:
@@ -89,7 +90,7 @@ class HypergraphQueryEngine(HypergraphNode):
         tasks = []
         for i in self.prefilter_queries():
             tasks.extend(loop.run_until_complete(i))
-        loop.run_until_complete(asyncio.wait(tasks))
+        loop.run_until_complete(asyncio.gather(*tasks))
         results = []
         for i in self.__queries.values():
             results.extend(loop.run_until_complete(i.get_list_results()))
-- 
2.43.0


From 7cd01a9fec596eeb14020746dc15d969fa2315be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 04/25] fix: traversals and searches iterate instead of
 recursing once per element

A hierarchy of about a thousand elements exceeded the recursion limit.
---
 .../rei/foundations/hierarchical_traversal_strategies.py    | 3 +--
 .../rei/foundations/hypergraph_traversal_strategies.py      | 3 +--
 framework_python/rei/foundations/query/search_elements.py   | 6 ++----
 framework_python/rei/hypergraph/factorization_operations.py | 5 +----
 4 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 6421e3f..69bd8d5 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -35,12 +35,11 @@ class HierarchicalTraversal(GraphVisitor, ABC):
                 _fringe.task_done()
 
     async def _traverse(self, _fringe, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
             # Collect the result of the visitor
             _task_list.append(self._visitor_func(_next))
-            await self._traverse(_fringe, _task_list)
 
 
 class BreadthFirstHierarchicalTraversal(HierarchicalTraversal):
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index bd49f30..364a9d7 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -59,7 +59,7 @@ class HypergraphTraversal(GraphVisitor):
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, __current_depth = await _fringe.get()
             match _next:
                 case HypergraphNode():
@@ -97,7 +97,6 @@ class HypergraphTraversal(GraphVisitor):
                     if __current_depth + 1 < self.max_depth:
                         await _fringe.put((_next.endpoint, __current_depth + 1))
                         _fringe.task_done()
-            await self._traverse(_fringe, _task_list)
 
     async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue = None):
         _fringe = asyncio.Queue() if fringe is None else fringe
diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 6b07a85..888defe 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -54,7 +54,7 @@ class QuerySearchSubElement(GraphQuery):
         super().__init__()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             if __next.qualified_name == self._query_def:
                 self._element_cache[__next.qualified_name] = __next
@@ -63,7 +63,6 @@ class QuerySearchSubElement(GraphQuery):
             for n in __next.get_subelements(lambda x: True):
                 await fringe.put(n)
                 fringe.task_done()
-            await self._traverse(fringe)
 
 
 class QuerySearchElement(GraphQuery):
@@ -73,7 +72,7 @@ class QuerySearchElement(GraphQuery):
         self.visited_set = set()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             self.visited_set.add(__next.uuid)
             if __next.qualified_name == self._query_def:
@@ -87,7 +86,6 @@ class QuerySearchElement(GraphQuery):
             if __next.parent is not None:
                 await fringe.put(__next.parent)
                 fringe.task_done()
-            await self._traverse(fringe)
 
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self.visited_set = set()
diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 4a5bcd9..16163bd 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -13,7 +13,7 @@ class Factorization2Operation(GraphMonad):
         self.__relation_list = []
 
     async def __traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next = await fringe.get()
             match __next:
                 case HypergraphNode():
@@ -30,9 +30,6 @@ class Factorization2Operation(GraphMonad):
                     for i in o_e:
                         await fringe.put(i.endpoint)
                         fringe.task_done()
-            await self.__traverse(fringe)
-        else:
-            return
 
     async def execute(self, start) -> list[asyncio.Future]:
         self.__relation_list = []
-- 
2.43.0


From 7503b29b0984a31791becc385b5ac3d020b17707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 05/25] fix: tensor representation uses float, np.float was
 removed from numpy

---
 framework_python/rei/tensor/tensor_representation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index 0de4167..c9f91ce 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -71,9 +71,9 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
             if self._incidence_matrix_in is not None:
                 del self._incidence_matrix_in
             ho = self._current_homomorphism
-            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
+            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=float)
+            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
+            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
 
     def fill_tensors(self, i_e, i_n0, i_n1, i_w, val):
         self._weight_tensor[i_e, i_n1, i_n0] = i_w
-- 
2.43.0


From 56698e6451694ea904d2aa3ab5185346ab57ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 06/25] fix: connect_2factor_edges connects the second group
 with the second direction

---
 framework_python/rei/factories/foundation_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 0f34937..8ed4b4b 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -67,7 +67,7 @@ class HypergraphFactory(AbstractElementFactory):
         for n,v in node_in_values:
             he.unary_connect(n, v, direction[0])
         for n,v in node_out_values:
-            he.unary_connect(n, v, direction[0])
+            he.unary_connect(n, v, direction[1])
         return he
 
     def connect_dir_edges(self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
-- 
2.43.0


From c7bf7270c7dca8d5fd0bfe8f006438c2aa3b7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 07/25] fix: decoded relations keep the direction that was
 encoded

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 13532c5..0375681 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -2,6 +2,7 @@
 from rei.factories.foundation_factory import HypergraphFactory
 from rei.foundations.clock import MetaClock
 from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
+from rei.hypergraph.common_definitions import EnumRelationDirection
 from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
 
 import cbor2
@@ -70,7 +71,8 @@ class GraphTensorCbor(object):
             edges.append((e[0], e[2]))
         # Relation
         for rel in frag[2]:
-            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]])
+            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]],
+                                     direction=EnumRelationDirection(rel[3]))
             _elements[rel[5]].add_element(_el)
         # Value nodes
         values = []
-- 
2.43.0


From 63b2fe54a33d42409307b63a6e847f5496e7c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 08/25] fix: repeated encodings no longer accumulate relations
 and tensor entries

The second message contained every relation twice, so decoding it failed.
---
 framework_python/rei/hypergraph/encoding/graph_tensor_icon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index 8a05bfb..c9aaa81 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -41,6 +41,9 @@ class CoordinateObjectTransformer(GraphMonad):
     async def execute(self, start: HypergraphNode | None = None) -> list[asyncio.Future]:
         if start is None:
             start = self._context
+        self._msg_value_tensor = []
+        self._msg_incidence_out = []
+        self._msg_incidence_in = []
         q = queue.Queue()
         tr = HypergraphTraversal(
             lambda x: q.put(x), lambda x: True, SumNorm(), self._index_homomorphism, self.repr_depth)
@@ -71,6 +74,7 @@ class CoordinateObjectTransformer(GraphMonad):
         return [self.__msg_edge_tuple(i) for i in list(self._context.sub_edges)]
 
     def msg_relation_index_list(self):
+        self._msg_relations = []
         for el in map(lambda x: list(x.sub_relations), self._context.sub_edges):
             for rel in el:
                 rel: HypergraphRelation
-- 
2.43.0


From 633151c7277f786843e57f17ff8facce59be5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 09/25] fix: the encoded context is the root of the message
 even if it has a parent

Decoding looked up the parent of the context, which is not in the message.
---
 framework_python/rei/hypergraph/encoding/graph_tensor_icon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index c9aaa81..00be207 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -54,7 +54,7 @@ class CoordinateObjectTransformer(GraphMonad):
                 self.fill_tensors(i_e, i_n1, i_n0, i_w, val)
 
     def __msg_node_tuple(self, el: HypergraphNode):
-        if el.parent is None:
+        if el is self._context:
             return el.uuid, el.id_name, self._index_homomorphism.node(el.uuid), 0, el.qualified_name.encode('utf-8')
         return el.uuid, el.id_name, self._index_homomorphism.node(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')
 
-- 
2.43.0


From ed4cbad7e2e67c61fbf78dec2ed229625c547663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 10/25] fix: update_values keeps the dimension in step and owns
 its list

---
 framework_python/rei/hypergraph/value_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/value_node.py b/framework_python/rei/hypergraph/value_node.py
index a6d68cd..f18afe5 100644
--- a/framework_python/rei/hypergraph/value_node.py
+++ b/framework_python/rei/hypergraph/value_node.py
@@ -26,7 +26,8 @@ class ValueNode(HierarchicalElement):
         self._values[i] = arg
 
     def update_values(self, arg):
-        self._values = arg
+        self._values = [x for x in arg]
+        self.dim = len(self._values)
 
     def __getitem__(self, i, /):
         return self._values[i]
-- 
2.43.0


From 5131c853229015d67639f2a1f16593d88f2b7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 11/25] fix: disconnect removes the port (the removal generator
 was never run)

---
 framework_python/rei/hypergraph/base_elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 9b3614b..9cf22dd 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -51,7 +51,8 @@ class HypergraphElement(ConceptualItem):
 
     def disconnect(self, el: HierarchicalElement):
         p = self._ports.pop(el.uuid)
-        self.remove_element(id_name=p.id_name, uuid=p.uuid)
+        for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):
+            pass
 
     @property
     def sub_ports(self):
-- 
2.43.0


From 276e302d0b5c4e2183ad378bc23af1cb911f6c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 12/25] fix: removing an element from a hyperedge yields it

The element itself was iterated (TypeError), and non-relations are not in the
relation index (KeyError).
---
 framework_python/rei/hypergraph/base_elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 9cf22dd..36d0477 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -153,7 +153,8 @@ class HypergraphEdge(HypergraphElement):
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         _el = super().remove_element(id_name, uuid)
         for v in _el:
-            yield from self._sub_relations.pop(v.cid)
+            self._sub_relations = {cid: rel for cid, rel in self._sub_relations.items() if rel is not v}
+            yield v
 
     @property
     def sub_relations(self):
-- 
2.43.0


From 4ca310fa7559f6b6ab9e8b5ad4e4f80750efd250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 13/25] fix: removing an element from a relation honours the
 query

The arguments were ignored and the endpoint, which is not a subelement, was
looked up (KeyError).
---
 framework_python/rei/hypergraph/base_elements.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 36d0477..8333a2b 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -117,9 +117,10 @@ class HypergraphRelation(HierarchicalElement):
             element.connect(self)
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
-        el = self._sub_elements.pop(self.endpoint.uuid)
-        self._endpoint = None
-        yield el
+        for el in super().remove_element(id_name, uuid):
+            if el is self._endpoint:
+                self._endpoint = None
+            yield el
 
 
 class HypergraphEdge(HypergraphElement):
-- 
2.43.0


From 06801252eee47935ca6ae5c8370f163b81566e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 14/25] fix: adding an ancestor below its own descendant is
 rejected

It created a cycle and ended in a RecursionError with the hierarchy modified.
---
 framework_python/rei/foundations/conceptual_item.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index fe2d838..23f80b4 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -87,6 +87,11 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         # Forbid hierarchy recursion
         if element is self:
             raise ErrorRecursiveHierarchy
+        ancestor = self._parent
+        while ancestor is not None:
+            if ancestor is element:
+                raise ErrorRecursiveHierarchy
+            ancestor = ancestor.parent
         # Add as unique element
         if element.uuid not in self._sub_elements:
             self._sub_elements[element.uuid] = element
-- 
2.43.0


From e2c8dd63c4916c63d7752b33431d724f5044e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 15/25] fix: depth and qualified names follow when a subtree is
 moved or removed

The depth of descendants was never updated, the depth of removed elements kept
its old value, and descendants of removed elements kept their old names.
---
 framework_python/rei/foundations/conceptual_item.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 23f80b4..85e5eb0 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -125,7 +125,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 self._index_elements_by_name[id_name].pop(uuid)
                 # Invalidate parent
                 el.parent = None
-                el.update()
+                self.__update_element(el)
                 # Decrement element count
                 self._cnt_subelements -= 1
                 # Yield element
@@ -139,7 +139,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                     # Invalidate each element parent
                     el.parent = None
                     # Update timestamp etc.
-                    el.update()
+                    self.__update_element(el)
                     # Decrement by each element
                     self._cnt_subelements -= 1
                     # Yield element
@@ -151,7 +151,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 # Invalidate element parent
                 el.parent = None
                 # Update tiemstamp etc.
-                el.update()
+                self.__update_element(el)
                 # Decrement element
                 self._cnt_subelements -= 1
                 # Yield element
@@ -165,6 +165,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         __fringe.put(element)
         while not __fringe.empty():
             __next: HierarchicalElement = __fringe.get()
+            __next._depth = 0 if __next.parent is None else __next.parent.depth + 1
             __next.update()
             for e in __next.get_subelements(lambda x: True):
                 __fringe.put(e)
-- 
2.43.0


From 784ce90daecddec0d283e44aab1e0b0b75d1d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 16/25] fix: a removal whose name and identifier disagree
 changes nothing

The element was dropped from the container before the name was checked.
---
 framework_python/rei/foundations/conceptual_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 85e5eb0..be26c11 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -121,8 +121,8 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         if len(id_name) > 0:
             if uuid is not None:
-                el = self._sub_elements.pop(uuid)
                 self._index_elements_by_name[id_name].pop(uuid)
+                el = self._sub_elements.pop(uuid)
                 # Invalidate parent
                 el.parent = None
                 self.__update_element(el)
-- 
2.43.0


From 49335c8febd208152605ae6ecf7716453062710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 17/25] fix: add_elements and remove_elements work

Both passed things that are not awaitable to asyncio.gather.
---
 framework_python/rei/foundations/conceptual_item.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index be26c11..aa2e130 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -216,10 +216,11 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
 
 
     async def add_elements(self, elements: typing.Iterable[typing.Any]) -> asyncio.Future:
-        return asyncio.gather(self.add_element(x) for x in elements)
+        for x in elements:
+            self.add_element(x)
 
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
-        return asyncio.gather(*[self.remove_element(e[0], e[1]) for e in elements])
+        return [el for e in elements for el in self.remove_element(e[0], e[1])]
 
     def get_element_by_id_name(self, id_name: str) -> typing.Generator:
         tokens = id_name.split('/')
-- 
2.43.0


From 7318d0bb636a2c11713bf4fd80c2cc77942ef242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 18/25] fix: name paths may lead through missing names and any
 kind of element

A missing intermediate name raised KeyError (a missing last name yields
nothing), and relations, ports and values on the path had no lookup.
---
 .../rei/foundations/conceptual_item.py        | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index aa2e130..592e4af 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -159,6 +159,20 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
             else:
                 raise ErrorInvalidQuery
 
+    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
+        tokens = id_name.split('/')
+        if len(tokens) == 0:
+            raise InvalidQueryName
+        elif len(tokens) == 1:
+            if tokens[0] in self._index_elements_by_name:
+                yield from list(self._index_elements_by_name[tokens[0]].values())
+            else:
+                yield from []
+        else:
+            # Iterate all possible named elements
+            for v in list(self._index_elements_by_name.get(tokens[0], {}).values()):
+                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
+
     def __update_element(self, element):
         import queue
         __fringe = queue.Queue()
@@ -222,20 +236,6 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
         return [el for e in elements for el in self.remove_element(e[0], e[1])]
 
-    def get_element_by_id_name(self, id_name: str) -> typing.Generator:
-        tokens = id_name.split('/')
-        if len(tokens) == 0:
-            raise InvalidQueryName
-        elif len(tokens) == 1:
-            if tokens[0] in self._index_elements_by_name:
-                yield from list(self._index_elements_by_name[tokens[0]].values())
-            else:
-                yield from []
-        else:
-            # Iterate all possible named elements
-            for v in self._index_elements_by_name[tokens[0]].values():
-                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
-
     def update(self):
         self._update_timestamp()
         self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])
-- 
2.43.0


From bc54e70e0047dddd0f1057c6ad9200a1d19b67e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 19/25] fix: an edge without selected outgoing relation has no
 factor pairs

It raised KeyError.
---
 framework_python/rei/hypergraph/factorization_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 16163bd..c2c347b 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -87,7 +87,7 @@ class RelationFactorization2SubsetOperation(GraphMonad):
         # Pair relations
         for k in self.incoming_relations:
             for i_e in self.incoming_relations[k]:
-                for o_e in self.outgoing_relations[k]:
+                for o_e in self.outgoing_relations.get(k, []):
                     if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
                         self.__relation_list.append([i_e, o_e])
         # Relation list
-- 
2.43.0


From abc3c8a9235051787ed5d758433445f1c2447dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 20/25] fix: cylinder values are radius and length in the
 inertia as in the geometry

---
 framework_python/rei/format/phys/inertia_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index b0948c4..87e6ec6 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -56,8 +56,8 @@ def encode_inertia_element(element):
 
 
 def calc_cylinder_inertia(mass: float, geom: CylinderGeometry):
-    l = geom['values'][0]
-    r = geom['values'][1]
+    r = geom['values'][0]
+    l = geom['values'][1]
     ixy = 1.0/12.0*mass*(3*r*r+ l*l)
     izz = 0.5*mass*r*r
     return [ixy, ixy, izz, 0.0, 0.0, 0.0]
-- 
2.43.0


From b0e142f51bec53af16387fdb50ec995a8826e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 21/25] fix: inertia of an ellipsoid with three radii

None was returned, and encoding the link failed.
---
 framework_python/rei/format/phys/inertia_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index 87e6ec6..4924712 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -67,5 +67,7 @@ def calc_ellipsoid_inertia(mass: float, geom: EllipsoidGeometry):
         r = geom['values'][0]
         ixyz = 2.0/5.0*mass*r*r
         return [ixyz, ixyz, ixyz, 0.0, 0.0, 0.0]
+    a, b, c = geom['values']
+    return [mass/5.0*(b*b + c*c), mass/5.0*(a*a + c*c), mass/5.0*(a*a + b*b), 0.0, 0.0, 0.0]
 
 
-- 
2.43.0


From 190cf5760057f4086692e0bf16169a18003c318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 22/25] fix: searches do not return cached elements that were
 moved or removed

A cached element was returned for any start, even after its removal.
---
 .../rei/foundations/query/search_elements.py          | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 888defe..a2dbb0c 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -36,9 +36,18 @@ class GraphQuery(GraphMonad, ABC):
     async def _traverse(self, fringe: asyncio.Queue):
         raise NotImplementedError
 
+    def __is_cached_below(self, start) -> bool:
+        # The element may have been renamed or moved since it was cached
+        element = self._element_cache.get(self.query_def)
+        if element is None or element.qualified_name != self.query_def:
+            return False
+        while element is not None and element is not start:
+            element = element.parent
+        return element is start
+
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self._result = []
-        if self.query_def in self._element_cache:
+        if self.__is_cached_below(start):
             self._result = [self._element_cache[self.query_def]]
             return []
         __fringe, _task_list = self._setup_query()
-- 
2.43.0


From d4a012502f491cf524c8d44dce7257279449f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 23/25] fix: several visual groups keep their own materials

The materials of earlier groups were forgotten, and encoding them failed.
---
 framework_python/rei/format/phys/solid_geometry_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index ae6dffb..1ca4625 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -105,7 +105,7 @@ def encode_geometry_element(cont_node, prefix=""):
         mat = [x for x in n.get_subelements(lambda x: isinstance(x, VisualMaterial))]
         if len(mat) != 0:
             __sem_visual.extend(geometries)
-            __sem_material = ({i: mat[0] for i in geometries})
+            __sem_material.update({i: mat[0] for i in geometries})
         else:
             __sem_collision.extend(geometries)
     # Visual geometry setup
-- 
2.43.0


From a9f85ed3688ffdd7841f37145342e5a9cc375be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 24/25] fix: elements can be constructed below a relation

---
 framework_python/rei/hypergraph/base_elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 8333a2b..b70ba0e 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -33,10 +33,10 @@ class HypergraphElement(ConceptualItem):
 
     def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                  parent: HierarchicalElement = None):
-        super().__init__(id_name, uuid, qualified_name, clock, parent)
         self._id_generation = Sha3UniqueIdentifierGenerator(id_name, HypergraphElement.identification_generation)
-        # Ports to deduce associated relations
+        # Ports to deduce associated relations (before the element is added to its parent, which may connect it)
         self._ports: dict[bytes, HypergraphPort] = {}
+        super().__init__(id_name, uuid, qualified_name, clock, parent)
 
     @staticmethod
     def identification_generation(x: str, y: IdentifiableItem):
-- 
2.43.0


From add16b211e4cfd6c5bb9970fd7313d7faec7e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:44 +0000
Subject: [PATCH 25/25] fix: degree tensor of graphs without edges

---
 framework_python/rei/tensor/tensor_representation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index c9f91ce..d2f1982 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -31,10 +31,11 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
         return self.D - np.sum(self.W, axis=0)
 
     def diag_degree_tensor(self):
-        coeff = np.apply_along_axis(
-            np.diag, 1, 1.0/((np.sum(self.W, axis=1) == np.sum(self.W, axis=2)).astype(float) + 1))
-        __DD = np.apply_along_axis(np.diag, 1, np.sum(self.W, axis=1))
-        return __DD @ coeff
+        # Diagonal matrix of each edge (np.apply_along_axis cannot handle the absence of edges)
+        __eye = np.eye(self.W.shape[1])
+        coeff = 1.0/((np.sum(self.W, axis=1) == np.sum(self.W, axis=2)).astype(float) + 1)
+        __DD = np.sum(self.W, axis=1)
+        return (__DD[:, :, np.newaxis] * __eye) @ (coeff[:, :, np.newaxis] * __eye)
 
     def calc_normalized_laplacian(self):
         # As per Ouvrard
-- 
2.43.0

