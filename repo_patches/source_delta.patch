From 63c633e6b8c3eaf8be398f06db0226a1072513fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 01/70] fix: removing or modifying an already removed edge is
 no longer an out of bounds access

---
 include/higra/structure/undirected_graph.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/higra/structure/undirected_graph.hpp b/include/higra/structure/undirected_graph.hpp
index 512be0a..efebd9c 100644
--- a/include/higra/structure/undirected_graph.hpp
+++ b/include/higra/structure/undirected_graph.hpp
@@ -162,6 +162,9 @@ namespace hg {
             void remove_edge(edge_index_t ei) {
                 auto &source = edges[ei].source;
                 auto &target = edges[ei].target;
+                if (source == invalid_index) { // the edge has already been removed
+                    return;
+                }
                 remove_from_container(out_edges[source], ei);
                 if (source != target)
                     remove_from_container(out_edges[target], ei);
-- 
2.43.0


From 0a5f4f1d139979f8ceef0ca85b71ee7fc2e9ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 02/70] fix: undirected graphs with removed edges can be
 unpickled

---
 higra/structure/undirected_graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/higra/structure/undirected_graph.py b/higra/structure/undirected_graph.py
index 5cf8fd0..fc334ce 100644
--- a/higra/structure/undirected_graph.py
+++ b/higra/structure/undirected_graph.py
@@ -9,11 +9,16 @@
 ############################################################################
 
 import higra as hg
+import numpy as np
 
 
 def __reduce_ctr(num_vertices, sources, targets):
     graph = hg.UndirectedGraph(num_vertices)
-    graph.add_edges(sources, targets)
+    # removed edges are attached to the virtual vertex -1
+    removed_edges, = np.nonzero(sources < 0)
+    graph.add_edges(np.maximum(sources, 0), np.maximum(targets, 0))
+    for e in removed_edges:
+        graph.remove_edge(e)
     return graph
 
 
-- 
2.43.0


From 4fc44e88b2db5a7943121863ed7d5c292fd6b969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 03/70] fix: tree constructor refuses multidimensional parent
 arrays and out of range parents

---
 higra/structure/py_tree_graph.cpp      | 5 ++++-
 include/higra/structure/tree_graph.hpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/higra/structure/py_tree_graph.cpp b/higra/structure/py_tree_graph.cpp
index 4f08859..2597553 100644
--- a/higra/structure/py_tree_graph.cpp
+++ b/higra/structure/py_tree_graph.cpp
@@ -75,7 +75,10 @@ namespace py_tree_graph {
         static
         void def(C &c, const char *doc) {
             c.def(py::init(
-                          [](const pyarray<type> &parent, hg::tree_category category) { return graph_t(parent, category); }),
+                          [](const pyarray<type> &parent, hg::tree_category category) {
+                              hg_assert_1d_array(parent);
+                              return graph_t(parent, category);
+                          }),
                   doc,
                   py::arg("parent_relation"),
                   py::arg("category") = hg::tree_category::partition_tree
diff --git a/include/higra/structure/tree_graph.hpp b/include/higra/structure/tree_graph.hpp
index 5b7e0d1..000243b 100644
--- a/include/higra/structure/tree_graph.hpp
+++ b/include/higra/structure/tree_graph.hpp
@@ -271,6 +271,7 @@ namespace hg {
                     vertex_descriptor parent_v = _parents(v);
                     hg_assert(parent_v != v, "several root nodes detected");
                     hg_assert(parent_v > v, "nodes are not in a topological order");
+                    hg_assert(parent_v <= _root, "parent indices must be smaller than the number of nodes");
                     num_children(parent_v)++;
                 }
 
-- 
2.43.0


From d8925d1945f1556a2f1f7d1163e38d4f045bc496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 04/70] fix: unpickled trees keep their category

---
 higra/structure/tree_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/structure/tree_graph.py b/higra/structure/tree_graph.py
index fadae97..11cd13f 100644
--- a/higra/structure/tree_graph.py
+++ b/higra/structure/tree_graph.py
@@ -85,7 +85,7 @@ def __num_children(self, vertex=None):
 
 @hg.extend_class(hg.Tree, method_name="__reduce__")
 def ____reduce__(self):
-    return self.__class__, (self.parents(),), self.__dict__
+    return self.__class__, (self.parents(), self.category()), self.__dict__
 
 
 @hg.extend_class(hg.Tree, method_name="lowest_common_ancestor_preprocess")
-- 
2.43.0


From 85d9ba0d9089c1366060e8ba62efce6a874a291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:41 +0000
Subject: [PATCH 05/70] fix: node iterators excluding leaves and root are empty
 on a single node tree

---
 include/higra/structure/tree_graph.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/higra/structure/tree_graph.hpp b/include/higra/structure/tree_graph.hpp
index 000243b..ff38c2d 100644
--- a/include/higra/structure/tree_graph.hpp
+++ b/include/higra/structure/tree_graph.hpp
@@ -197,14 +197,16 @@ namespace hg {
                                          root_it root_opt = root_it::include) const {
                 vertex_descriptor start = (leaves_opt == leaves_it::include) ? 0 : num_leaves();
                 vertex_descriptor end = (root_opt == root_it::include) ? _num_vertices : _num_vertices - 1;
-                return irange<index_t>(start, end);
+                // a single node is both a leaf and the root
+                return irange<index_t>(start, (std::max)(start, end));
             }
 
             auto root_to_leaves_iterator(leaves_it leaves_opt = leaves_it::include,
                                          root_it root_opt = root_it::include) const {
                 vertex_descriptor end = (leaves_opt == leaves_it::include) ? -1 : num_leaves() - 1;
                 vertex_descriptor start = (root_opt == root_it::include) ? _num_vertices - 1 : _num_vertices - 2;
-                return irange<index_t>(start, end, -1);
+                // a single node is both a leaf and the root
+                return irange<index_t>((std::max)(start, end), end, -1);
             }
 
             auto edge_from_index(edge_index_t ei) const {
-- 
2.43.0


From 2f92399a903376d8ae44c9daa69e9bc03a66f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 06/70] fix: embeddings refuse points whose number of
 coordinates is not their dimension

---
 include/higra/structure/embedding.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/higra/structure/embedding.hpp b/include/higra/structure/embedding.hpp
index 0157039..c54825a 100644
--- a/include/higra/structure/embedding.hpp
+++ b/include/higra/structure/embedding.hpp
@@ -166,6 +166,7 @@ namespace hg {
                     typename = std::enable_if_t<!std::is_base_of<xt::xexpression<T>, T>::value>
             >
             index_t grid2lin(const T &coordinates) const {
+                hg_assert(coordinates.size() == dim, "Coordinates size does not match embedding dimension.");
                 index_t result = 0;
                 index_t count = 0;
                 for (const auto &c: coordinates)
@@ -200,7 +201,8 @@ namespace hg {
                 static_assert(std::is_integral<typename T::value_type>::value,
                               "Coordinates must have integral value type.");
                 const auto &coordinates = xcoordinates.derived_cast();
-                //hg_assert(coordinates.shape().back() == dim, "Coordinates size does not match embedding dimension.");
+                hg_assert(coordinates.dimension() > 0 && coordinates.shape().back() == dim,
+                          "Coordinates size does not match embedding dimension.");
 
                 auto last = coordinates.dimension() - 1;
                 return xt::sum(coordinates * sum_prod, {last});
@@ -258,7 +260,8 @@ namespace hg {
                               "Coordinates must have integral value type.");
 
                 const auto &coordinates = xcoordinates.derived_cast();
-                hg_assert(coordinates.shape().back() == dim, "Coordinates size does not match embedding dimension.");
+                hg_assert(coordinates.dimension() > 0 && coordinates.shape().back() == dim,
+                          "Coordinates size does not match embedding dimension.");
 
                 return xt::amin(coordinates >= 0 && coordinates < _shape, {coordinates.dimension() - 1});
             }
@@ -272,7 +275,7 @@ namespace hg {
                     typename = std::enable_if_t<!std::is_base_of<xt::xexpression<T>, T>::value>
             >
             bool contains(const T &coordinates) const {
-
+                hg_assert(coordinates.size() == dim, "Coordinates size does not match embedding dimension.");
                 index_t count = 0;
                 for (const auto &c: coordinates)
                     if (c < 0 || c >= _shape(count++))
-- 
2.43.0


From a1e33f8c869a8492f42766c5c4018cffcda671e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 07/70] fix: move assignment of Fibonacci heaps returns its
 target and releases its elements

---
 include/higra/structure/fibonacci_heap.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/higra/structure/fibonacci_heap.hpp b/include/higra/structure/fibonacci_heap.hpp
index 00eb56a..1f9969b 100644
--- a/include/higra/structure/fibonacci_heap.hpp
+++ b/include/higra/structure/fibonacci_heap.hpp
@@ -166,10 +166,14 @@ namespace hg {
             }
 
             fibonacci_heap &operator=(fibonacci_heap &&other) {
-                m_heap = other.m_heap;
-                m_size = other.m_size;
-                other.m_heap = nullptr;
-                other.m_size = 0;
+                if (this != &other) {
+                    clear();
+                    m_heap = other.m_heap;
+                    m_size = other.m_size;
+                    other.m_heap = nullptr;
+                    other.m_size = 0;
+                }
+                return *this;
             }
 
             /**
-- 
2.43.0


From d630595fbe5a4dc3ff98cf4308cc2889ecc1b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 08/70] fix: mean accumulator forgets its counter when it is
 initialized again

---
 include/higra/accumulator/accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index 3e96597..98b3074 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -156,12 +156,14 @@ namespace hg {
             template<typename T = self_type, typename ...Args>
             typename std::enable_if_t<T::is_vectorial>
             initialize(Args &&...) {
+                m_counter = 0;
                 std::fill(m_storage_begin, m_storage_end, 0);
             }
 
             template<typename T = self_type, typename ...Args>
             typename std::enable_if_t<!T::is_vectorial>
             initialize(Args &&...) {
+                m_counter = 0;
                 *m_storage_begin = 0;
             }
 
-- 
2.43.0


From 1729a08d4f209c3940f55e95ec76f04545f6e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 09/70] fix: tree accumulations on a single node tree do not
 access an empty list of accumulators

---
 include/higra/accumulator/tree_accumulator.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/higra/accumulator/tree_accumulator.hpp b/include/higra/accumulator/tree_accumulator.hpp
index c0fb2d0..4482be6 100644
--- a/include/higra/accumulator/tree_accumulator.hpp
+++ b/include/higra/accumulator/tree_accumulator.hpp
@@ -82,7 +82,9 @@ namespace hg {
                     input_view.set_position(i);
                     accs[p - numl].accumulate(input_view.begin());
                 }
-                accs.back().finalize();
+                if (!accs.empty()) {
+                    accs.back().finalize();
+                }
             }
 
             return output;
@@ -149,7 +151,9 @@ namespace hg {
                     input_view.set_position(i);
                     accs[p - numl].accumulate(input_view.begin());
                 }
-                accs.back().finalize();
+                if (!accs.empty()) {
+                    accs.back().finalize();
+                }
             }
 
             return output;
@@ -239,10 +243,12 @@ namespace hg {
                     accs[p - numl].accumulate(inout_view.begin());
                 }
 
-                accs.back().finalize();
-                input_view.set_position(root(tree));
-                output_view.set_position(root(tree));
-                output_view.combine(input_view, combine);
+                if (!accs.empty()) {
+                    accs.back().finalize();
+                    input_view.set_position(root(tree));
+                    output_view.set_position(root(tree));
+                    output_view.combine(input_view, combine);
+                }
             }
 
             return output;
-- 
2.43.0


From 2449c7d64eb116533fe815fc06f47d524527e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 10/70] fix: graph accumulators finalize the accumulation: the
 mean of the edges or vertices around a vertex was their sum

---
 include/higra/accumulator/graph_accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/accumulator/graph_accumulator.hpp b/include/higra/accumulator/graph_accumulator.hpp
index ce7e431..93a27c2 100644
--- a/include/higra/accumulator/graph_accumulator.hpp
+++ b/include/higra/accumulator/graph_accumulator.hpp
@@ -49,6 +49,7 @@ namespace hg {
                     input_view.set_position(e);
                     acc.accumulate(input_view.begin());
                 }
+                acc.finalize();
             }
 
             return output;
@@ -84,6 +85,7 @@ namespace hg {
                     input_view.set_position(v);
                     acc.accumulate(input_view.begin());
                 }
+                acc.finalize();
             }
 
             return output;
-- 
2.43.0


From b5f5e71fdef8b6994fea0694129a7f6e9eb4d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 11/70] fix: accumulate_at refuses indices smaller than -1

---
 include/higra/accumulator/at_accumulator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/higra/accumulator/at_accumulator.hpp b/include/higra/accumulator/at_accumulator.hpp
index c972a23..132d074 100644
--- a/include/higra/accumulator/at_accumulator.hpp
+++ b/include/higra/accumulator/at_accumulator.hpp
@@ -28,6 +28,7 @@ namespace hg {
             HG_TRACE();
             auto &weights = xweights.derived_cast();
             hg_assert(weights.shape()[0] == indices.size(), "Weights dimension does not match rag map dimension.");
+            hg_assert((xt::amin)(indices)() >= invalid_index, "Indices cannot be smaller than -1.");
 
             index_t size = xt::amax(indices)() + 1;
             auto data_shape = std::vector<size_t>(weights.shape().begin() + 1, weights.shape().end());
-- 
2.43.0


From 676429fbe2cbc8760309b17bb0ca3161b07fcbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:35 +0000
Subject: [PATCH 12/70] fix: minimum spanning tree of the graph without
 vertices does not allocate a negative number of edges

---
 include/higra/algo/graph_core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/algo/graph_core.hpp b/include/higra/algo/graph_core.hpp
index eaabd35..ef88012 100644
--- a/include/higra/algo/graph_core.hpp
+++ b/include/higra/algo/graph_core.hpp
@@ -138,7 +138,7 @@ namespace hg {
 
         auto num_points = num_vertices(graph);
 
-        auto num_edge_mst_max = num_points - 1;
+        auto num_edge_mst_max = (num_points > 0) ? num_points - 1 : 0;
         ugraph mst(num_points);
         array_1d<index_t> mst_edge_map = xt::empty<index_t>({num_edge_mst_max});
 
-- 
2.43.0


From 2f64d443b4d84c48c44f6f905613076841f03163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 13/70] fix: simplify_tree (and quasi-flat zones) of a tree
 reduced to its root does not write out of bounds

---
 include/higra/hierarchy/hierarchy_core.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/higra/hierarchy/hierarchy_core.hpp b/include/higra/hierarchy/hierarchy_core.hpp
index 35f44e8..0804deb 100644
--- a/include/higra/hierarchy/hierarchy_core.hpp
+++ b/include/higra/hierarchy/hierarchy_core.hpp
@@ -168,6 +168,11 @@ namespace hg {
     auto simplify_tree(const tree &t, const criterion_t &criterion, bool process_leaves = false) {
         HG_TRACE();
 
+        // the root is never removed: nothing to do if it is also the only leaf
+        if (num_vertices(t) == 1) {
+            array_1d<index_t> node_map = xt::zeros<index_t>({1});
+            return make_remapped_tree(tree(node_map, t.category()), std::move(node_map));
+        }
 
         // this case is significantly harder because a reordering of the nodes
         // may append if an internal node becomes a leaf
-- 
2.43.0


From 516b9693e21821bed6b09a4fbc43bd18c162af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 14/70] fix: bpt_canonical of a minimum spanning tree maps its
 nodes to edges of the base graph, which is its leaf graph

---
 higra/hierarchy/hierarchy_core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/higra/hierarchy/hierarchy_core.py b/higra/hierarchy/hierarchy_core.py
index 64a4fa7..56b35d1 100644
--- a/higra/hierarchy/hierarchy_core.py
+++ b/higra/hierarchy/hierarchy_core.py
@@ -176,14 +176,17 @@ def bpt_canonical(graph, edge_weights=None, sorted_edge_indices=None, return_alt
     if input_is_graph_object:
         # if the base graph is itself a mst, we take the base graph of this mst as the new base graph
         if hg.CptMinimumSpanningTree.validate(graph):
-            leaf_graph = hg.CptMinimumSpanningTree.construct(graph)["base_graph"]
+            mst_data = hg.CptMinimumSpanningTree.construct(graph)
+            leaf_graph = mst_data["base_graph"]
+            # the mst edge map designates edges of the leaf graph
+            mst_edge_map = mst_data["mst_edge_map"][mst_edge_map]
         else:
             leaf_graph = graph
 
         hg.CptHierarchy.link(tree, leaf_graph)
 
     if compute_mst and input_is_graph_object:
-        mst = hg.subgraph(graph, mst_edge_map)
+        mst = hg.subgraph(leaf_graph, mst_edge_map)
         hg.CptMinimumSpanningTree.link(mst, leaf_graph, mst_edge_map)
     else:
         mst = None
-- 
2.43.0


From e455bc53479d897b810fddab2f042279ac907740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 15/70] fix: supervertices_hierarchy terminates when the root
 has a null altitude

---
 include/higra/algo/tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/higra/algo/tree.hpp b/include/higra/algo/tree.hpp
index 5f26db4..bb24a2b 100644
--- a/include/higra/algo/tree.hpp
+++ b/include/higra/algo/tree.hpp
@@ -180,7 +180,8 @@ namespace hg {
                 if (new_order(e) != invalid_index) {
                     lbl = new_order(e);
                 }
-            } while (altitudes(e) == 0 && lbl == invalid_index);
+                // the root is its own parent
+            } while (e != stack.top() && altitudes(e) == 0 && lbl == invalid_index);
 
             removed += stack.size();
 
-- 
2.43.0


From 64af4ee49e58de4b099422aca3a44a3c5cbdd50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 16/70] fix: arguments whose type has no overload (bool,
 float16, sequences...) are converted to the widest type instead of int8 or
 float

---
 include/higra/utils.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/higra/utils.hpp b/include/higra/utils.hpp
index 1d05c03..2988134 100644
--- a/include/higra/utils.hpp
+++ b/include/higra/utils.hpp
@@ -152,15 +152,17 @@ namespace hg {
 #define HG_STR(a) #a
 
 
-#define HG_TEMPLATE_SINTEGRAL_TYPES   int8_t, int16_t, int32_t, int64_t
+// the python overload that is registered first receives the arguments whose type has no overload of its own (bool, float16,
+// sequences, ...): the widest type comes first
+#define HG_TEMPLATE_SINTEGRAL_TYPES   int64_t, int32_t, int16_t, int8_t
 
-#define HG_TEMPLATE_INTEGRAL_TYPES    int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t
+#define HG_TEMPLATE_INTEGRAL_TYPES    int64_t, uint64_t, int32_t, uint32_t, int16_t, uint16_t, int8_t, uint8_t
 
-#define HG_TEMPLATE_FLOAT_TYPES       float, double
+#define HG_TEMPLATE_FLOAT_TYPES       double, float
 
-#define HG_TEMPLATE_NUMERIC_TYPES     int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float, double
+#define HG_TEMPLATE_NUMERIC_TYPES     double, float, int64_t, uint64_t, int32_t, uint32_t, int16_t, uint16_t, int8_t, uint8_t
 
-#define HG_TEMPLATE_SNUMERIC_TYPES    int8_t, int16_t, int32_t, int64_t, float, double
+#define HG_TEMPLATE_SNUMERIC_TYPES    double, float, int64_t, int32_t, int16_t, int8_t
 
 
 namespace xt {
-- 
2.43.0


From 3f5a7ef03b5010326cf91693624fad000b9e854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 17/70] fix: quasi-flat zones and trees of shapes of all
 numeric types (unsigned weights were wrapped to int8)

---
 higra/hierarchy/py_hierarchy_core.cpp | 2 +-
 higra/image/py_tree_of_shapes.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/higra/hierarchy/py_hierarchy_core.cpp b/higra/hierarchy/py_hierarchy_core.cpp
index c8b5fe2..e12541b 100644
--- a/higra/hierarchy/py_hierarchy_core.cpp
+++ b/higra/hierarchy/py_hierarchy_core.cpp
@@ -85,7 +85,7 @@ namespace py_hierarchy_core {
               py::arg("deleted_nodes"),
               py::arg("process_leaves"));
 
-        add_type_overloads<def_quasi_flat_zone_hierarchy<hg::ugraph>, HG_TEMPLATE_SNUMERIC_TYPES>
+        add_type_overloads<def_quasi_flat_zone_hierarchy<hg::ugraph>, HG_TEMPLATE_NUMERIC_TYPES>
                 (m,
                  "Compute the quasi flat zones hierarchy of the given weighted graph."
                 );
diff --git a/higra/image/py_tree_of_shapes.cpp b/higra/image/py_tree_of_shapes.cpp
index fb506d3..5b27ee6 100644
--- a/higra/image/py_tree_of_shapes.cpp
+++ b/higra/image/py_tree_of_shapes.cpp
@@ -60,7 +60,7 @@ struct def_tree_of_shapes {
     void py_init_tree_of_shapes_image(pybind11::module &m) {
         //xt::import_numpy();
 
-    add_type_overloads<def_tree_of_shapes, uint8_t, uint16_t, int32_t, int64_t, float, double>
+    add_type_overloads<def_tree_of_shapes, HG_TEMPLATE_NUMERIC_TYPES>
             (m, "");
 
 
-- 
2.43.0


From ac3a498ef489ff4ecaa7dffa3fd2b0a8647caa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:17 +0000
Subject: [PATCH 18/70] fix: binary partition trees of graphs with self loops
 or more than two parallel edges between regions do not corrupt the tree

---
 include/higra/hierarchy/binary_partition_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/higra/hierarchy/binary_partition_tree.hpp b/include/higra/hierarchy/binary_partition_tree.hpp
index deadfef..2987ed7 100644
--- a/include/higra/hierarchy/binary_partition_tree.hpp
+++ b/include/higra/hierarchy/binary_partition_tree.hpp
@@ -520,7 +520,7 @@ namespace hg {
 
         for (auto v: vertex_iterator(graph)) {
             for (auto &e: out_edge_iterator(v, g)) {
-                if (!active(e)) {
+                if (!active(e) && source(e, g) != target(e, g)) { // self loops never link two regions
                     heap_handles(e) = heap.push({edge_weights(e), e});
                     active(e) = true;
                 }
@@ -562,8 +562,12 @@ namespace hg {
                         index_t region, index_t other_region) {
                     for (auto e: out_edge_iterator(region, g)) {
                         auto n = other_vertex(e, region, g);
+                        if (n == region) { // self loop
+                            continue;
+                        }
                         if (n != other_region) { // may happen with multiple edges
-                            if (new_neighbour_indices[n] != invalid_index) {
+                            if (new_neighbour_indices[n] != invalid_index &&
+                                new_neighbours[new_neighbour_indices[n]].num_edges() == 1) {
                                 new_neighbours[new_neighbour_indices[n]].second_edge_index() = e;
                             } else {
                                 new_neighbour_indices[n] = new_neighbours.size();
-- 
2.43.0


From 7cf82f263e11f6638306e9fca7f4ed1fe26d1365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 19/70] fix: mean padding of trees of shapes does not overflow
 the pixel type and counts the boundary of thin volumes right

---
 include/higra/image/tree_of_shapes.hpp | 43 +++++++++++++++-----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/higra/image/tree_of_shapes.hpp b/include/higra/image/tree_of_shapes.hpp
index 3d4074d..7496c00 100644
--- a/include/higra/image/tree_of_shapes.hpp
+++ b/include/higra/image/tree_of_shapes.hpp
@@ -274,6 +274,14 @@ namespace hg {
             }
         }
 
+        /**
+         * Middle of the interval [low, high] (without overflow)
+         */
+        template<typename value_type>
+        value_type interval_middle(value_type low, value_type high) {
+            return (low == high) ? low : (value_type) (low / 2.0 + high / 2.0);
+        }
+
         template<typename graph_t,
                 typename T,
                 typename value_type = typename T::value_type,
@@ -288,8 +296,7 @@ namespace hg {
             array_1d<value_type> enqueued_level = array_1d<value_type>::from_shape({num_v});
             integer_level_multi_queue<value_type, index_t> queue(xt::amin(plain_map)(), xt::amax(plain_map)());
 
-            value_type current_level = (value_type) ((plain_map(exterior_vertex, 0) + plain_map(exterior_vertex, 1)) /
-                                                     2.0);
+            value_type current_level = interval_middle(plain_map(exterior_vertex, 0), plain_map(exterior_vertex, 1));
             queue.push(current_level, exterior_vertex);
             dejavu(exterior_vertex) = true;
 
@@ -345,8 +352,7 @@ namespace hg {
                 }
             };
 
-            value_type current_level = (value_type) ((plain_map(exterior_vertex, 0) + plain_map(exterior_vertex, 1)) /
-                                                     2.0);
+            value_type current_level = interval_middle(plain_map(exterior_vertex, 0), plain_map(exterior_vertex, 1));
 
             auto position = queue.insert({current_level, exterior_vertex});
             dejavu(exterior_vertex) = true;
@@ -381,6 +387,7 @@ namespace hg {
 
 
             value_type pad_value = 0;
+            double sum = 0; // the sum may not be representable by value_type
             switch (padding) {
                 case tos_padding::zero:
                     pad_value = 0;
@@ -392,27 +399,27 @@ namespace hg {
                         size_t w = image.shape(1);
                         size_t num_elements = w;
                         for(size_t x = 0; x < w; x++){
-                            pad_value += image(0, x);
+                            sum += image(0, x);
                         }
                         if(h > 1){
                             for(size_t x = 0; x < w; x++){
-                                pad_value += image(h - 1, x);
+                                sum += image(h - 1, x);
                             }
                             num_elements += w;
                         }
                         if(h > 2){
                             for(size_t y = 1; y < h - 1; y++){
-                                pad_value += image(y, 0);
+                                sum += image(y, 0);
                             }
                             num_elements += (h - 2);
                             if (w > 1){
                                 for(size_t y = 1; y < h - 1; y++){
-                                    pad_value += image(y, w - 1);
+                                    sum += image(y, w - 1);
                                 }
                                 num_elements += (h - 2);
                             }
                         }
-                        pad_value /= num_elements;
+                        pad_value = (value_type) (sum / num_elements);
                     }else if(dim == 3){
                         size_t d = image.shape(0);
                         size_t h = image.shape(1);
@@ -420,13 +427,13 @@ namespace hg {
                         size_t num_elements = w * h;
                         for(size_t y = 0; y < h; y++){
                             for(size_t x = 0; x < w; x++){
-                                pad_value += image(0, y, x);
+                                sum += image(0, y, x);
                             }
                         }
                         if(d > 1){
                             for(size_t y = 0; y < h; y++){
                                 for(size_t x = 0; x < w; x++){
-                                    pad_value += image(d - 1, y, x);
+                                    sum += image(d - 1, y, x);
                                 }
                             }
                             num_elements += w * h;
@@ -434,34 +441,34 @@ namespace hg {
                         if(d > 2){
                             for(size_t z = 1; z < d - 1; z++){
                                 for(size_t y = 0; y < h; y++){
-                                    pad_value += image(z, y, 0);
+                                    sum += image(z, y, 0);
                                 }
                             }
                             num_elements += (d - 2) * h;
                             if (w > 1){
                                 for(size_t z = 1; z < d - 1; z++){
                                     for(size_t y = 0; y < h; y++){
-                                        pad_value += image(z, y, w - 1);
+                                        sum += image(z, y, w - 1);
                                     }
                                 }
                                 num_elements += (d - 2) * h;
                             }
                             for(size_t z = 1; z < d - 1; z++){
                                 for(size_t x = 1; x < w - 1; x++){
-                                    pad_value += image(z, 0, x);
+                                    sum += image(z, 0, x);
                                 }
                             }
-                            num_elements += (d - 2) * (w - 2);
+                            num_elements += (d - 2) * (std::max<size_t>(w, 2) - 2);
                             if (h > 1){
                                 for(size_t z = 1; z < d - 1; z++){
                                     for(size_t x = 1; x < w - 1; x++){
-                                        pad_value += image(z, h - 1, x);
+                                        sum += image(z, h - 1, x);
                                     }
                                 }
-                                num_elements += (d - 2) * (w - 2);
+                                num_elements += (d - 2) * (std::max<size_t>(w, 2) - 2);
                             }
                         }
-                        pad_value /= num_elements;
+                        pad_value = (value_type) (sum / num_elements);
                     }else{
                         throw std::runtime_error("Unsupported dimension");
                     }
-- 
2.43.0


From 52b5b94ac7b2e20a43432c12058b3ccd77ee7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 20/70] fix: trees of shapes check and use the requested
 exterior vertex

---
 higra/image/tree_of_shapes.py          | 4 ++--
 include/higra/image/tree_of_shapes.hpp | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/higra/image/tree_of_shapes.py b/higra/image/tree_of_shapes.py
index e6ab2cb..f30457b 100644
--- a/higra/image/tree_of_shapes.py
+++ b/higra/image/tree_of_shapes.py
@@ -27,7 +27,7 @@ def component_tree_tree_of_shapes_image2d(image, padding='mean', original_size=T
     """
 
     assert len(image.shape) == 2, "This tree of shapes implementation only supports 2d images."
-    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion)
+    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion, exterior_vertex)
 
 
 
@@ -131,7 +131,7 @@ def component_tree_tree_of_shapes_image3d(image, padding='mean', original_size=T
 
     assert len(image.shape) == 3, "This tree of shapes implementation only supports 3d images."
 
-    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion)
+    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion, exterior_vertex)
 
 def component_tree_tree_of_shapes_image(image, padding='mean', original_size=True, immersion=True, exterior_vertex=0):
     """
diff --git a/include/higra/image/tree_of_shapes.hpp b/include/higra/image/tree_of_shapes.hpp
index 7496c00..7eb15c7 100644
--- a/include/higra/image/tree_of_shapes.hpp
+++ b/include/higra/image/tree_of_shapes.hpp
@@ -642,6 +642,7 @@ namespace hg {
         auto &image = ximage.derived_cast();
         const int dim = image.dimension();
         hg_assert(dim == 2 || dim == 3, "image must be a 2d or 3d array");
+        hg_assert(image.size() > 0, "image must not be empty");
 
         using value_type = typename T::value_type;
 
@@ -673,6 +674,8 @@ namespace hg {
         }
         size_t h_plain_map = (immersion)? (h + padding_size * 2) * 2 - 1 : h + padding_size * 2;
         size_t w_plain_map = (immersion)? (w + padding_size * 2) * 2 - 1 : w + padding_size * 2;
+        hg_assert(exterior_vertex >= 0 && exterior_vertex < (index_t) (d_plain_map * h_plain_map * w_plain_map),
+                  "exterior_vertex is not in the padded/interpolated image");
 
 
         // ----------------
-- 
2.43.0


From b99b5f2745aaf5f3b60734e0a7170fdccb885b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 21/70] fix: component trees of an empty graph are refused

---
 include/higra/hierarchy/component_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/higra/hierarchy/component_tree.hpp b/include/higra/hierarchy/component_tree.hpp
index f046954..decb4c9 100644
--- a/include/higra/hierarchy/component_tree.hpp
+++ b/include/higra/hierarchy/component_tree.hpp
@@ -128,6 +128,7 @@ namespace hg {
         template<typename graph_t, typename T1, typename T2>
         auto
         tree_from_sorted_vertices(const graph_t &graph, const T1 &vertex_weights, const T2 &sorted_vertex_indices) {
+            hg_assert(num_vertices(graph) > 0, "The graph must not be empty.");
             auto parents = pre_tree_construction(graph, sorted_vertex_indices);
             canonize_tree(parents, vertex_weights, sorted_vertex_indices);
             auto res = expand_canonized_parent_relation(parents, vertex_weights, sorted_vertex_indices);
-- 
2.43.0


From 62304bff3c9dd7ccd6759b783e3bde092263f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:47 +0000
Subject: [PATCH 22/70] fix: multivariate trees of shapes with padding and no
 immersion keep every pixel

---
 higra/image/tree_of_shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/image/tree_of_shapes.py b/higra/image/tree_of_shapes.py
index f30457b..907a95c 100644
--- a/higra/image/tree_of_shapes.py
+++ b/higra/image/tree_of_shapes.py
@@ -96,7 +96,7 @@ def component_tree_multivariate_tree_of_shapes_image2d(image, padding='mean', or
                 deleted[0::2, 0::2] = False
         else:
             if padding != "none":
-                deleted[1:-1, 1::-1] = False
+                deleted[1:-1, 1:-1] = False
 
         all_deleted = hg.accumulate_sequential(tree, deleted_vertices, hg.Accumulators.min)
         shape = (image.shape[0], image.shape[1])
-- 
2.43.0


From cf47d2faaeb4c365147163b449bf816df67e4955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:15 +0000
Subject: [PATCH 23/70] fix: tree fusion identifies the nodes with the same
 leaves, whatever the order of the trees, and never an internal node with a
 leaf

---
 higra/algo/tree_fusion.py          |  7 +++++--
 include/higra/algo/tree_fusion.hpp | 33 ++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/higra/algo/tree_fusion.py b/higra/algo/tree_fusion.py
index 986535e..ab3578f 100644
--- a/higra/algo/tree_fusion.py
+++ b/higra/algo/tree_fusion.py
@@ -43,8 +43,11 @@ def tree_fusion_depth_map(*trees):
     and :math:`D` the number of trees. If we denote by :math:`K` the depth of the deepest tree to merge, one can rewrite
     the runtime complexity as :math:`\mathcal{O}(NKD^2)`.
 
-    :param trees: at least two trees defined over the same domain
+    :param trees: at least two trees defined over the same domain (several arguments or a sequence)
     :return: a depth map representing the fusion of the input trees
     """
 
-    return hg.cpp._tree_fusion_depth_map(*trees)
+    if len(trees) == 1:
+        trees = trees[0]  # a sequence of trees
+
+    return hg.cpp._tree_fusion_depth_map(trees)
diff --git a/include/higra/algo/tree_fusion.hpp b/include/higra/algo/tree_fusion.hpp
index c80177f..79f6e06 100644
--- a/include/higra/algo/tree_fusion.hpp
+++ b/include/higra/algo/tree_fusion.hpp
@@ -31,7 +31,7 @@ namespace hg {
             hg_assert(ntrees > 1, "Fusion requires at least two trees");
             auto nleaves = num_leaves(**first);
             for (tree_iterator t = first; t != last; t++) {
-                hg_assert(num_leaves(**t), "All trees must have the same number of leaves.");
+                hg_assert(num_leaves(**t) == nleaves, "All trees must have the same number of leaves.");
             }
 
             // cheap digraph!
@@ -43,8 +43,12 @@ namespace hg {
             for (ti = first, i = 0; ti != last; ti++, i++) {
                 areas.push_back(attribute_area(**ti));
                 for (tj = first, j = 0; tj != last; tj++, j++) {
-                    if (j != i) {
-                        ses(i, j) = attribute_smallest_enclosing_shape(**ti, **tj);
+                    ses(i, j) = attribute_smallest_enclosing_shape(**ti, **tj);
+                    // an internal node which holds a single leaf is not a leaf
+                    for (index_t n: leaves_to_root_iterator(**ti, leaves_it::exclude)) {
+                        if (is_leaf(ses(i, j)(n), **tj)) {
+                            ses(i, j)(n) = parent(ses(i, j)(n), **tj);
+                        }
                     }
                 }
             }
@@ -59,7 +63,11 @@ namespace hg {
             // add leaves
             adj_lists.resize(nleaves);
 
-            // add internal nodes (except root) and avoid duplication
+            // add root
+            auto rootn = adj_lists.size();
+            adj_lists.emplace_back();
+
+            // add internal nodes (except root) and avoid duplication: two nodes with the same leaves are the same node of the GOS
             for (ti = first, i = 0; ti != last; ti++, i++) {
                 node_maps.emplace_back(array_1d<index_t>::from_shape({num_vertices(**ti)}));
                 // create leaves association
@@ -67,9 +75,13 @@ namespace hg {
 
                 for (index_t n: leaves_to_root_iterator(**ti, leaves_it::exclude, root_it::exclude)) {
                     bool keep = true;
-                    for (index_t j = 0; j < i && keep; j++) {
+                    if (areas[i](n) == (index_t) nleaves) {
+                        keep = false;
+                        node_maps[i](n) = rootn;
+                    }
+                    for (index_t j = 0; j <= i && keep; j++) {
                         auto ses_ij_n = ses(i, j)(n);
-                        if (areas[j](ses_ij_n) == areas[i](n)) {
+                        if ((j != i || ses_ij_n != n) && areas[j](ses_ij_n) == areas[i](n)) {
                             keep = false;
                             node_maps[i](n) = node_maps[j](ses_ij_n);
                         }
@@ -81,9 +93,6 @@ namespace hg {
                 }
             }
 
-            // add root
-            auto rootn = adj_lists.size();
-            adj_lists.emplace_back();
             for (ti = first, i = 0; ti != last; ti++, i++) {
                 node_maps[i](root(**ti)) = rootn;
             }
@@ -95,7 +104,9 @@ namespace hg {
             for (ti = first, i = 0; ti != last; ti++, i++) {
                 for (index_t n: leaves_to_root_iterator(**ti, leaves_it::include, root_it::exclude)) {
                     auto represent_n = node_maps[i](n);
-                    adj_lists[node_maps[i](parent(n, **ti))].push_back(represent_n);
+                    if (node_maps[i](parent(n, **ti)) != represent_n) {
+                        adj_lists[node_maps[i](parent(n, **ti))].push_back(represent_n);
+                    }
                     for (j = 0; j < (index_t) ntrees; j++) {
                         if (i != j) {
                             auto ses_ij_n = ses(i, j)(n);
@@ -147,7 +158,7 @@ namespace hg {
             * Depth of the nodes of the GOS
             */
             array_1d<index_t> depth = xt::zeros<index_t>({nnodes});
-            for (index_t i = nnodes - 1; i >= 0; i--) {
+            for (index_t i = count - 1; i >= 0; i--) {
                 index_t n = sorted_nodes[i];
                 for (auto o: adj_lists[n]) {
                     depth(o) = (std::max)(depth(o), depth(n) + 1);
-- 
2.43.0


From db1e215ebe617766e7034d3e2fa260032ab94305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:10 +0000
Subject: [PATCH 24/70] fix: region adjacency graphs of graph cuts have no self
 loop for cut edges inside a region

---
 include/higra/algo/rag.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/higra/algo/rag.hpp b/include/higra/algo/rag.hpp
index 304734d..0ed1fef 100644
--- a/include/higra/algo/rag.hpp
+++ b/include/higra/algo/rag.hpp
@@ -170,7 +170,8 @@ namespace hg {
                                     s.push(adjv);
                                 }
                             } else {
-                                if (vertex_map[adjv] != invalid_index) {
+                                // an edge of the cut may also link two vertices of the same region
+                                if (vertex_map[adjv] != invalid_index && vertex_map[adjv] != num_regions) {
                                     auto num_region_adjacent = vertex_map[adjv];
                                     if (canonical_edge_indexes[num_region_adjacent] < lowest_edge) {
                                         add_edge(num_region_adjacent, num_regions, rag);
-- 
2.43.0


From d6732b0e9a53a304b253a2584beafbd7ca42f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:00 +0000
Subject: [PATCH 25/70] fix: alignment functions refuse labels out of range
 instead of reading or writing out of bounds

---
 include/higra/algo/alignment.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/higra/algo/alignment.hpp b/include/higra/algo/alignment.hpp
index 75afd27..ce2362b 100644
--- a/include/higra/algo/alignment.hpp
+++ b/include/higra/algo/alignment.hpp
@@ -53,6 +53,10 @@ namespace hg {
         hg_assert(labelisation_fine.size() == labelisation_coarse.size(),
                   "Labelisations must have the same size.");
 
+        hg_assert(labelisation_fine.size() > 0, "Labelisations must not be empty.");
+        hg_assert(xt::amin(labelisation_fine)() >= 0 && xt::amin(labelisation_coarse)() >= 0,
+                  "Labels must be positive.");
+
         if (num_regions_fine == 0) {
             num_regions_fine = xt::amax(labelisation_fine)(0) + 1;
         }
@@ -61,6 +65,10 @@ namespace hg {
             num_regions_coarse = xt::amax(labelisation_coarse)(0) + 1;
         }
 
+        hg_assert((size_t) xt::amax(labelisation_fine)() < num_regions_fine &&
+                  (size_t) xt::amax(labelisation_coarse)() < num_regions_coarse,
+                  "Labels must be smaller than the number of regions.");
+
         array_2d<size_t> intersections = xt::zeros<size_t>({num_regions_fine, num_regions_coarse});
 
         for (index_t i = 0; i < (index_t)labelisation_fine.size(); i++) {
@@ -103,6 +111,9 @@ namespace hg {
             hg_assert(rag_fine.vertex_map.size() == coarse_supervertices.size(),
                       "Dimensions of the two labelisations do not match.");
 
+            hg_assert((index_t) xt::amax(coarse_supervertices)() < (index_t) num_leaves(tree_coarse),
+                      "Coarse supervertices labels must be leaves of the tree.");
+
             auto &fine_supervertices = rag_fine.vertex_map;
             auto &rag = rag_fine.rag;
 
-- 
2.43.0


From 9be4232f0fbf86a48300c3c32c0dc2e9fbd6c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:06 +0000
Subject: [PATCH 26/70] fix: binary watershed hierarchies map their nodes to
 the edges of the input graph

watershed_hierarchy_by_attribute and watershed_hierarchy_by_minima_ordering returned a
map to the edges of the intermediate minimum spanning tree, which was then read as a map
to the edges of the input graph.
---
 .../higra/hierarchy/watershed_hierarchy.hpp   | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/higra/hierarchy/watershed_hierarchy.hpp b/include/higra/hierarchy/watershed_hierarchy.hpp
index cbf4909..e3d9596 100644
--- a/include/higra/hierarchy/watershed_hierarchy.hpp
+++ b/include/higra/hierarchy/watershed_hierarchy.hpp
@@ -44,6 +44,17 @@ namespace hg {
             result(root(tree)) = attribute(root(tree));
             return result;
         };
+
+        /**
+         * Given a map from nodes to the edges of a graph mst and the map from the edges of mst to the edges of its base graph,
+         * modifies node_map such that it refers to the edges of the base graph
+         */
+        template<typename T1, typename T2>
+        void compose_mst_edge_map(T1 &node_map, const T2 &mst_edge_map) {
+            for (auto &e: node_map) {
+                e = mst_edge_map(e);
+            }
+        }
     }
 
     /**
@@ -90,7 +101,9 @@ namespace hg {
 
         auto mst_edge_weights = xt::view(persistence, xt::range(num_leaves(bpt), num_vertices(bpt)));
 
-        return bpt_canonical(mst, mst_edge_weights);
+        auto result = bpt_canonical(mst, mst_edge_weights);
+        watershed_hierarchy_internal::compose_mst_edge_map(result.mst_edge_map, mst_edge_map);
+        return result;
     };
 
     /**
@@ -146,7 +159,9 @@ namespace hg {
 
         auto mst_edge_weights = xt::view(persistence, xt::range(num_leaves(bpt), num_vertices(bpt)));
 
-        return bpt_canonical(mst, mst_edge_weights);
+        auto result = bpt_canonical(mst, mst_edge_weights);
+        watershed_hierarchy_internal::compose_mst_edge_map(result.mst_edge_map, mst_edge_map);
+        return result;
     };
 
     template<typename graph_t, typename T1, typename T2>
-- 
2.43.0


From a570a6bb7f794bbd9a2f890e3e17164e2888a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:45 +0000
Subject: [PATCH 27/70] fix: watershed by minima ordering does not separate the
 parts of a minimum

When a minimum was marked on several vertices, the edges linking parts of this minimum
received its rank: only the nodes which are quasi-flat zones must be considered, as it is done
for the other attributes.
---
 include/higra/hierarchy/watershed_hierarchy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/higra/hierarchy/watershed_hierarchy.hpp b/include/higra/hierarchy/watershed_hierarchy.hpp
index e3d9596..f016c07 100644
--- a/include/higra/hierarchy/watershed_hierarchy.hpp
+++ b/include/higra/hierarchy/watershed_hierarchy.hpp
@@ -154,7 +154,9 @@ namespace hg {
 
         auto extinction = accumulate_sequential(bpt, minima_ranks, accumulator_max());
         xt::view(extinction, xt::range(0, num_leaves(bpt))) = 0;
-        auto persistence = accumulate_parallel(bpt, extinction, accumulator_min());
+        // several parts of the same minimum may have been merged: only quasi-flat zones count
+        auto corrected_extinction = watershed_hierarchy_internal::correct_attribute_BPT(bpt, bptc.altitudes, extinction);
+        auto persistence = accumulate_parallel(bpt, corrected_extinction, accumulator_min());
         xt::view(persistence, xt::range(0, num_leaves(bpt))) = 0;
 
         auto mst_edge_weights = xt::view(persistence, xt::range(num_leaves(bpt), num_vertices(bpt)));
-- 
2.43.0


From 0029bff196fec54aca456a203be0fcd496905d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:03 +0000
Subject: [PATCH 28/70] fix: watershed cut with infinite weights

The smallest weight around a vertex was never infinite: vertices adjacent to infinite edges
only were all separated.
---
 include/higra/algo/watershed.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/higra/algo/watershed.hpp b/include/higra/algo/watershed.hpp
index 07e656c..78650a2 100644
--- a/include/higra/algo/watershed.hpp
+++ b/include/higra/algo/watershed.hpp
@@ -46,7 +46,9 @@ namespace hg {
         auto fminus = array_1d<value_type>::from_shape({graph.num_vertices()});
 
         for (auto v: vertex_iterator(graph)) {
-            auto minValue = (std::numeric_limits<value_type>::max)();
+            auto minValue = std::numeric_limits<value_type>::has_infinity ?
+                            std::numeric_limits<value_type>::infinity() :
+                            (std::numeric_limits<value_type>::max)();
             for (auto e: out_edge_iterator(v, graph)) {
                 minValue = (std::min)(minValue, edge_weights(e));
             }
-- 
2.43.0


From 0d397a6accb1aa0579fe6f3e62976accc5a4f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:40 +0000
Subject: [PATCH 29/70] fix: empty NumPy arrays are accepted by functions
 taking row major arrays

NumPy may set the strides of an empty array to 0: such an array was refused as a view.
---
 lib/include/xtensor-python/pyarray.hpp  | 4 +++-
 lib/include/xtensor-python/pytensor.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/include/xtensor-python/pyarray.hpp b/lib/include/xtensor-python/pyarray.hpp
index 0854fb3..b861e4c 100644
--- a/lib/include/xtensor-python/pyarray.hpp
+++ b/lib/include/xtensor-python/pyarray.hpp
@@ -523,7 +523,9 @@ namespace xt
                                        static_cast<size_type>(PyArray_NDIM(this->python_array())),
                                        reinterpret_cast<size_type*>(PyArray_SHAPE(this->python_array())));
 
-        if (L != layout_type::dynamic && !do_strides_match(m_shape, m_strides, L, 1))
+        // the strides of an empty array are meaningless (NumPy may set them to 0)
+        if (L != layout_type::dynamic && PyArray_SIZE(this->python_array()) != 0 &&
+            !do_strides_match(m_shape, m_strides, L, 1))
         {
             throw std::runtime_error("NumPy: passing container with bad strides for layout (is it a view?).");
         }
diff --git a/lib/include/xtensor-python/pytensor.hpp b/lib/include/xtensor-python/pytensor.hpp
index 3eac157..eba4189 100644
--- a/lib/include/xtensor-python/pytensor.hpp
+++ b/lib/include/xtensor-python/pytensor.hpp
@@ -495,7 +495,9 @@ namespace xt
                        [](auto v) { return v / sizeof(T); });
         adapt_strides(m_shape, m_strides, m_backstrides);
 
-        if (L != layout_type::dynamic && !do_strides_match(m_shape, m_strides, L, 1))
+        // the strides of an empty array are meaningless (NumPy may set them to 0)
+        if (L != layout_type::dynamic && PyArray_SIZE(this->python_array()) != 0 &&
+            !do_strides_match(m_shape, m_strides, L, 1))
         {
             throw std::runtime_error("NumPy: passing container with bad strides for layout (is it a view?).");
         }
-- 
2.43.0


From 34733d7ac4225ae7ca73a12509e31ed90f75565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:12 +0000
Subject: [PATCH 30/70] fix: accumulate_at of no element does not allocate a
 negative number of accumulators

---
 include/higra/accumulator/at_accumulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/accumulator/at_accumulator.hpp b/include/higra/accumulator/at_accumulator.hpp
index 132d074..8973761 100644
--- a/include/higra/accumulator/at_accumulator.hpp
+++ b/include/higra/accumulator/at_accumulator.hpp
@@ -30,7 +30,7 @@ namespace hg {
             hg_assert(weights.shape()[0] == indices.size(), "Weights dimension does not match rag map dimension.");
             hg_assert((xt::amin)(indices)() >= invalid_index, "Indices cannot be smaller than -1.");
 
-            index_t size = xt::amax(indices)() + 1;
+            index_t size = (indices.size() == 0) ? 0 : xt::amax(indices)() + 1;
             auto data_shape = std::vector<size_t>(weights.shape().begin() + 1, weights.shape().end());
             auto output_shape = accumulator_t::get_output_shape(data_shape);
             output_shape.insert(output_shape.begin(), size);
-- 
2.43.0


From 0172240e393aac2c4fa792bc801c8acfd2559e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:05 +0000
Subject: [PATCH 31/70] fix: argmin and argmax accumulators of values equal to
 the extreme value of their type

The index of a single 0 of an unsigned type for argmax, or of a largest value for argmin, was
never recorded: the result was -1 (or the largest value of the type).
---
 include/higra/accumulator/accumulator.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index 98b3074..4e0ead4 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -288,7 +288,10 @@ namespace hg {
             void initialize(Args &&...) {
                 *m_storage_begin = -1;
                 cur_index = 0;
-                std::fill(m_temp.begin(), m_temp.end(), (std::numeric_limits<storage_value_type>::max)());
+                std::fill(m_temp.begin(), m_temp.end(),
+                          std::numeric_limits<storage_value_type>::has_infinity ?
+                          std::numeric_limits<storage_value_type>::infinity() :
+                          (std::numeric_limits<storage_value_type>::max)());
             }
 
             template<typename T1 = self_type, typename T, typename ...Args>
@@ -318,7 +321,8 @@ namespace hg {
             std::enable_if_t<!T1::is_vectorial>
             accumulate(T value_begin, Args &&...) {
 
-                if (*value_begin < *m_temp.begin()) {
+                // the first element may be equal to the initial value
+                if (*value_begin < *m_temp.begin() || (cur_index == 0 && *value_begin == *m_temp.begin())) {
                     *m_temp.begin() = *value_begin;
                     *m_storage_begin = (storage_value_type)cur_index;
                 }
@@ -372,7 +376,10 @@ namespace hg {
             void initialize(Args &&...) {
                 *m_storage_begin = -1;
                 cur_index = 0;
-                std::fill(m_temp.begin(), m_temp.end(), std::numeric_limits<storage_value_type>::lowest());
+                std::fill(m_temp.begin(), m_temp.end(),
+                          std::numeric_limits<storage_value_type>::has_infinity ?
+                          -std::numeric_limits<storage_value_type>::infinity() :
+                          std::numeric_limits<storage_value_type>::lowest());
             }
 
             template<typename T1 = self_type, typename T, typename ...Args>
@@ -402,7 +409,8 @@ namespace hg {
             std::enable_if_t<!T1::is_vectorial>
             accumulate(T value_begin, Args &&...) {
 
-                if (*value_begin > *m_temp.begin()) {
+                // the first element may be equal to the initial value
+                if (*value_begin > *m_temp.begin() || (cur_index == 0 && *value_begin == *m_temp.begin())) {
                     *m_temp.begin() = *value_begin;
                     *m_storage_begin = (storage_value_type)cur_index;
                 }
-- 
2.43.0


From 0bc0af9226f0c8d11ad3220c08a361a9d89185f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 32/70] fix: horizontal cuts of trees without leaf graph

The leaf graph is optional for labelisation_horizontal_cut_from_num_regions, which failed without it;
the methods of HorizontalCutNodes which do not need it do not require it any more.
---
 higra/algo/horizontal_cuts.py | 12 ++++++------
 higra/algo/tree.py            |  7 +------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/higra/algo/horizontal_cuts.py b/higra/algo/horizontal_cuts.py
index 35b9923..4755cd1 100644
--- a/higra/algo/horizontal_cuts.py
+++ b/higra/algo/horizontal_cuts.py
@@ -13,14 +13,14 @@ import higra as hg
 
 @hg.extend_class(hg.HorizontalCutNodes, method_name="reconstruct_leaf_data")
 @hg.argument_helper(("tree", hg.CptHierarchy))
-def __reconstruct_leaf_data(self, tree, altitudes, leaf_graph, handle_rag=True):
+def __reconstruct_leaf_data(self, tree, altitudes, leaf_graph=None, handle_rag=True):
     """
     Reconstruct the cut at leaf level of the provided tree.
     A leaf of the tree is valued by the altitude of the single cut node which is an ancestor of the leaf.
 
     :param tree: input tree (Concept :class:`~higra.CptHierarchy`)
     :param altitudes: node altitudes of the input tree
-    :param leaf_graph: graph on the tree leaves (deduced from :class:`~higra.CptHierarchy`)
+    :param leaf_graph: graph on the tree leaves (optional, deduced from :class:`~higra.CptHierarchy`)
     :param handle_rag: if `True` and if `leaf_graph` is a region adjacency graph then the cut is given for the original graph (the pre-graph of the region adjacency graph).
     :return: leaf weights
     """
@@ -28,7 +28,7 @@ def __reconstruct_leaf_data(self, tree, altitudes, leaf_graph, handle_rag=True):
 
     if hg.CptRegionAdjacencyGraph.validate(leaf_graph) and handle_rag:
         leaf_weights = hg.rag_back_project_vertex_weights(leaf_graph, leaf_weights)
-    else:
+    elif leaf_graph is not None:
         leaf_weights = hg.delinearize_vertex_weights(leaf_weights, leaf_graph)
 
     return leaf_weights
@@ -56,14 +56,14 @@ def __graph_cut(self, tree, leaf_graph, handle_rag=True):
 
 @hg.extend_class(hg.HorizontalCutNodes, method_name="labelisation_leaves")
 @hg.argument_helper(("tree", hg.CptHierarchy))
-def __labelisation_leaves(self, tree, leaf_graph, handle_rag=True):
+def __labelisation_leaves(self, tree, leaf_graph=None, handle_rag=True):
     """
     Labelize tree leaves according to the horizontal cut.
     Two leaves are in the same region (ie. have the same label) if their lowest common ancestor is a subset or equal to
     one the node of the cut.,
 
     :param tree: input tree (Concept :class:`~higra.CptHierarchy`)
-    :param leaf_graph: graph on the tree leaves (deduced from :class:`~higra.CptHierarchy`)
+    :param leaf_graph: graph on the tree leaves (optional, deduced from :class:`~higra.CptHierarchy`)
     :param handle_rag: if `True` and if `leaf_graph` is a region adjacency graph then the labels are given for the original graph (the pre-graph of the region adjacency graph).
     :return: a 1d array
     """
@@ -71,7 +71,7 @@ def __labelisation_leaves(self, tree, leaf_graph, handle_rag=True):
 
     if hg.CptRegionAdjacencyGraph.validate(leaf_graph) and handle_rag:
         labels = hg.rag_back_project_vertex_weights(leaf_graph, labels)
-    else:
+    elif leaf_graph is not None:
         labels = hg.delinearize_vertex_weights(labels, leaf_graph)
 
     return labels
diff --git a/higra/algo/tree.py b/higra/algo/tree.py
index 78dbb16..d1e88f7 100644
--- a/higra/algo/tree.py
+++ b/higra/algo/tree.py
@@ -129,12 +129,7 @@ def labelisation_horizontal_cut_from_num_regions(tree, altitudes, num_regions, m
     hc = hg.HorizontalCutExplorer(tree, altitudes)
     cut = hc.horizontal_cut_from_num_regions(num_regions, modeb)
 
-    leaf_labels = cut.labelisation_leaves(tree)
-
-    if leaf_graph is not None:
-        leaf_labels = hg.delinearize_vertex_weights(leaf_labels, leaf_graph)
-
-    return leaf_labels
+    return cut.labelisation_leaves(tree, leaf_graph)
 
 
 @hg.argument_helper(hg.CptHierarchy)
-- 
2.43.0


From 1a827c926b1e6ab953c4fa89c8042d8422639c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 33/70] fix: horizontal cut explorers keep their tree alive and
 check the index of the requested number of regions

---
 higra/algo/py_horizontal_cuts.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/higra/algo/py_horizontal_cuts.cpp b/higra/algo/py_horizontal_cuts.cpp
index 4e0fbe4..d796515 100644
--- a/higra/algo/py_horizontal_cuts.cpp
+++ b/higra/algo/py_horizontal_cuts.cpp
@@ -75,6 +75,7 @@ namespace py_horizontal_cuts {
                              return c_t(tree, altitudes);
                          },
                          doc,
+                         py::keep_alive<0, 1>(), // the explorer refers to the tree
                          py::arg("tree"),
                          py::arg("altitudes"));
         }
@@ -98,7 +99,11 @@ Each cut of the hierarchy can be accessed through:
                 (c, "");
         c.def("num_cuts", &class_t::num_cuts, "Number of horizontal cuts in the hierarchy.");
         c.def("num_regions_cut",
-              &class_t::num_regions_cut,
+              [](const class_t &c, index_t i) {
+                  hg_assert(i >= 0, "Cut index cannot be negative.");
+                  hg_assert(i < (index_t) c.num_cuts(), "Cut index out of bounds.");
+                  return c.num_regions_cut(i);
+              },
               "Number of regions in the i-th cut of the hierarchy (cut numbering start at 0 with the cut with a single region).",
               py::arg("i"));
         c.def("num_regions_cuts",
-- 
2.43.0


From e46188f4edbcc3d0adb546b50066d2c193470f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 34/70] fix: horizontal cut thresholds which are fractional or
 out of the range of the type of the altitudes

The threshold was cast to the type of the altitudes: a negative threshold with unsigned altitudes,
a fractional negative threshold or a threshold larger than the largest value gave arbitrary cuts.
---
 include/higra/algo/tree.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/higra/algo/tree.hpp b/include/higra/algo/tree.hpp
index bb24a2b..51aa009 100644
--- a/include/higra/algo/tree.hpp
+++ b/include/higra/algo/tree.hpp
@@ -18,6 +18,8 @@
 #include "../accumulator/tree_accumulator.hpp"
 #include "../hierarchy/common.hpp"
 #include "higra/sorting.hpp"
+#include <cmath>
+#include <limits>
 #include <queue>
 
 namespace hg {
@@ -72,10 +74,24 @@ namespace hg {
                                                     const value_t threshold) {
         HG_TRACE();
         auto &altitudes = xaltitudes.derived_cast();
-        return reconstruct_leaf_data(tree,
-                                     xt::arange<index_t>(num_vertices(tree)),
-                                     xt::index_view(altitudes, tree.parents())
-                                     <= static_cast<typename T::value_type>(threshold));
+        hg_assert_node_weights(tree, altitudes);
+        using altitude_t = typename T::value_type;
+        using limits = std::numeric_limits<altitude_t>;
+
+        altitude_t max_altitude;
+        if (limits::is_integer) {
+            // the threshold may be fractional or out of the range of the type of the altitudes
+            auto t = std::floor(static_cast<double>(threshold));
+            if (t < static_cast<double>(limits::lowest())) {
+                return array_1d<index_t>(xt::arange<index_t>(num_leaves(tree)));
+            }
+            max_altitude = (t >= static_cast<double>((limits::max)())) ? (limits::max)() : static_cast<altitude_t>(t);
+        } else {
+            max_altitude = static_cast<altitude_t>(threshold);
+        }
+        return array_1d<index_t>(reconstruct_leaf_data(tree,
+                                                       xt::arange<index_t>(num_vertices(tree)),
+                                                       xt::index_view(altitudes, tree.parents()) <= max_altitude));
     };
 
     /**
-- 
2.43.0


From 7e1a4b51523f82d8b6bd2208be64ae60ae6c95d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:22 +0000
Subject: [PATCH 35/70] fix: tree fusion keeps the nodes of the first tree
 which hold a single leaf out of the shapes of the other trees

---
 include/higra/algo/tree_fusion.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/higra/algo/tree_fusion.hpp b/include/higra/algo/tree_fusion.hpp
index 79f6e06..f03fe92 100644
--- a/include/higra/algo/tree_fusion.hpp
+++ b/include/higra/algo/tree_fusion.hpp
@@ -44,10 +44,13 @@ namespace hg {
                 areas.push_back(attribute_area(**ti));
                 for (tj = first, j = 0; tj != last; tj++, j++) {
                     ses(i, j) = attribute_smallest_enclosing_shape(**ti, **tj);
-                    // an internal node which holds a single leaf is not a leaf
-                    for (index_t n: leaves_to_root_iterator(**ti, leaves_it::exclude)) {
-                        if (is_leaf(ses(i, j)(n), **tj)) {
-                            ses(i, j)(n) = parent(ses(i, j)(n), **tj);
+                    // an internal node which holds a single leaf is not a leaf (those of the first tree
+                    // are not compared to the nodes of the other trees)
+                    if (i > 0 || j == 0) {
+                        for (index_t n: leaves_to_root_iterator(**ti, leaves_it::exclude)) {
+                            if (is_leaf(ses(i, j)(n), **tj)) {
+                                ses(i, j)(n) = parent(ses(i, j)(n), **tj);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From cacfc38c3008646c41f8e0f3b361835e2101371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 36/70] fix: the root of optimal energy cut hierarchies has a
 non negative altitude

---
 include/higra/algo/tree_energy_optimization.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/higra/algo/tree_energy_optimization.hpp b/include/higra/algo/tree_energy_optimization.hpp
index 92bd1f1..c006228 100644
--- a/include/higra/algo/tree_energy_optimization.hpp
+++ b/include/higra/algo/tree_energy_optimization.hpp
@@ -650,6 +650,7 @@ namespace hg {
                     {0, data_fidelity_attribute(i), regularization_attribute(i)});
         }
 
+        apparition_scales(root(tree)) = (std::max)(0.0, apparition_scales(root(tree)));
         for (auto i: root_to_leaves_iterator(tree, leaves_it::include, root_it::exclude)) {
             apparition_scales(i) = (std::max)(0.0,
                                               (std::min)(apparition_scales(i), apparition_scales(parent(i, tree))));
-- 
2.43.0


From ba2cbe567c5b971618c52b6ec302a9fa20f5690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 37/70] fix: bipartite matching of graphs with parallel edges
 and of null or negative weights, list weights

---
 higra/algo/bipartite_graph.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/higra/algo/bipartite_graph.py b/higra/algo/bipartite_graph.py
index cdb90ea..6d0af08 100644
--- a/higra/algo/bipartite_graph.py
+++ b/higra/algo/bipartite_graph.py
@@ -145,22 +145,39 @@ def bipartite_graph_matching(graph, edge_weights):
     if num_edges == 0:
         return np.array([], dtype=np.int64)
 
+    edge_weights = np.asarray(edge_weights)
+
     # if edge weights dtype is floating point, emit a warning
     if np.issubdtype(edge_weights.dtype, np.floating):
         print("Warning: possible loss of precision, edge weights are casted to int64 for bipartite graph matching")
 
     edge_weights = hg.cast_to_dtype(edge_weights, np.int64)
 
-    very_large_weight = np.max(edge_weights) * 1000
-    # check that very_large_weight is not too large
-    if very_large_weight > 2 ** 60 - 1:
-        raise ValueError("edge weights are too large")
-
+    # the matching algorithm requires simple graphs: only the smallest of parallel edges can be useful
+    sources = np.asarray(sources)
+    targets = np.asarray(targets)
+    ends = np.stack((np.minimum(sources, targets), np.maximum(sources, targets)))
+    order = np.lexsort((edge_weights, ends[1], ends[0]))
+    new_pair = np.any(ends[:, order[1:]] != ends[:, order[:-1]], axis=0)
+    selected_edges = np.sort(order[np.concatenate(([True], new_pair))])
+    sources = sources[selected_edges]
+    targets = targets[selected_edges]
+    edge_weights = edge_weights[selected_edges]
+    num_edges = selected_edges.size
 
     # sizes of left and right sets
     rhs_size = np.count_nonzero(coloring)
     lhs_size = num_vertices - rhs_size
 
+    # a larger matching is always better: its weight, once the smallest weight has been subtracted from each weight,
+    # is smaller than the weight of one edge linking a vertex to its copy
+    min_weight = int(np.min(edge_weights))
+    very_large_weight = (int(np.max(edge_weights)) - min_weight) * int(min(lhs_size, rhs_size)) + 1
+    # check that very_large_weight is not too large
+    if very_large_weight > 2 ** 60 - 1:
+        raise ValueError("edge weights are too large")
+    edge_weights = edge_weights - min_weight
+
     # augmented graph sizes to ensure the existence of a perfect matching
     # each lhs (resp rhs) vertex is duplicated in the rhs (reps lhs) part
     # an edge of weight very_large_weight is added between the two copies
@@ -210,7 +227,7 @@ def bipartite_graph_matching(graph, edge_weights):
 
     matched_edges = matched_edges[matched_edges < num_edges]
 
-    return matched_edges
+    return selected_edges[matched_edges]
 
 
 
-- 
2.43.0


From 1b1530a510a8fc195b91e3c1339f618464e8007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 38/70] fix: attribute_volume of unsigned altitudes and
 attribute_height relative to the current altitude

---
 higra/attribute/tree_attributes.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index ab5f56f..a44d8aa 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -59,6 +59,7 @@ def attribute_volume(tree, altitudes, area=None, leaf_volume=None):
     if area is None:
         area = hg.attribute_area(tree)
 
+    altitudes = hg.cast_to_dtype(altitudes, np.float64)
     height = np.abs(altitudes[tree.parents()] - altitudes)
     height = height * area
 
@@ -524,16 +525,11 @@ def attribute_height(tree, altitudes, increasing_altitudes="auto", reference_alt
     inc = __process_param_increasing_altitudes(tree, altitudes, increasing_altitudes)
 
     if reference_altitude == "current":
-        if inc:
-            res = hg.accumulate_sequential(tree,
-                                           altitudes[:tree.num_leaves()],
-                                           hg.Accumulators.max)\
-                  - altitudes
-        else:
-            res = altitudes -\
-                  hg.accumulate_sequential(tree,
-                                           altitudes[:tree.num_leaves()],
-                                           hg.Accumulators.min)
+        # monotone altitudes: the altitude of a node is one of the two extreme altitudes of the non-leaf nodes of its sub-tree,
+        # whatever the direction (a leaf takes the altitude of its parent which is in every sub-tree that strictly contains it)
+        leaf_altitudes = altitudes[tree.parents()[:tree.num_leaves()]]
+        res = hg.accumulate_and_max_sequential(tree, altitudes, leaf_altitudes, hg.Accumulators.max) \
+              - hg.accumulate_and_min_sequential(tree, altitudes, leaf_altitudes, hg.Accumulators.min)
     else:
         res = hg.cpp._attribute_height(tree, altitudes, inc)
 
-- 
2.43.0


From 89a2911b6b9bc04707a1b1a0b69f2045d374636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 39/70] fix: the extinction value of the nodes which contain no
 extremum is 0

---
 include/higra/attribute/tree_attribute.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/higra/attribute/tree_attribute.hpp b/include/higra/attribute/tree_attribute.hpp
index 1d8a042..de74c68 100644
--- a/include/higra/attribute/tree_attribute.hpp
+++ b/include/higra/attribute/tree_attribute.hpp
@@ -298,20 +298,31 @@ namespace hg {
             }
         }
 
+        auto extrema = attribute_extrema(tree, altitudes);
+
+        // non leaf nodes which contain at least one extremum
+        auto has_extremum = extrema;
+        for (auto n: leaves_to_root_iterator(tree, leaves_it::exclude, root_it::exclude)) {
+            if (has_extremum(n)) {
+                has_extremum(parent(n, tree)) = true;
+            }
+        }
+
         // extinction of non leaf nodes
         array_1d<typename T2::value_type> extinction = array_1d<typename T2::value_type>::from_shape(
                 {num_vertices(tree)});
         extinction(root(tree)) = attribute(root(tree));
         for (auto n: root_to_leaves_iterator(tree, leaves_it::exclude, root_it::exclude)) {
             auto pn = parent(n, tree);
-            if (n == ref_son(pn)) {
+            if (!has_extremum(n)) {
+                extinction(n) = 0;
+            } else if (n == ref_son(pn)) {
                 extinction(n) = extinction(pn);
             } else {
                 extinction(n) = attribute(n);
             }
         }
 
-        auto extrema = attribute_extrema(tree, altitudes);
         auto indices = xt::eval(xt::arange<index_t>(num_vertices(tree)));
         if (!extrema(root(tree))) {
             indices(root(tree)) = -1;
-- 
2.43.0


From 507b75c8c57f0c2e2403fb50a4b4a6540b827c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 40/70] fix: contour and frontier strengths do not modify the
 cached lengths, null perimeters of inner nodes

---
 higra/attribute/tree_attributes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index a44d8aa..04b7600 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -139,7 +139,8 @@ def attribute_frontier_strength(tree, edge_weights, leaf_graph):
         edge_weights = hg.rag_accumulate_on_edges(leaf_graph, hg.Accumulators.sum, edge_weights=edge_weights)
 
     frontier_length = hg.attribute_frontier_length(tree, leaf_graph=leaf_graph)
-    frontier_strength = hg.attribute_frontier_length(tree, edge_weights, leaf_graph)
+    # frontier_length is cached: it must not be modified
+    frontier_strength = np.array(hg.attribute_frontier_length(tree, edge_weights, leaf_graph))
     frontier_strength[tree.num_leaves():] = frontier_strength[tree.num_leaves():] / frontier_length[tree.num_leaves():]
     return frontier_strength
 
@@ -208,9 +209,8 @@ def attribute_contour_strength(tree, edge_weights, vertex_perimeter=None, edge_l
 
     perimeter = attribute_contour_length(tree, vertex_perimeter, edge_length, leaf_graph)
 
-    # perimeter of the root may be null
-    if np.isclose(perimeter[-1], 0):
-        perimeter[-1] = 1
+    # perimeter of the root, or of a connected component, may be null (contour_length is cached: it must not be modified)
+    perimeter = np.where(np.isclose(perimeter, 0), 1, perimeter)
 
     if hg.CptRegionAdjacencyGraph.validate(leaf_graph):
         edge_weights = hg.rag_accumulate_on_edges(leaf_graph, hg.Accumulators.sum, edge_weights)
-- 
2.43.0


From 5ebb8f6e7103025cb989ca432a16f657df1c2e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 41/70] fix: vertex coordinates of grid graphs of any dimension

---
 higra/attribute/graph_attributes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/higra/attribute/graph_attributes.py b/higra/attribute/graph_attributes.py
index 38e86ce..01c26c8 100644
--- a/higra/attribute/graph_attributes.py
+++ b/higra/attribute/graph_attributes.py
@@ -101,8 +101,7 @@ def attribute_vertex_coordinates(graph, shape):
     :param shape: (deduced from :class:`~higra.CptGridGraph`)
     :return: a nd array
     """
-    coords = np.meshgrid(np.arange(shape[1]), np.arange(shape[0]))
-    coords = [c.reshape((-1,)) for c in coords]
-    attribute = np.stack(list(reversed(coords)), axis=1)
+    attribute = np.indices(shape).reshape((len(shape), -1)).T
+
     attribute = hg.delinearize_vertex_weights(attribute, graph)
     return attribute
-- 
2.43.0


From 7067538b384a5fbefd56d52abd62dbe65f11f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 42/70] fix: dendrogram purity of negative and unsigned labels
 and of hierarchies on region adjacency graphs

---
 higra/assessment/hierarchical_cost.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/higra/assessment/hierarchical_cost.py b/higra/assessment/hierarchical_cost.py
index 69e41cc..e62e17f 100644
--- a/higra/assessment/hierarchical_cost.py
+++ b/higra/assessment/hierarchical_cost.py
@@ -49,19 +49,19 @@ def dendrogram_purity(tree, leaf_labels):
     :param leaf_labels: a 1d integral array of length `tree.num_leaves()`
     :return:  a score between 0 and 1 (higher is better)
     """
-    if leaf_labels.ndim != 1 or leaf_labels.size != tree.num_leaves() or leaf_labels.dtype.kind != 'i':
+    if leaf_labels.ndim != 1 or leaf_labels.size != tree.num_leaves() or leaf_labels.dtype.kind not in 'iu':
         raise ValueError("leaf_labels must be a 1d integral array of length `tree.num_leaves()`")
 
     num_l = tree.num_leaves()
-    area = hg.attribute_area(tree)
 
-    max_label = np.max(leaf_labels)
-    num_labels = max_label + 1
+    # any integers may be used as labels
+    label_set, leaf_labels = np.unique(leaf_labels, return_inverse=True)
+    num_labels = label_set.size
     label_histo_leaves = np.zeros((num_l, num_labels), dtype=np.float64)
     label_histo_leaves[np.arange(num_l), leaf_labels] = 1
 
     label_histo = hg.accumulate_sequential(tree, label_histo_leaves, hg.Accumulators.sum)
-    class_purity = label_histo / area[:, np.newaxis]
+    class_purity = label_histo / np.sum(label_histo, axis=1, keepdims=True)
 
     weights = hg.attribute_children_pair_sum_product(tree, label_histo)
     total = np.sum(class_purity[num_l:, :] * weights[num_l:, :])
-- 
2.43.0


From 5802eeb7aab9e5747db04e9d19ec6f8d54fd298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 43/70] fix: the tree sampling probability has one value per
 node

---
 higra/attribute/tree_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 04b7600..74be0e1 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -672,7 +672,7 @@ def attribute_tree_sampling_probability(tree, leaf_graph, leaf_graph_edge_weight
     if model == 'edge':
         lca_map = hg.attribute_lca_map(tree, leaf_graph=leaf_graph)
         leaf_graph_edge_weights = leaf_graph_edge_weights / np.sum(leaf_graph_edge_weights)
-        return hg.accumulate_at(lca_map, leaf_graph_edge_weights, hg.Accumulators.sum)
+        return np.bincount(lca_map, weights=leaf_graph_edge_weights, minlength=tree.num_vertices())
     else:  # model = 'null'
         leaf_graph_vertex_weights = hg.accumulate_graph_edges(leaf_graph, leaf_graph_edge_weights, hg.Accumulators.sum)
         leaf_graph_vertex_weights = leaf_graph_vertex_weights / np.sum(leaf_graph_edge_weights)
-- 
2.43.0


From de69b6edff2167dc1357011e4d2984206d979db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 44/70] fix: optimal cuts with an invalid number of regions are
 refused

---
 include/higra/assessment/fragmentation_curve.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/higra/assessment/fragmentation_curve.hpp b/include/higra/assessment/fragmentation_curve.hpp
index 2af239b..e6ea675 100644
--- a/include/higra/assessment/fragmentation_curve.hpp
+++ b/include/higra/assessment/fragmentation_curve.hpp
@@ -154,6 +154,7 @@ namespace hg {
 
             m_tree.compute_children();
 
+            hg_assert(max_regions > 0, "max_regions must be strictly positive.");
             max_regions = (std::min)(max_regions, num_leaves(m_tree));
 
             size_t num_regions_ground_truth = xt::amax(ground_truth)() + 1;
@@ -307,6 +308,8 @@ namespace hg {
             if (num_regions == 0) {
                 num_regions = optimal_number_of_regions();
             }
+            hg_assert(num_regions <= backtracking[root(m_tree)].size(),
+                      "num_regions is larger than the maximum number of regions of the explored partitions.");
             array_1d<bool> non_cut_nodes({num_vertices(m_tree)}, true);
             std::stack<std::pair<index_t, size_t>> s;
             s.push({root(m_tree), num_regions});
-- 
2.43.0


From 4a40c2116db6effbc431a27805f42c8a1bb1a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 45/70] fix: coordinates of the contours of images of width 1,
 contours can be simplified more than once

---
 include/higra/image/contour_2d.hpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/higra/image/contour_2d.hpp b/include/higra/image/contour_2d.hpp
index f8cf41e..b267b3d 100644
--- a/include/higra/image/contour_2d.hpp
+++ b/include/higra/image/contour_2d.hpp
@@ -261,19 +261,18 @@ namespace hg {
                             stack.push({max_distance_element, last_element});
                         }
                     }
+                }
 
-                    // final subdivision
-                    m_control_points.clear();
+                // final subdivision
+                m_control_points.clear();
 
-                    for (index_t i = 0; i < (index_t) m_contour_elements.size(); i++) {
-                        if (is_subdivision_element[i]) {
-                            m_control_points.push_back(i);
-                        }
+                for (index_t i = 0; i < (index_t) m_contour_elements.size(); i++) {
+                    if (is_subdivision_element[i]) {
+                        m_control_points.push_back(i);
                     }
-                    if (m_control_points.size() == 1)
-                        m_control_points.push_back(0);
                 }
-
+                if (m_control_points.size() == 1)
+                    m_control_points.push_back(0);
             }
         };
 
@@ -416,12 +415,11 @@ namespace hg {
             auto &e = edge_from_index(edge_index, graph);
             auto s = source(e, graph);
             auto t = target(e, graph);
+            // middle of the extremities of the edge
             point_type coordinates = embedding.lin2grid(s);
-            if (s + 1 == t) { // horizontal edge
-                coordinates[1] += 0.5;
-            } else { // vertical edge
-                coordinates[0] += 0.5;
-            }
+            point_type target_coordinates = embedding.lin2grid(t);
+            coordinates[0] = (coordinates[0] + target_coordinates[0]) / 2;
+            coordinates[1] = (coordinates[1] + target_coordinates[1]) / 2;
             return coordinates;
         };
 
-- 
2.43.0


From b8b304d94382fe62246e4cb2c165a4d89553e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:00 +0000
Subject: [PATCH 46/70] fix: Khalimsky grid of graphs whose edges are written
 from their greatest extremity, negative pixels are not matched

---
 include/higra/image/graph_image.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/higra/image/graph_image.hpp b/include/higra/image/graph_image.hpp
index 90fd9a2..3111ecb 100644
--- a/include/higra/image/graph_image.hpp
+++ b/include/higra/image/graph_image.hpp
@@ -117,7 +117,7 @@ namespace hg {
         for (const auto &e: edge_iterator(graph)) {
             auto s = source(e, graph);
             auto t = target(e, graph);
-            if (t > s) {
+            if (t != s) {
                 auto ti = embedding.lin2grid(t);
                 auto si = embedding.lin2grid(s);
                 if (add_extra_border)
@@ -288,13 +288,13 @@ namespace hg {
         std::vector<double> weights;
         for (index_t y = 0; y < height; ++y) {
             for (index_t x = 0; x < width; ++x) {
-                if (contour_image1(y, x) != 0) {
+                if (contour_image1(y, x) > 0) {
                     bool found = false;
                     for (auto &n: neighbors) {
                         index_t x2 = x + n.x;
                         index_t y2 = y + n.y;
                         if (x2 >= 0 && x2 < width && y2 >= 0 && y2 < height) {
-                            if (contour_image2(y2, x2) != 0) {
+                            if (contour_image2(y2, x2) > 0) {
                                 index_t lin2 = embedding.grid2lin({y2, x2});
                                 if (!found) {
                                     index_t lin1 = embedding.grid2lin({y, x});
-- 
2.43.0


From a18a46fedabc7bbd989ce3b82c4d41fa16074762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 47/70] fix: saving and reading trees reports failures, refuses
 truncated files and keeps attribute names and strided values

---
 higra/io_utils/py_tree_io.cpp | 13 ++++++++++---
 include/higra/io/tree_io.hpp  | 19 +++++++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/higra/io_utils/py_tree_io.cpp b/higra/io_utils/py_tree_io.cpp
index edfa85a..212f286 100644
--- a/higra/io_utils/py_tree_io.cpp
+++ b/higra/io_utils/py_tree_io.cpp
@@ -23,7 +23,9 @@ namespace py_tree_io {
         //xt::import_numpy();
 
         m.def("_read_tree", [](const std::string &filename) {
-                  std::ifstream file(filename);
+                  std::ifstream file(filename, std::ios::binary);
+                  if (!file)
+                      throw std::runtime_error("Cannot open file " + filename);
                   return hg::read_tree(file);
               },
               "Read tree from mixed ascii/binary format. Return a pair with the tree and a map of attributes (tree, dict[string => 1d array[double] ])",
@@ -31,12 +33,17 @@ namespace py_tree_io {
 
         m.def("save_tree", [](const std::string &filename, const hg::tree &tree,
                               const std::map<std::string, pyarray<double>> &attributes) {
-                  std::ofstream file(filename);
+                  std::ofstream file(filename, std::ios::binary);
+                  if (!file)
+                      throw std::runtime_error("Cannot open file " + filename);
                   auto s = hg::save_tree(file, tree);
-                  for (auto e: attributes) {
+                  for (const auto &e: attributes) { // no copy: pyarray copies ignore the strides
                       s.add_attribute(e.first, e.second);
                   }
                   s.finalize();
+                  file.close();
+                  if (!file)
+                      throw std::runtime_error("Error while writing file " + filename);
               },
               "Save a tree and scalar attributes to mixed ascii/binary format. "
               "Attributes must be numpy 1d arrays stored in a dictionary with string keys (attribute names).",
diff --git a/include/higra/io/tree_io.hpp b/include/higra/io/tree_io.hpp
index 5474c59..c7fffc5 100644
--- a/include/higra/io/tree_io.hpp
+++ b/include/higra/io/tree_io.hpp
@@ -50,6 +50,8 @@ namespace hg {
                 auto &array = xarray.derived_cast();
                 hg_assert(array.dimension() == 1, "Only scalar attributes are supported.");
                 hg_assert(array.size() == m_tree.num_vertices(), "Attribute size does not match the size of the tree.");
+                hg_assert(name != "" && name.find('\n') == std::string::npos,
+                          "Attribute name must not be empty and must not contain a line break.");
 
                 // force conversion to double
                 // TODO avoid copy when not needed
@@ -120,8 +122,9 @@ namespace hg {
         int num_attributes = -1;
 
         while (key != HG_TREE_IO_HEADEREND_KEY) {
-            int value;
-            in >> tmp;
+            int value = -1;
+            if (!(in >> tmp))
+                throw std::runtime_error("Invalid tree file: unexpected end of file in the header.");
             std::size_t pos = tmp.find('=');
             if (pos != std::string::npos) {
                 key = tmp.substr(0, pos);
@@ -153,7 +156,8 @@ namespace hg {
 
         array_1d<int> parents;
         parents.resize({std::size_t(num_vertices)});
-        in.read(reinterpret_cast<char *>(parents.data()), std::streamsize(num_vertices * sizeof(int)));
+        if (!in.read(reinterpret_cast<char *>(parents.data()), std::streamsize(num_vertices * sizeof(int))))
+            throw std::runtime_error("Invalid tree file: unexpected end of file in the parents.");
 
         std::map<std::string, array_1d<double>> attributes;
 
@@ -161,7 +165,9 @@ namespace hg {
             std::string name = "";
             key = "";
             while (key != HG_TREE_IO_HEADEREND_KEY) {
-                in >> tmp;
+                // attribute names may contain whitespaces: the header is read line by line
+                if (!std::getline(in >> std::ws, tmp))
+                    throw std::runtime_error("Invalid tree file: unexpected end of file in the header of an attribute.");
                 std::size_t pos = tmp.find('=');
                 std::string value;
                 if (pos != std::string::npos) {
@@ -181,10 +187,11 @@ namespace hg {
             }
             hg_assert(name != "", "Incorrect or missing key for attribute " + std::to_string(i) + " " +
                                   HG_TREE_IO_NAME_KEY);
-            in.read(&dummy, 1); // consumme the last \n left by cin...
 
             attributes.emplace(name, array_1d<double>::from_shape({std::size_t(num_vertices)}));
-            in.read(reinterpret_cast<char *>(attributes[name].data()), std::streamsize(num_vertices * sizeof(double)));
+            if (!in.read(reinterpret_cast<char *>(attributes[name].data()),
+                         std::streamsize(num_vertices * sizeof(double))))
+                throw std::runtime_error("Invalid tree file: unexpected end of file in the values of an attribute.");
         }
 
         return std::make_pair(tree(parents), std::move(attributes));
-- 
2.43.0


From b0ddd13f1ffc4468d719daf73c35ede1a70c02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 48/70] fix: saving and reading pink graphs reports failures,
 refuses truncated files, keeps the precision of weights and graphs without
 edges

---
 include/higra/io/pink_graph_io.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/higra/io/pink_graph_io.hpp b/include/higra/io/pink_graph_io.hpp
index 9baea24..5b6e545 100644
--- a/include/higra/io/pink_graph_io.hpp
+++ b/include/higra/io/pink_graph_io.hpp
@@ -51,8 +51,14 @@ namespace hg {
         index_t num_edges;
         in >> num_points >> num_edges;
 
-        hg_assert(num_points > 0, "The number of vertices cannot be negative.");
-        hg_assert(num_edges > 0, "The number of edges cannot be negative.");
+        auto check_stream = [&in]() {
+            if (!in)
+                throw std::runtime_error("Invalid graph file: unexpected end of file or value.");
+        };
+
+        check_stream();
+        hg_assert(num_points > 0, "The number of vertices must be positive.");
+        hg_assert(num_edges >= 0, "The number of edges cannot be negative.");
 
         if (shape.empty()) // construct valid shape
         {
@@ -70,12 +76,14 @@ namespace hg {
             index_t i;
             double d;
             in >> i >> d;
+            check_stream();
             hg_assert(0 <= i && i < num_points, "Invalid graph file: vertex index out of range.");
             vertex_weight(i) = d;
         }
 
         //useless line to announce edge list
         in >> discard >> discard;
+        check_stream();
 
         auto edge_weight = array_1d<double>::from_shape({(size_t)num_edges});
 
@@ -83,6 +91,10 @@ namespace hg {
             index_t i, j;
             double d;
             in >> i >> j >> d;
+            check_stream();
+            // without the end of line, the last value may be incomplete
+            if (in.peek() == std::istream::traits_type::eof())
+                throw std::runtime_error("Invalid graph file: unexpected end of file.");
             hg_assert(0 <= i && 0 <= j && i < num_points && j < num_points,
                       "Invalid graph file: vertex index out of range in edge definition.");
             g.add_edge(i, j);
@@ -95,6 +107,8 @@ namespace hg {
     inline
     auto read_pink_graph(const std::string &filename) {
         std::ifstream file(filename);
+        if (!file)
+            throw std::runtime_error("Cannot open file " + filename);
         return read_pink_graph(file);
     };
 
@@ -116,6 +130,9 @@ namespace hg {
         hg_assert(vertex_values.dimension() <= 1, "Too many dimensions for vertex values!");
         hg_assert(edge_values.dimension() <= 1, "Too many dimensions for edge values!");
 
+        // enough digits to read the same values back
+        auto precision = out.precision(std::numeric_limits<double>::max_digits10);
+
         switch (shape.size()) {
             case 0:
                 break;
@@ -157,6 +174,7 @@ namespace hg {
             }
         }
 
+        out.precision(precision);
     }
 
     template<typename graph_t,
@@ -170,7 +188,12 @@ namespace hg {
                          S &shape = std::vector<std::size_t>()
     ) {
         std::ofstream file(filename);
+        if (!file)
+            throw std::runtime_error("Cannot open file " + filename);
         save_pink_graph(file, graph, xvertex_values, xedge_values, shape);
+        file.close();
+        if (!file)
+            throw std::runtime_error("Error while writing file " + filename);
     };
 
 }
-- 
2.43.0


From a3154addd4151a817eb31c4c35e4407a814f1004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:59 +0000
Subject: [PATCH 49/70] fix: reading pnm images whose first pixel is a number
 sign or which are truncated, saving reports failures

---
 include/higra/io/pnm_io.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/higra/io/pnm_io.hpp b/include/higra/io/pnm_io.hpp
index fe651c6..2c94fb3 100644
--- a/include/higra/io/pnm_io.hpp
+++ b/include/higra/io/pnm_io.hpp
@@ -143,15 +143,19 @@ namespace hg {
                     r(i) = std::stoi(tmp);
                 }
             } else {
-                //consume remaining comments
-                while(in.peek() == '#'){
-                    std::string tmp;
-                    std::getline(in, tmp);
-                }
                 if (binary) {
                     hg_assert(false, "Binary raw data not supported.");
                 } else {
-                    in.read((char*)result.data(), num_values);
+                    std::string data{std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()};
+                    size_t start = 0;
+                    // consume remaining comments: a '#' is a pixel value if there is no more data than the image
+                    while (start < data.size() && data[start] == '#' && data.size() - start > (size_t)num_values) {
+                        auto end_of_line = data.find('\n', start);
+                        start = (end_of_line == std::string::npos) ? data.size() : end_of_line + 1;
+                    }
+                    if (data.size() - start < (size_t)num_values)
+                        throw std::runtime_error("End of data reached too soon.");
+                    std::copy(data.begin() + start, data.begin() + start + num_values, (char *)result.data());
                 }
             }
             return result;
@@ -197,7 +201,7 @@ namespace hg {
      */
     inline
     array_nd<unsigned char> read_image_pnm(const char *filename) {
-        std::ifstream s(filename);
+        std::ifstream s(filename, std::ios::binary);
         return pnm_io_internal::read_image_pnm(s);
     }
 
@@ -216,7 +220,10 @@ namespace hg {
      */
     template<typename T>
     void save_image_pnm(const char *filename, const xt::xexpression<T> &ximage) {
-        std::ofstream s(filename);
-        return pnm_io_internal::save_image_pnm(s, ximage);
+        std::ofstream s(filename, std::ios::binary);
+        pnm_io_internal::save_image_pnm(s, ximage);
+        s.close();
+        if (!s)
+            throw std::runtime_error(std::string("Error while writing file ") + filename);
     }
 }
\ No newline at end of file
-- 
2.43.0


From c96c99c59b9f61fd4acf606e357be07e5e789c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:50 +0000
Subject: [PATCH 50/70] fix: cached results are not returned for other
 arguments, attributes can be cleared, explicit arguments win over those of
 concepts

---
 higra/data_cache.py | 194 ++++++++++++++++++++++++--------------------
 1 file changed, 107 insertions(+), 87 deletions(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index dd726ab..ebe26b4 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -24,15 +24,14 @@ import higra as hg
 class _WeakKeyDictionaryIterator:
 
     def __init__(self, wkd):
-        self.wkd = wkd
-        self.wkd_iter = iter(wkd._data)
+        # iterate on a copy: elements may be removed during the iteration
+        self.elements = iter(list(wkd._data.values()))
 
     def __iter__(self):
         return self
 
     def __next__(self):
-        k = self.wkd_iter.__next__()
-        ref, value = self.wkd._data[k]
+        ref, value = next(self.elements)
         return ref(), value
 
 
@@ -67,6 +66,12 @@ class WeakKeyDictionary:
     def __delete__(self, obj):
         del self._data[id(obj)]
 
+    def __contains__(self, obj):
+        return id(obj) in self._data
+
+    def __delitem__(self, obj):
+        del self._data[id(obj)]
+
     def setdefault(self, obj, default=None):
         """
         If obj is in the dictionary, return its value.
@@ -99,6 +104,8 @@ class WeakKeyDictionary:
 
 def _data_cache__init():
     hg.__higra_global_cache = DataCache()
+    # objects which hold their own attributes (see __get_attributes)
+    hg.__higra_dynamic_objects = DataCache()
 
 
 class DataCache:
@@ -141,9 +148,13 @@ def __get_attributes(key):
         if data is None:
             data = {}
             key.__higra_attributes__ = data
+        try:
+            hg.__higra_dynamic_objects.get_data(key)
+        except TypeError:  # no weak reference to key
+            pass
         return data
     else:
-        return hg.__higra_global_cache.get_data(key)
+        return hg.__higra_global_cache.get_data(key).setdefault("__attributes__", {})
 
 
 def list_attributes(key):
@@ -223,15 +234,39 @@ def has_tag(key, tag):
 
 
 def clear_attributes(key, *attribute_name):
+    """
+    Remove the given Higra attributes of the object :attr:`key`.
+
+    If no attribute name is given, all the Higra attributes of :attr:`key` and its cached results are removed.
+
+    :param key: an object
+    :param attribute_name: names of the attributes to remove (names which are not attributes of :attr:`key` are ignored)
+    :return: None
+    """
+    try:
+        attributes = __get_attributes(key)
+    except TypeError:
+        return
+    for name in attribute_name or list(attributes):
+        if name in attributes:
+            value = attributes.pop(name)
+            # remove the dynamic attribute inserted by set_attribute
+            if __support_dynamic_attributes(key) and key.__dict__.get(name, None) is value:
+                delattr(key, name)
     if not attribute_name:
         hg.__higra_global_cache.clear_data(key)
-    else:
-        obj_cache = hg.__higra_global_cache.get_data(key)
-        for k in obj_cache:
-            del obj_cache[k]
 
 
 def clear_all_attributes():
+    """
+    Remove the Higra attributes and the cached results of all objects.
+
+    :return: None
+    """
+    for key, _ in hg.__higra_dynamic_objects:
+        if key is not None:
+            clear_attributes(key)
+    hg.__higra_dynamic_objects.clear_all_data()
     hg.__higra_global_cache.clear_all_data()
 
 
@@ -384,58 +419,38 @@ def clear_auto_cache(*, function=None, reference_object=None, data_cache=None):
                 del cache[function_name]
 
 
-def __hash_combine(h1, h2):
-    """
-    Combine two hash values to create a new hash value
-    :param h1: int
-    :param h2: int
-    :return: int
-    """
-    h1 = h1 ^ (h2 + 0x9e3779b9 + (h1 << 6) + (h2 >> 2))
-    return h1
-
-
-def __has_method(o, m):
-    """
-    Test if a given object has a given method
-    :param o: object
-    :param m: method name
-    :return: True or False
+def __make_key(o, references):
     """
-    mm = getattr(o, m, None)
-    return callable(mm)
+    Computes a hashable key identifying the given object.
 
+    Containers are identified by their content, objects whose hash is based on their value by their value,
+    and any other object by its identity: in this last case a weak reference to the object is added to
+    :attr:`references` as its identity is only meaningful as long as the object is alive.
 
-def __make_key(o):
+    :param o: an object
+    :param references: list of weak references
+    :return: a hashable object
     """
-    Computes a hash of the given object
-    :param o:
-    :return:
-    """
-    if isinstance(o, int):
-        # because for an int x hash(x) == x which is not very usefull
-        return hash(str(o))
-    elif isinstance(o, (set, tuple, list)):
-        if len(o) != 0:
-            return functools.reduce(__hash_combine, [__make_key(e) for e in o])
-        else:
-            return 0x9e3775b2
+    if isinstance(o, (tuple, list)):
+        return type(o), tuple(__make_key(e, references) for e in o)
+    elif isinstance(o, (set, frozenset)):
+        return type(o), frozenset(__make_key(e, references) for e in o)
     elif isinstance(o, dict):
-        # not ideal but we use sum to be commutative, i.e. robust to arbitrary ordering of dictionary elements
-        keys = sum([__make_key(k) for k in o.keys()])
-        values = sum([__make_key(v) for v in o.values()])
-        return __hash_combine(keys, values)
-    elif __has_method(o, "__hash__"):
+        return type(o), frozenset((__make_key(k, references), __make_key(v, references)) for k, v in o.items())
+    elif isinstance(o, (float, complex)):  # distinguishes 0.0 from -0.0
+        return type(o), repr(o)
+    elif type(o).__hash__ is not object.__hash__:
         try:
-            return hash(o)
+            hash(o)
+            return type(o), o
         except TypeError:
             pass
 
-    return hash(str(id(o)))
-
-
-def __make_hash(*args, **kwargs):
-    return __hash_combine(__make_key(args), __make_key(kwargs))
+    try:
+        references.append(weakref.ref(o))
+    except TypeError:  # no weak references: keep the object alive
+        references.append(lambda: o)
+    return type(o), id(o)
 
 
 def auto_cache(fun):
@@ -462,8 +477,8 @@ def auto_cache(fun):
 
     :Caveats:
 
-    A function call is identified by a hash of its arguments. This hash is computed in such a way that non hashable
-    objects (except from dictionaries) are indeed identified by their unique object identifier. This means that calling the same auto-cached function with
+    A function call is identified by its arguments. Non hashable
+    objects (except from containers) are identified by their unique object identifier. This means that calling the same auto-cached function with
     the same mutated arguments can potentially lead to unexpected results.
 
     >>> @hg.auto_cache
@@ -483,9 +498,6 @@ def auto_cache(fun):
     >>> cached_sum(a, no_cache=True) # or force_recompute=True
     1
 
-    If you are really unlucky, it might also appends that two unrelated set of arguments get the same hash. In such case
-    the auto cache decorator will consider that they are the same. This is however extremely unlikely to happen.
-
     :Life Time:
 
     The data stored in the cache are associated to the first argument of the function called the *reference object*.
@@ -521,38 +533,43 @@ def auto_cache(fun):
         if no_cache or not hg.__auto_caching:
             return fun(*args, **kwargs)
 
-        try:
-            obj = None
-            if len(args) > 0:
-                obj = args[0]
-            elif len(kwargs) > 0:
-                first_param_name = signature.parameters.values().__iter__().__next__().name
-                if first_param_name in kwargs:
-                    obj = kwargs[first_param_name]
+        first_param_name = next(iter(signature.parameters))
+        if len(args) > 0:
+            obj = args[0]
+        else:
+            obj = kwargs.get(first_param_name, None)
 
+        try:
             if obj is None:
                 raise TypeError("cannot find first parameter")
-
             cache = data_cache.get_data(obj)
-            cache = cache.setdefault(_auto_cache_keyword, {})
-            cache = cache.setdefault(data_name, {})
+        except TypeError:
+            # cannot cache obj...
+            return fun(*args, **kwargs)
 
-            args = __transfer_to_kw_arguments(signature, args, kwargs)
-            __add_default_parameter(signature, args, kwargs)
-            if len(args) > 0:
-                import warnings
-                warnings.warn('Auto cache: all positional parameters could not be transformed into '
-                              'named parameters.')
+        cache = cache.setdefault(_auto_cache_keyword, {})
+        cache = cache.setdefault(data_name, {})
 
-            h = __make_hash(*args, **kwargs)
+        args = __transfer_to_kw_arguments(signature, args, kwargs)
+        __add_default_parameter(signature, args, kwargs)
+        if len(args) > 0:
+            import warnings
+            warnings.warn('Auto cache: all positional parameters could not be transformed into '
+                          'named parameters.')
 
-            if force_recompute or h not in cache:
-                cache[h] = fun(*args, **kwargs)
+        # the reference object is not part of the key: the cache belongs to it
+        references = []
+        key = __make_key((args, {k: v for k, v in kwargs.items() if k != first_param_name}), references)
 
-            return cache[h]
-        except TypeError as e:
-            # cannot cache obj...
-            return fun(*args, **kwargs)
+        if not force_recompute and key in cache:
+            result, key_references = cache[key]
+            # if an argument identified by its identity does not exist anymore, then its identity was reused
+            if all(ref() is not None for ref in key_references):
+                return result
+
+        result = fun(*args, **kwargs)
+        cache[key] = result, references
+        return result
 
     wrapper.original = fun
     if wrapper.__doc__ is not None:
@@ -600,12 +617,15 @@ def __resolve_concept(arg_name, concept, all_parameters_name, all_data_found, kw
         for data_element_name, data_element in concept_elements.items():
             # tries to map the given element name to a new name or itself if no such mapping exists
             argument_name = concept_name_to_arg_name_map.get(data_element_name, data_element_name)
-            # if element name is requested by function and not already in kwargs
-            if argument_name in all_parameters_name and (argument_name not in kwargs or kwargs[argument_name] is None):
-                kwargs[argument_name] = data_element
-
-        # add all found elements to found data
-        all_data_found.update(concept_elements)
+            if argument_name in all_parameters_name:
+                # if element name is requested by function and not already in kwargs
+                if argument_name not in kwargs or kwargs[argument_name] is None:
+                    kwargs[argument_name] = data_element
+                # arguments given explicitly take precedence over the elements of the concept
+                data_element = kwargs[argument_name]
+
+            # add all found elements to found data
+            all_data_found[data_element_name] = data_element
 
 
 def argument_helper(*concepts):
-- 
2.43.0


From 6b2ec03f3cb772f7dc19735d4a2db7c155c09f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:50 +0000
Subject: [PATCH 51/70] fix: filtering a binary hierarchy does not modify the
 given altitudes and accepts non boolean masks

---
 higra/algo/tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/higra/algo/tree.py b/higra/algo/tree.py
index d1e88f7..ad9d8aa 100644
--- a/higra/algo/tree.py
+++ b/higra/algo/tree.py
@@ -209,7 +209,9 @@ def filter_non_relevant_node_from_tree(tree, altitudes, non_relevant_functor, le
     mst = hg.CptBinaryHierarchy.get_mst(tree)
     deleted_frontier_nodes = non_relevant_functor(tree, altitudes)
 
-    mst_edge_weights = altitudes[tree.num_leaves():]
+    deleted_frontier_nodes = np.asarray(deleted_frontier_nodes).astype(bool)
+
+    mst_edge_weights = np.array(altitudes[tree.num_leaves():])  # a copy: the given altitudes are not modified
     mst_edge_weights[deleted_frontier_nodes[tree.num_leaves():]] = 0
     tree, altitudes = hg.bpt_canonical(mst, mst_edge_weights)
 
-- 
2.43.0


From 1971bb5408fdf6eb3fdf2aa6bb4a3f42fea2e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:09 +0000
Subject: [PATCH 52/70] fix: linearization without graph, exact common types,
 mean of integral angles

---
 higra/hg_utils.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/higra/hg_utils.py b/higra/hg_utils.py
index ae81cf6..c92df68 100644
--- a/higra/hg_utils.py
+++ b/higra/hg_utils.py
@@ -136,14 +136,14 @@ def linearize_vertex_weights(vertex_weights, graph=None, shape=None):
     else:
         shape_prefix_of_v_shape = False
 
-    if shape_prefix_of_v_shape:
-        return vertex_weights.reshape([graph.num_vertices()] + list(v_shape[len(shape):]))
-
     num_elements = 1
     for i in shape:
         num_elements *= i
 
-    if num_elements == vertex_weights.shape[0]:
+    if shape_prefix_of_v_shape:
+        return vertex_weights.reshape([num_elements] + list(v_shape[len(shape):]))
+
+    if len(v_shape) > 0 and num_elements == vertex_weights.shape[0]:
         return vertex_weights
 
     raise ValueError("Vertex weights shape " + str(v_shape) +
@@ -208,9 +208,9 @@ def delinearize_vertex_weights(vertex_weights, graph=None, shape=None):
     for i in shape:
         num_elements *= i
 
-    if v_shape[0] != num_elements:
+    if len(v_shape) == 0 or v_shape[0] != num_elements:
         raise ValueError("Vertex weights shape " + str(v_shape) +
-                         " is not compatible with graph size " + str(graph.num_vertices()) + ".")
+                         " is not compatible with graph shape " + str(shape) + ".")
 
     return vertex_weights.reshape(list(shape) + list(v_shape[1:]))
 
@@ -270,7 +270,9 @@ def mean_angle_mod_pi(angles1, angles2):
     """
     min_angles = np.minimum(angles1, angles2)
     max_angles = np.maximum(angles1, angles2)
-    differences = max_angles - min_angles
+    differences = np.asarray(max_angles - min_angles)
+    if differences.dtype.kind != 'f':  # the mean of integral angles is not integral
+        differences = differences.astype(np.float64)
 
     # places where we should have wrapped
     problems = differences > np.pi / 2
@@ -324,13 +326,13 @@ __minimum_type_order = {
     __bool: {
         __bool: __bool,
         __int8: __int8,
-        __uint8: __int16,
+        __uint8: __uint8,
         __int16: __int16,
-        __uint16: __int32,
+        __uint16: __uint16,
         __int32: __int32,
-        __uint32: __int64,
+        __uint32: __uint32,
         __int64: __int64,
-        __uint64: __int64,
+        __uint64: __uint64,
         __float32: __float32,
         __float64: __float64
     },
@@ -396,7 +398,7 @@ __minimum_type_order = {
         __uint32: __int64,
         __int64: __int64,
         __uint64: __int64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __uint32: {
@@ -409,7 +411,7 @@ __minimum_type_order = {
         __uint32: __uint32,
         __int64: __int64,
         __uint64: __uint64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __int64: {
@@ -422,7 +424,7 @@ __minimum_type_order = {
         __uint32: __int64,
         __int64: __int64,
         __uint64: __int64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __uint64: {
@@ -435,7 +437,7 @@ __minimum_type_order = {
         __uint32: __uint64,
         __int64: __int64,
         __uint64: __uint64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __float32: {
@@ -444,10 +446,10 @@ __minimum_type_order = {
         __uint8: __float32,
         __int16: __float32,
         __uint16: __float32,
-        __int32: __float32,
-        __uint32: __float32,
-        __int64: __float32,
-        __uint64: __float32,
+        __int32: __float64,
+        __uint32: __float64,
+        __int64: __float64,
+        __uint64: __float64,
         __float32: __float32,
         __float64: __float64
     },
-- 
2.43.0


From 88a13f86ddd97e8087ff44ac6c134f9e9623fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:10 +0000
Subject: [PATCH 53/70] fix: inplace sort of arrays which have to be converted
 or are read-only is refused

---
 higra/py_sorting.cpp | 15 +++++++++++++--
 higra/sorting.py     |  3 +++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/higra/py_sorting.cpp b/higra/py_sorting.cpp
index b032aff..4341ea5 100644
--- a/higra/py_sorting.cpp
+++ b/higra/py_sorting.cpp
@@ -21,15 +21,25 @@ namespace py_sorting {
     namespace py = pybind11;
 
 
+    /**
+     * Inplace algorithms cannot modify a read-only array.
+     */
+    static void check_inplace(const py::array &array) {
+        if (!array.writeable()) {
+            throw std::invalid_argument("Cannot sort a read-only array.");
+        }
+    }
+
     struct def_sort {
         template<typename value_t, typename C>
         static
         void def(C &c, const char *doc) {
             c.def("_sort", [](pyarray<value_t> &array) {
+                      check_inplace(py::reinterpret_borrow<py::array>(array));
                       hg::sort(array);
                   },
                   doc,
-                  py::arg("array"));
+                  py::arg("array").noconvert()); // inplace algorithm: must not work on a converted copy
         }
     };
 
@@ -38,10 +48,11 @@ namespace py_sorting {
         static
         void def(C &c, const char *doc) {
             c.def("_stable_sort", [](pyarray<value_t> &array) {
+                      check_inplace(py::reinterpret_borrow<py::array>(array));
                       hg::stable_sort(array);
                   },
                   doc,
-                  py::arg("array"));
+                  py::arg("array").noconvert()); // inplace algorithm: must not work on a converted copy
         }
     };
 
diff --git a/higra/sorting.py b/higra/sorting.py
index 5c8da78..009d0dc 100644
--- a/higra/sorting.py
+++ b/higra/sorting.py
@@ -29,6 +29,9 @@ def sort(array, stable=False):
     :param stable: if ``True``, a stable sort is performed.
     :return: nothing
     """
+    if not array.dtype.isnative:  # would be converted to a copy
+        raise TypeError("Cannot sort an array whose byte order is not native.")
+
     if stable:
         return hg.cpp._stable_sort(array)
     else:
-- 
2.43.0


From 5d4813c458585cd7eccfdf10567d209217b0321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:10 +0000
Subject: [PATCH 54/70] fix: self loops in sparse adjacency matrices, equal
 points in graphs made from points

---
 higra/algo/graph_core.py | 50 +++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/higra/algo/graph_core.py b/higra/algo/graph_core.py
index ae634dd..f9009af 100644
--- a/higra/algo/graph_core.py
+++ b/higra/algo/graph_core.py
@@ -80,8 +80,10 @@ def undirected_graph_2_adjacency_matrix(graph, edge_weights=None, non_edge_value
             raise ValueError("'non_edge_value' must be equal to 0 is 'sparse' is True: Scipy sparse matrix dor not "
                              "support custom default value.")
 
-        A = csr_matrix((edge_weights, (sources, targets)), shape=(num_v, num_v), dtype=edge_weights.dtype)
-        A += A.T
+        no_loop = sources != targets  # a self loop has a single entry in the matrix
+        A = csr_matrix((np.concatenate((edge_weights, edge_weights[no_loop])),
+                        (np.concatenate((sources, targets[no_loop])), np.concatenate((targets, sources[no_loop])))),
+                       shape=(num_v, num_v), dtype=edge_weights.dtype)
 
     else:
         A = np.empty((num_v, num_v), dtype=edge_weights.dtype)
@@ -221,9 +223,8 @@ def make_graph_from_points(X, graph_type="knn+mst", symmetrization="max", **kwar
     :return: a graph and its edge weights
     """
     try:
-        from scipy.spatial.distance import pdist, squareform, euclidean
+        from scipy.spatial.distance import pdist, euclidean
         from sklearn.neighbors import kneighbors_graph
-        from scipy.sparse.csgraph import minimum_spanning_tree
         from scipy.spatial import Delaunay
     except:
         raise RuntimeError("scipy and sklearn required.")
@@ -231,7 +232,11 @@ def make_graph_from_points(X, graph_type="knn+mst", symmetrization="max", **kwar
     n_neighbors = kwargs.get('n_neighbors', 5)
     mode = kwargs.get('mode', 'distance')
 
+    # stands for null distances (equal points) in adjacency matrices, where zero means no edge
+    null_distance = np.finfo(np.float64).tiny
+
     def symmetrization_fun(A):
+        A.data[A.data == 0] = null_distance
         if symmetrization == "min":
             return A.minimum(A.T)
         elif symmetrization == "max":
@@ -239,22 +244,32 @@ def make_graph_from_points(X, graph_type="knn+mst", symmetrization="max", **kwar
         else:
             raise ValueError("Unknown symmetrization: " + str(symmetrization))
 
-    if graph_type == "complete":
-        d = pdist(X)
-        A = squareform(d)
+    def complete_graph():
+        g = hg.UndirectedGraph(X.shape[0])
+        g.add_edges(*np.triu_indices(X.shape[0], 1))
+        return g, pdist(X)
+
+    def mst_fun():
+        g, edge_weights = complete_graph()
+        mst = hg.minimum_spanning_tree(g, edge_weights)
+        edge_weights = edge_weights[hg.CptMinimumSpanningTree.get_edge_map(mst)]
+        edge_weights[edge_weights == 0] = null_distance
+        return hg.undirected_graph_2_adjacency_matrix(mst, edge_weights)
+
+    def graph_from_adjacency_matrix(A):
         g, edge_weights = hg.adjacency_matrix_2_undirected_graph(A)
+        edge_weights[edge_weights == null_distance] = 0
+        return g, edge_weights
+
+    if graph_type == "complete":
+        g, edge_weights = complete_graph()
     elif graph_type == "knn":
         A = kneighbors_graph(X, n_neighbors=n_neighbors, mode=mode)
-        A = symmetrization_fun(A)
-        g, edge_weights = hg.adjacency_matrix_2_undirected_graph(A)
+        g, edge_weights = graph_from_adjacency_matrix(symmetrization_fun(A))
     elif graph_type == "knn+mst":
         A = kneighbors_graph(X, n_neighbors=n_neighbors, mode=mode)
-        A = symmetrization_fun(A)
-        D = squareform(pdist(X))
-        MST = minimum_spanning_tree(D)
-        MST = MST + MST.T
-        A = A.maximum(MST)
-        g, edge_weights = hg.adjacency_matrix_2_undirected_graph(A)
+        A = symmetrization_fun(A).maximum(mst_fun())
+        g, edge_weights = graph_from_adjacency_matrix(A)
     elif graph_type == "delaunay":
         g = hg.UndirectedGraph(X.shape[0])
         edge_weights = []
@@ -276,10 +291,7 @@ def make_graph_from_points(X, graph_type="knn+mst", symmetrization="max", **kwar
 
         edge_weights = np.asarray(edge_weights, dtype=np.float64)
     elif graph_type == "mst":
-        D = squareform(pdist(X))
-        MST = minimum_spanning_tree(D).toarray()
-        MST = MST + MST.T
-        g, edge_weights = hg.adjacency_matrix_2_undirected_graph(MST)
+        g, edge_weights = graph_from_adjacency_matrix(mst_fun())
     else:
         raise ValueError("Unknown graph_type: " + str(graph_type))
 
-- 
2.43.0


From 2f1e35bcc043a4f16f0373bc247cf00b9664289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:10 +0000
Subject: [PATCH 55/70] fix: linkage matrices merging clusters which do not
 exist are refused

---
 higra/interop/py_scipy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/higra/interop/py_scipy.cpp b/higra/interop/py_scipy.cpp
index bc86f41..093cf15 100644
--- a/higra/interop/py_scipy.cpp
+++ b/higra/interop/py_scipy.cpp
@@ -60,10 +60,14 @@ namespace py_scipy {
 
         xt::view(altitudes, xt::range(0, n_leaves)) = 0;
         xt::view(area, xt::range(0, n_leaves)) = 1;
+        parents.fill(invalid_index); // clusters which are never merged are refused by the tree
         parents(n_nodes - 1) = n_nodes - 1;
 
         for (index_t i = 0; i < n_leaves - 1; i++) {
             index_t n = i + n_leaves;
+            hg_assert(linkage_matrix(i, 0) >= 0 && linkage_matrix(i, 0) < n &&
+                      linkage_matrix(i, 1) >= 0 && linkage_matrix(i, 1) < n,
+                      "Linkage matrix merges a cluster which does not exist.");
             parents(static_cast<index_t>(linkage_matrix(i, 0))) = n;
             parents(static_cast<index_t>(linkage_matrix(i, 1))) = n;
             altitudes(n) = linkage_matrix(i, 2);
-- 
2.43.0


From b2c519ea596e589b1294ba25901a77825bf5cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:31 +0000
Subject: [PATCH 56/70] fix: the reconstruction of leaf data preserves the type
 and the values of the altitudes

---
 higra/algo/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/higra/algo/tree.py b/higra/algo/tree.py
index ad9d8aa..aa22edc 100644
--- a/higra/algo/tree.py
+++ b/higra/algo/tree.py
@@ -60,8 +60,9 @@ def reconstruct_leaf_data(tree, altitudes, deleted_nodes=None, leaf_graph=None):
             deleted_nodes = deleted_nodes.copy()
             deleted_nodes[:tree.num_leaves()] = True
 
-        reconstruction = hg.propagate_sequential(tree, altitudes, deleted_nodes)
-        leaf_weights = reconstruction[0:tree.num_leaves(), ...]
+        # propagation of the node indices: the type and the exact values of the altitudes are preserved
+        nodes = hg.propagate_sequential(tree, np.arange(tree.num_vertices()), deleted_nodes)
+        leaf_weights = altitudes[nodes[0:tree.num_leaves()].astype(np.int64), ...]
 
     if leaf_graph is not None:
         leaf_weights = hg.delinearize_vertex_weights(leaf_weights, leaf_graph)
-- 
2.43.0


From ba9b27859bbd246c6a3aca6353630eabdcb1ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:31 +0000
Subject: [PATCH 57/70] fix: markers with fractional values label the leaves
 they mark

---
 higra/algo/tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/higra/algo/tree.py b/higra/algo/tree.py
index aa22edc..4d720ee 100644
--- a/higra/algo/tree.py
+++ b/higra/algo/tree.py
@@ -312,7 +312,9 @@ def binary_labelisation_from_markers(tree, object_marker, background_marker, lea
         object_marker = hg.linearize_vertex_weights(object_marker, leaf_graph)
         background_marker = hg.linearize_vertex_weights(background_marker, leaf_graph)
 
-    object_marker, background_marker = hg.cast_to_common_type(object_marker, background_marker)
+    # non zero values of any type belong to the markers
+    object_marker = (np.asarray(object_marker) != 0).astype(np.uint8)
+    background_marker = (np.asarray(background_marker) != 0).astype(np.uint8)
     labels = hg.cpp._binary_labelisation_from_markers(tree, object_marker, background_marker)
 
     if leaf_graph is not None:
-- 
2.43.0


From fa624a7a4e0c9c68f6f92d638f09264f2b3acf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:31 +0000
Subject: [PATCH 58/70] fix: value ranges of integer images in constrained
 connectivity hierarchies

---
 higra/hierarchy/constrained_connectivity_hierarchy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/hierarchy/constrained_connectivity_hierarchy.py b/higra/hierarchy/constrained_connectivity_hierarchy.py
index 7976e30..a068f2e 100644
--- a/higra/hierarchy/constrained_connectivity_hierarchy.py
+++ b/higra/hierarchy/constrained_connectivity_hierarchy.py
@@ -55,7 +55,7 @@ def constrained_connectivity_hierarchy_alpha_omega(graph, vertex_weights):
     # vertex value range inside each region
     min_value = hg.accumulate_sequential(tree, vertex_weights, hg.Accumulators.min)
     max_value = hg.accumulate_sequential(tree, vertex_weights, hg.Accumulators.max)
-    value_range = max_value - min_value
+    value_range = np.subtract(max_value, min_value, dtype=np.float64)  # no overflow with integral types
 
     # parent node can't be deleted
     altitude_parents[tree.root()] = max(altitudes[tree.root()], value_range[tree.root()])
-- 
2.43.0


From cda902d4ff33a8f2965979733f91a25449ce6f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:32 +0000
Subject: [PATCH 59/70] fix: strided arrays are converted where a static layout
 is required

---
 lib/include/xtensor-python/pycontainer.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/include/xtensor-python/pycontainer.hpp b/lib/include/xtensor-python/pycontainer.hpp
index 5e80a32..ca6dad9 100644
--- a/lib/include/xtensor-python/pycontainer.hpp
+++ b/lib/include/xtensor-python/pycontainer.hpp
@@ -305,8 +305,17 @@ namespace xt
         }
 
         auto dtype = pybind11::detail::npy_format_descriptor<value_type>::dtype();
-        auto res = PyArray_FromAny(ptr, (PyArray_Descr *) dtype.release().ptr(), 0, 0,
-                                   NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_FORCECAST, nullptr);
+        // containers with a static layout need an array having this layout: other ones (e.g. views) are copied
+        int flags = NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_FORCECAST;
+        if (derived_type::static_layout == layout_type::row_major)
+        {
+            flags |= NPY_ARRAY_C_CONTIGUOUS;
+        }
+        else if (derived_type::static_layout == layout_type::column_major)
+        {
+            flags |= NPY_ARRAY_F_CONTIGUOUS;
+        }
+        auto res = PyArray_FromAny(ptr, (PyArray_Descr *) dtype.release().ptr(), 0, 0, flags, nullptr);
         return res;
     }
 
-- 
2.43.0


From 2af40e4c182653a1bd8dbf0d7bae2addceabeaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:32 +0000
Subject: [PATCH 60/70] fix: triangular filter with a symmetric and normalised
 kernel

---
 higra/image/image_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/image/image_utils.py b/higra/image/image_utils.py
index 94fe38d..7394531 100644
--- a/higra/image/image_utils.py
+++ b/higra/image/image_utils.py
@@ -25,7 +25,7 @@ def triangular_filter(image, size):
     :param size: a positive integer
     :return: a 2d array with the same shape as image
     """
-    kernel = np.asarray(list(range(size + 1)) + list(range(size, 0, -1)))
+    kernel = np.asarray(list(range(1, size + 2)) + list(range(size, 0, -1))) / (size + 1) ** 2
     im2 = np.pad(image, size, 'symmetric')
     im2 = np.apply_along_axis(lambda m: np.convolve(m, kernel, mode='valid'), axis=0, arr=im2)
     im2 = np.apply_along_axis(lambda m: np.convolve(m, kernel, mode='valid'), axis=1, arr=im2)
-- 
2.43.0


From 1a9ff87be235d485b8097e51863a8c520f9cd1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:32 +0000
Subject: [PATCH 61/70] fix: iterators and contour elements keep their owner
 alive

---
 higra/image/py_contour_2d.cpp       | 23 +++++++++++++++++++----
 higra/structure/py_common_graph.hpp |  5 +++++
 higra/structure/py_tree_graph.cpp   | 15 ++++++++++++---
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/higra/image/py_contour_2d.cpp b/higra/image/py_contour_2d.cpp
index 975a7b7..675cb31 100644
--- a/higra/image/py_contour_2d.cpp
+++ b/higra/image/py_contour_2d.cpp
@@ -22,6 +22,16 @@ namespace py_contour_2d {
     namespace py = pybind11;
 
 
+    /**
+     * Index of an element of a sequence of the given size, or IndexError.
+     */
+    static index_t checked_index(index_t i, size_t size) {
+        if (i < 0 || i >= (index_t) size) {
+            throw py::index_error("index out of range");
+        }
+        return i;
+    }
+
     void py_init_contour_segment_2d(pybind11::module &m) {
 
         using class_t = contour_segment_2d;
@@ -42,11 +52,12 @@ namespace py_contour_2d {
                   return py::make_iterator(transform_it_t(c.begin(), transform), transform_it_t(c.end(), transform));
                   //return py::make_iterator(c.begin(), c.end());
               },
+              py::keep_alive<0, 1>(), // the iterator refers to the segment
               "Iterator on the contour elements of the contour segment. ");
         c.def("__len__", &class_t::size, "Number of elements in the contour segment.");
         c.def("__getitem__", [](class_t &c, index_t i) {
             // ::TODO:: remove this stupid thing when xtensor python supports it
-            const auto &e = c[i];
+            const auto &e = c[checked_index(i, c.size())];
             return std::make_pair(e.first, std::make_pair(e.second[0], e.second[1]));
         });
         // ::TODO:: uncomment when xtensor python supports it
@@ -70,11 +81,14 @@ namespace py_contour_2d {
                                      "contour segments s1 and s2, "
                                      "the last element of s1 is equal to the first element of s2.");
         c.def("__iter__", [](class_t &c) {
-                  return py::make_iterator(c.begin(), c.end());
+                  // each segment keeps its iterator and then its polyline alive
+                  return py::make_iterator(c.begin(), c.end(), py::keep_alive<0, 1>());
               },
+              py::keep_alive<0, 1>(),
               "Iterator on the contour segments of the polyline contour. ");
         c.def("__len__", &class_t::size, "Number of segments in the polyline contour.");
-        c.def("__getitem__", [](class_t &c, index_t i) { return c[i]; });
+        c.def("__getitem__", [](class_t &c, index_t i) { return c[checked_index(i, c.size())]; },
+              py::keep_alive<0, 1>()); // the segment refers to the polyline
         c.def("subdivide", &class_t::subdivide,
               "Subdivide the line such that the distance between the line\n"
               "joining the extremities of the contour segment and each of its elements is lower than the threshold (\n"
@@ -97,9 +111,10 @@ namespace py_contour_2d {
         c.def("__iter__", [](class_t &c) {
                   return py::make_iterator(c.begin(), c.end());
               },
+              py::keep_alive<0, 1>(), // the iterator refers to the contour
               "Iterator on the polyline contours. ");
         c.def("__len__", &class_t::size, "Number of polyline contours.");
-        c.def("__getitem__", [](class_t &c, index_t i) { return c[i]; });
+        c.def("__getitem__", [](class_t &c, index_t i) { return c[checked_index(i, c.size())]; });
         c.def("subdivide", &class_t::subdivide,
               "Subdivide each segment of the contour such that: "
               "For each segment, the distance between the line joining the extremities "
diff --git a/higra/structure/py_common_graph.hpp b/higra/structure/py_common_graph.hpp
index e136f35..2cde632 100644
--- a/higra/structure/py_common_graph.hpp
+++ b/higra/structure/py_common_graph.hpp
@@ -70,6 +70,7 @@ namespace py_common_graph {
                   return pybind11::make_iterator(it1, it2);
 
               },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
               "Iterator over all out edges from 'vertex'. An out edge is a tuple '(vertex, adjacent_vertex)'.",
               pybind11::arg("vertex"));
 
@@ -137,6 +138,7 @@ namespace py_common_graph {
                   return pybind11::make_iterator(it1, it2);
 
               },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
               "Iterator over all in edges from 'vertex'. An in edge is a tuple '(adjacent_vertex, vertex)'.",
               pybind11::arg("vertex"));
 
@@ -171,6 +173,7 @@ namespace py_common_graph {
                   auto it = hg::adjacent_vertices(v, g);
                   return pybind11::make_iterator(it.first, it.second);
               },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
               "Iterator over all vertices adjacent to the given vertex.",
               pybind11::arg("vertex"));
     }
@@ -182,6 +185,7 @@ namespace py_common_graph {
                   auto it = hg::vertices(g);
                   return pybind11::make_iterator(it.first, it.second);
               },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
               "Iterator over all vertices of the graph.");
 
         c.def("num_vertices", [](graph_t &g) { return hg::num_vertices(g); },
@@ -203,6 +207,7 @@ namespace py_common_graph {
                   auto it2 = edge_iterator(it.second, cpp_edge_2_python<edge_t>);
                   return pybind11::make_iterator(it1, it2);
               },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
               "Iterator over all edges of the graph.");
 
         c.def("num_edges", [](graph_t &g) { return hg::num_edges(g); },
diff --git a/higra/structure/py_tree_graph.cpp b/higra/structure/py_tree_graph.cpp
index 2597553..4344087 100644
--- a/higra/structure/py_tree_graph.cpp
+++ b/higra/structure/py_tree_graph.cpp
@@ -228,6 +228,7 @@ namespace py_tree_graph {
                   return pybind11::make_iterator(it1, it2);
 
               },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
               "Iterator over all out edges from 'vertex'. An out edge is a tuple '(vertex, adjacent_vertex)'.",
               pybind11::arg("vertex"));
 
@@ -260,6 +261,7 @@ namespace py_tree_graph {
                   return pybind11::make_iterator(it1, it2);
 
               },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
               "Iterator over all in edges from 'vertex'. An in edge is a tuple '(adjacent_vertex, vertex)'.",
               pybind11::arg("vertex"));
 
@@ -295,6 +297,7 @@ namespace py_tree_graph {
                   auto it = hg::adjacent_vertices(v, g);
                   return pybind11::make_iterator(it.first, it.second);
               },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
               "Iterator over all vertices adjacent to the given vertex.",
               pybind11::arg("vertex"));
 
@@ -400,7 +403,9 @@ namespace py_tree_graph {
               [](const graph_t &tree) {
                   auto range = hg::leaves_iterator(tree);
                   return py::make_iterator(range.begin(), range.end());
-              }, "Returns an iterator on leaves of the tree.");
+              },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
+              "Returns an iterator on leaves of the tree.");
 
         c.def("leaves_to_root_iterator",
               [](const graph_t &tree, bool includeLeaves, bool includeRoot) {
@@ -409,7 +414,9 @@ namespace py_tree_graph {
                                                                            : hg::leaves_it::exclude,
                                                            (includeRoot) ? hg::root_it::include : hg::root_it::exclude);
                   return py::make_iterator(range.begin(), range.end());
-              }, "Returns an iterator on the node indices going from the leaves to the root of the tree.",
+              },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
+              "Returns an iterator on the node indices going from the leaves to the root of the tree.",
               py::arg("include_leaves") = true,
               py::arg("include_root") = true);
 
@@ -420,7 +427,9 @@ namespace py_tree_graph {
                                                                        : hg::leaves_it::exclude,
                                                        (includeRoot) ? hg::root_it::include : hg::root_it::exclude);
                   return py::make_iterator(range.begin(), range.end());
-              }, "Returns an iterator on the node indices going from the root to the leaves of the tree.",
+              },
+              pybind11::keep_alive<0, 1>(), // the iterator refers to the graph
+              "Returns an iterator on the node indices going from the root to the leaves of the tree.",
               py::arg("include_leaves") = true,
               py::arg("include_root") = true);
 
-- 
2.43.0


From a32c8bcc97dd575b2e883629664d91778570f634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:32 +0000
Subject: [PATCH 62/70] fix: edge lists of undirected graphs do not dangle when
 the graph changes

---
 higra/structure/py_undirected_graph.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/higra/structure/py_undirected_graph.cpp b/higra/structure/py_undirected_graph.cpp
index b78a9fc..8675763 100644
--- a/higra/structure/py_undirected_graph.cpp
+++ b/higra/structure/py_undirected_graph.cpp
@@ -60,8 +60,9 @@ namespace py_undirected_graph {
         add_edge_list_graph_concept<graph_t, decltype(c)>(c);
         add_edge_index_graph_concept<graph_t, decltype(c)>(c);
 
-        c.def("_sources", [](const graph_t &g) { return hg::sources(g); }, py::keep_alive<0, 1>());
-        c.def("_targets", [](const graph_t &g) { return hg::targets(g); }, py::keep_alive<0, 1>());
+        // copies: a view on the edges would dangle as soon as an edge is added to the graph
+        c.def("_sources", [](const graph_t &g) { return hg::array_1d<hg::index_t>(hg::sources(g)); });
+        c.def("_targets", [](const graph_t &g) { return hg::array_1d<hg::index_t>(hg::targets(g)); });
 
         c.def("add_edge", [](graph_t &g,
                              const vertex_t source,
-- 
2.43.0


From c68bad43818885a462a5155db8c406914c2ea240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:03 +0000
Subject: [PATCH 63/70] fix: the maximum and minimum accumulators start from
 infinite values

---
 include/higra/accumulator/accumulator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index 4e0ead4..d17c48d 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -599,7 +599,9 @@ namespace hg {
 
         template <typename value_type>
         static value_type init_value(){
-            return (std::numeric_limits<value_type>::max)();
+            return std::numeric_limits<value_type>::has_infinity ?
+                   std::numeric_limits<value_type>::infinity() :
+                   (std::numeric_limits<value_type>::max)();
         }
 
         template <typename value_type>
@@ -627,7 +629,9 @@ namespace hg {
 
         template <typename value_type>
         static value_type init_value(){
-            return std::numeric_limits<value_type>::lowest();
+            return std::numeric_limits<value_type>::has_infinity ?
+                   -std::numeric_limits<value_type>::infinity() :
+                   std::numeric_limits<value_type>::lowest();
         }
 
         template <typename value_type>
-- 
2.43.0


From 96c6a6846313e2a7f43fe613d8dbb773a87fc11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:03 +0000
Subject: [PATCH 64/70] fix: compactness and mean vertex weights use the area
 in the given leaf graph

---
 higra/attribute/tree_attributes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 74be0e1..8be0f8a 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -235,7 +235,7 @@ def attribute_compactness(tree, area=None, contour_length=None, normalize=True,
     :return: a 1d array
     """
     if area is None:
-        area = hg.attribute_area(tree)
+        area = hg.attribute_area(tree, leaf_graph=leaf_graph)
 
     if contour_length is None:
         contour_length = hg.attribute_contour_length(tree, leaf_graph=leaf_graph)
@@ -267,7 +267,7 @@ def attribute_mean_vertex_weights(tree, vertex_weights, area=None, leaf_graph=No
     :return: a nd array
     """
     if area is None:
-        area = hg.attribute_area(tree)
+        area = hg.attribute_area(tree, leaf_graph=leaf_graph)
 
     if leaf_graph is not None:
         vertex_weights = hg.linearize_vertex_weights(vertex_weights, leaf_graph)
-- 
2.43.0


From d6b42655410a49421ff962b405cafb898eeb1d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:03 +0000
Subject: [PATCH 65/70] fix: a tree is not linked to a leaf graph whose
 vertices are not its leaves

---
 higra/algo/tree_energy_optimization.py | 5 +++--
 higra/hierarchy/hierarchy_core.py      | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/higra/algo/tree_energy_optimization.py b/higra/algo/tree_energy_optimization.py
index 7aa77f4..2833e7b 100644
--- a/higra/algo/tree_energy_optimization.py
+++ b/higra/algo/tree_energy_optimization.py
@@ -81,7 +81,7 @@ def hierarchy_to_optimal_energy_cut_hierarchy(tree, data_fidelity_attribute,
     :param data_fidelity_attribute: 1d array representing the data fidelity energy of each node of the input tree
     :param regularization_attribute: 1d array representing the regularization energy of each node of the input tree
     :param approximation_piecewise_linear_function: Maximum number of pieces used in the approximated piecewise linear model for the energy function (default 10).
-    :return: a tree (Concept :class:`~higra.CptHierarchy`) and its node altitudes
+    :return: a tree (Concept :class:`~higra.CptHierarchy` if input tree already satisfied this concept) and its node altitudes
     """
     data_fidelity_attribute, regularization_attribute = hg.cast_to_common_type(data_fidelity_attribute,
                                                                                regularization_attribute)
@@ -91,7 +91,8 @@ def hierarchy_to_optimal_energy_cut_hierarchy(tree, data_fidelity_attribute,
                                                                             int(
                                                                                 approximation_piecewise_linear_function))
 
-    hg.CptHierarchy.link(new_tree, hg.CptHierarchy.get_leaf_graph(tree))
+    if hg.CptHierarchy.validate(tree):
+        hg.CptHierarchy.link(new_tree, hg.CptHierarchy.get_leaf_graph(tree))
 
     return new_tree, altitudes
 
diff --git a/higra/hierarchy/hierarchy_core.py b/higra/hierarchy/hierarchy_core.py
index 56b35d1..f9c0fc1 100644
--- a/higra/hierarchy/hierarchy_core.py
+++ b/higra/hierarchy/hierarchy_core.py
@@ -231,7 +231,8 @@ def simplify_tree(tree, deleted_vertices, process_leaves=False):
     :param process_leaves: If ``False``, a leaf vertex :math:`v` will never be removed disregarding the value of
                             :math:`deletedVertices[v]`. If ``True``, leaves node may be removed. Note that in this
                             case, a reordering of the nodes may be necessary, which is a more complex and slower operation.
-    :return: a tree (Concept :class:`~higra.CptHierarchy` if input tree already satisfied this concept) and the node map
+    :return: a tree (Concept :class:`~higra.CptHierarchy` if input tree already satisfied this concept and if no leaf
+             is removed) and the node map
     """
 
     if len(deleted_vertices.shape) != 1 or deleted_vertices.shape[0] != tree.num_vertices():
@@ -241,7 +242,8 @@ def simplify_tree(tree, deleted_vertices, process_leaves=False):
     new_tree = res.tree()
     node_map = res.node_map()
 
-    if hg.CptHierarchy.validate(tree):
+    # if some leaves have been removed, the leaves of the new tree are not the vertices of the leaf graph anymore
+    if hg.CptHierarchy.validate(tree) and np.array_equal(node_map[:new_tree.num_leaves()], np.arange(tree.num_leaves())):
         hg.CptHierarchy().link(new_tree, hg.CptHierarchy.get_leaf_graph(tree))
 
     return new_tree, node_map
-- 
2.43.0


From 7c25551f21238537541e9f4b91cce4b6bce1a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:29 +0000
Subject: [PATCH 66/70] fix: tree of shapes of images whose values are more
 than half of the range of their type apart

---
 include/higra/image/tree_of_shapes.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/higra/image/tree_of_shapes.hpp b/include/higra/image/tree_of_shapes.hpp
index 7eb15c7..4a9b074 100644
--- a/include/higra/image/tree_of_shapes.hpp
+++ b/include/higra/image/tree_of_shapes.hpp
@@ -319,6 +319,20 @@ namespace hg {
             return std::make_pair(std::move(sorted_vertex_indices), std::move(enqueued_level));
         }
 
+        /**
+         * Difference high - low with low <= high; it may not be representable by a signed integral type.
+         */
+        template<typename value_type, typename std::enable_if_t<std::is_integral<value_type>::value, int> = 0>
+        auto level_distance(value_type low, value_type high) {
+            using unsigned_type = typename std::make_unsigned<value_type>::type;
+            return (unsigned_type) ((unsigned_type) high - (unsigned_type) low);
+        }
+
+        template<typename value_type, typename std::enable_if_t<!std::is_integral<value_type>::value, int> = 0>
+        auto level_distance(value_type low, value_type high) {
+            return high - low;
+        }
+
         template<typename graph_t,
                 typename T,
                 typename value_type = typename T::value_type,
@@ -345,7 +359,7 @@ namespace hg {
                 if (next == queue.end()) {
                     return prev;
                 }
-                if (next->first - position->first < position->first - prev->first) {
+                if (level_distance(position->first, next->first) < level_distance(prev->first, position->first)) {
                     return next;
                 } else {
                     return prev;
-- 
2.43.0


From bf374f1115aabb7db478b1ac6280befcf7f40ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:40 +0000
Subject: [PATCH 67/70] fix: overflow of integral edge weights in
 attribute_frontier_strength

---
 higra/attribute/tree_attributes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 8be0f8a..dd01819 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -134,6 +134,10 @@ def attribute_frontier_strength(tree, edge_weights, leaf_graph):
     :param leaf_graph: graph on the leaves of the input tree (deduced from :class:`~higra.CptHierarchy`)
     :return: a 1d array
     """
+    # sums of integral edge weights may not be representable in the type of the weights
+    dtype = edge_weights.dtype
+    edge_weights = hg.cast_to_dtype(edge_weights, np.float64)
+
     # this is a rag like graph
     if hg.CptRegionAdjacencyGraph.validate(leaf_graph) and edge_weights.shape[0] != leaf_graph.num_edges():
         edge_weights = hg.rag_accumulate_on_edges(leaf_graph, hg.Accumulators.sum, edge_weights=edge_weights)
@@ -142,7 +146,7 @@ def attribute_frontier_strength(tree, edge_weights, leaf_graph):
     # frontier_length is cached: it must not be modified
     frontier_strength = np.array(hg.attribute_frontier_length(tree, edge_weights, leaf_graph))
     frontier_strength[tree.num_leaves():] = frontier_strength[tree.num_leaves():] / frontier_length[tree.num_leaves():]
-    return frontier_strength
+    return frontier_strength.astype(dtype)
 
 
 @hg.argument_helper(hg.CptHierarchy)
-- 
2.43.0


From d4831f3b0e0cad89de04096906aefaa266ed24af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:40 +0000
Subject: [PATCH 68/70] fix: overflow of integral edge weights in
 attribute_contour_strength

---
 higra/attribute/tree_attributes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index dd01819..9e1f88d 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -216,6 +216,9 @@ def attribute_contour_strength(tree, edge_weights, vertex_perimeter=None, edge_l
     # perimeter of the root, or of a connected component, may be null (contour_length is cached: it must not be modified)
     perimeter = np.where(np.isclose(perimeter, 0), 1, perimeter)
 
+    # sums of integral edge weights may not be representable in the type of the weights
+    edge_weights = hg.cast_to_dtype(edge_weights, np.float64)
+
     if hg.CptRegionAdjacencyGraph.validate(leaf_graph):
         edge_weights = hg.rag_accumulate_on_edges(leaf_graph, hg.Accumulators.sum, edge_weights)
 
-- 
2.43.0


From fc960bb5776af5b6c9c9a200e3884dba0c19535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:40 +0000
Subject: [PATCH 69/70] fix: overflow of integral edge weights in
 attribute_tree_sampling_probability

---
 higra/attribute/tree_attributes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 9e1f88d..6d88f81 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -676,6 +676,9 @@ def attribute_tree_sampling_probability(tree, leaf_graph, leaf_graph_edge_weight
     if model not in ("edge", "null"):
         raise ValueError("Parameter 'model' must be either 'edge' or 'null'.")
 
+    # sums of integral edge weights may not be representable in the type of the weights
+    leaf_graph_edge_weights = hg.cast_to_dtype(leaf_graph_edge_weights, np.float64)
+
     if model == 'edge':
         lca_map = hg.attribute_lca_map(tree, leaf_graph=leaf_graph)
         leaf_graph_edge_weights = leaf_graph_edge_weights / np.sum(leaf_graph_edge_weights)
-- 
2.43.0


From 4fe7e97a1c57b05a34bff87e28de4a62c9b7e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:40 +0000
Subject: [PATCH 70/70] fix: linearize squared_vertex_values in
 binary_partition_tree_MumfordShah_energy

---
 higra/algo/tree_energy_optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/higra/algo/tree_energy_optimization.py b/higra/algo/tree_energy_optimization.py
index 2833e7b..ae02149 100644
--- a/higra/algo/tree_energy_optimization.py
+++ b/higra/algo/tree_energy_optimization.py
@@ -201,6 +201,8 @@ def binary_partition_tree_MumfordShah_energy(graph,
 
     if squared_vertex_values is None:
         squared_vertex_values = vertex_values * vertex_values
+    else:
+        squared_vertex_values = hg.linearize_vertex_weights(squared_vertex_values, graph)
 
     tree, altitudes = hg.cpp._binary_partition_tree_MumfordShah_energy(
         graph,
-- 
2.43.0

