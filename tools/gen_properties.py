#!/usr/bin/env python3
"""Writes properties.jsonl (edit here, then run)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


p("C01", "Undirected graphs stay consistent under any mutation history",
  "After any sequence of vertex and edge additions, edge removals and edge modifications, every view of an undirected graph "
  "(vertex and edge counts, edge list, sources and targets, edge lookup, degrees, incident edges, adjacent vertices, iteration) "
  "describes the same multigraph: the one obtained by applying the operations one by one, self loops and parallel edges included. "
  "Out of range arguments are refused with an exception and change nothing, and a pickled copy is the same graph.",
  ["histories"], "every sequence of mutations, valid or not, from the empty graph, for both storage policies of the graph class",
  "The tests build a few fixed graphs and apply one or two mutations; the interplay of removal, re-use of a removed edge, self "
  "loops and parallel edges over a history is not sampled.",
  ["include/higra/structure/undirected_graph.hpp", "higra/structure/py_undirected_graph.cpp", "higra/structure/undirected_graph.py"],
  [("edge table plus per vertex incidence lists updated together", "undirected_graph.hpp: add_edge/remove_edge/set_edge")],
  ["hg.UndirectedGraph", "hg.UndirectedGraphOptimizedDelete"])

p("C02", "Trees accept exactly valid parent arrays; every relation follows from them",
  "A tree is built from an integer parent array if and only if the array is a topologically sorted rooted tree with its leaves first; "
  "any other array is refused with an exception. For every accepted array, root, leaves, parents, children, degrees, edges, ancestors, "
  "node iterations, region lookup, naive lowest common ancestors, sub-trees and pickled copies (category and attributes included) are "
  "the ones the parent array defines, whatever was called before on the tree.",
  ["inputs", "histories"], "every parent array up to a size, every node, every option of the iterators, every order of the calls that build or drop the children lists",
  "The tests use two or three hand written trees; acceptance of malformed arrays, single node trees, chains and options are barely touched.",
  ["include/higra/structure/tree_graph.hpp", "higra/structure/py_tree_graph.cpp", "higra/structure/tree_graph.py", "include/higra/algo/tree.hpp"],
  [("validation in the constructor", "tree_graph.hpp: tree::_init"), ("lazily computed children lists", "tree_graph.hpp: compute_children")],
  ["hg.Tree"])

p("C03", "Fast lowest common ancestors always equal the naive ones",
  "For every tree, every pair of nodes and every preprocessing algorithm and parameter (sparse table, block sparse table with any block "
  "size), the lowest common ancestor returned for scalars, arrays or graph edges is the deepest node that is an ancestor of both. "
  "This still holds after the preprocessing is recomputed, dropped, copied or saved and restored.",
  ["inputs", "configurations", "histories"], "all trees up to a size plus families of large ones around block size boundaries, all node pairs, all block sizes, all preprocessing histories up to a depth",
  "Tests query a few pairs on one or two trees with one block size; range minimum queries fail at block boundaries, which depend on size and pair.",
  ["include/higra/structure/lca_fast.hpp", "include/higra/structure/details/range_minimum_query.hpp", "higra/structure/py_lca_fast.cpp", "higra/structure/lca_fast.py", "higra/structure/tree_graph.py"],
  [("Euler tour and range minimum query", "lca_fast.hpp"), ("preprocessing cached on the tree", "tree_graph.py: lowest_common_ancestor_preprocess")],
  ["Tree.lowest_common_ancestor", "Tree.lowest_common_ancestor_preprocess", "hg.LCA_rmq_sparse_table", "hg.LCA_rmq_sparse_table_block"])

p("C04", "Grid graphs and embeddings match the geometric definition for all shapes",
  "For every grid shape and neighbourhood, the regular grid graph (implicit, or explicit for symmetric neighbourhoods; 4/8/6/any mask adjacency) has exactly the edges "
  "between points whose difference is in the neighbourhood and which both lie in the domain, each once. Embeddings convert between linear "
  "and grid coordinates bijectively in row-major order, agree on which coordinates are inside, and refuse or flag those which are not.",
  ["inputs", "configurations"], "all shapes with up to 4 dimensions and small sides (sides of 1 included), all masks and neighbour lists, scalar and array arguments",
  "Tests use two or three rectangular shapes; degenerate sides, 1-d, 4-d and asymmetric masks are not covered.",
  ["include/higra/structure/embedding.hpp", "include/higra/structure/regular_graph.hpp", "include/higra/image/graph_image.hpp", "higra/image/graph_image.py", "higra/image/image_utils.py", "higra/structure/regular_graph.py", "higra/structure/embedding.py"],
  [("row-major strides", "embedding.hpp"), ("neighbour list filtering", "regular_graph.hpp")],
  ["hg.get_4_adjacency_graph", "hg.get_8_adjacency_graph", "hg.get_nd_regular_graph", "hg.mask_2_neighbours", "hg.EmbeddingGrid"])

p("C05", "The Fibonacci heap is a correct meldable priority queue under any history",
  "After any sequence of insertions, key decreases and increases, arbitrary removals, minimum extractions, merges, moves and clears, the "
  "heap reports the right size, its top is a minimal element, and draining it yields exactly the live elements in non-decreasing order.",
  ["histories"], "every operation sequence up to a depth over a small set of keys, handles and two heaps, plus long structured histories that force cascading cuts",
  "The tests run a handful of scripted sequences; cascading cuts and consolidation depend on the exact history.",
  ["include/higra/structure/fibonacci_heap.hpp"],
  [("lazy consolidation, marks and cascading cuts", "fibonacci_heap.hpp")],
  ["hg::fibonacci_heap"])

p("C06", "Tree accumulators and propagators compute exactly the defined recurrences",
  "For every tree, data array (scalar or vectorial, any numeric type) and accumulator (min, max, mean, counter, sum, prod, first, last, "
  "argmin, argmax), parallel and sequential accumulation, their combinations with an operator, and parallel, conditional and accumulating "
  "propagation return at each node the value of their recurrence on the parent relation.",
  ["inputs", "configurations"], "all trees up to a size, all small data arrays, all accumulators, operators and conditions, all numeric types",
  "Tests check one tree per function; nodes with one child, single node trees, ties, negative or vectorial data are not sampled.",
  ["include/higra/accumulator/accumulator.hpp", "include/higra/accumulator/tree_accumulator.hpp", "higra/accumulator/tree_accumulator.py", "higra/accumulator/py_tree_accumulators.cpp"],
  [("leaves to root and root to leaves scans", "tree_accumulator.hpp")],
  ["hg.accumulate_parallel", "hg.accumulate_sequential", "hg.accumulate_and_*_sequential", "hg.propagate_*"])

p("C07", "Graph, indexed and contour accumulation aggregate exactly the right elements",
  "Accumulating edge weights on vertices, vertex weights on neighbouring vertices, values by index, or the values of the regions of a hierarchy on the "
  "edges they separate aggregates, for every element and every accumulator, exactly the values of the incident edges, adjacent vertices, "
  "same-index elements or regions holding one end of the edge, each once, whatever the graph (self loops, parallel edges, isolated vertices).",
  ["inputs", "configurations"], "all small multigraphs, all small data arrays, all accumulators, scalar and vectorial",
  "Tests use a single grid graph and one accumulator per function.",
  ["include/higra/accumulator/graph_accumulator.hpp", "include/higra/accumulator/at_accumulator.hpp", "include/higra/accumulator/tree_contour_accumulator.hpp", "include/higra/accumulator/accumulator.hpp", "higra/accumulator/graph_accumulator.py", "higra/accumulator/at_accumulator.py", "higra/accumulator/tree_contour_accumulator.py"],
  [("accumulator protocol initialize/accumulate/finalize", "accumulator.hpp")],
  ["hg.accumulate_graph_edges", "hg.accumulate_graph_vertices", "hg.accumulate_at", "hg.accumulate_on_contours"])

p("C08", "Minimum spanning trees and canonical partition trees are exact for all graphs",
  "For every connected edge-weighted graph, the canonical binary partition tree has as its nodes of altitude at most t exactly the "
  "connected components of the edges of weight at most t, non-decreasing altitudes, and a minimum spanning tree made of one graph edge per internal node joining its two "
  "children at that altitude. The minimum spanning tree (or forest) itself has minimal weight and the returned edge map designates its edges; unconnected "
  "graphs are refused by the partition tree.",
  ["inputs"], "all multigraphs up to a size with all weight orders (ties included) and numeric types",
  "Tests check a few fixed graphs; ties, parallel edges, self loops and the maps back to the original graph need all small cases.",
  ["include/higra/hierarchy/hierarchy_core.hpp", "include/higra/algo/graph_core.hpp", "higra/hierarchy/hierarchy_core.py", "higra/algo/graph_core.py", "include/higra/structure/unionfind.hpp"],
  [("stable sort of the edges and union find", "hierarchy_core.hpp: bpt_canonical"), ("Kruskal", "graph_core.hpp: minimum_spanning_tree")],
  ["hg.bpt_canonical", "hg.minimum_spanning_tree"])

p("C09", "Quasi-flat zones, saliency maps and ultrametrics are equivalent encodings",
  "For every connected edge-weighted graph, the quasi-flat zone hierarchy has exactly the distinct connected components of the threshold sets as its nodes; "
  "the saliency of a hierarchy is on each edge the altitude of the lowest common ancestor of its ends; the saliency of the canonical or quasi-flat zone "
  "hierarchy is the largest ultrametric below the weights. Converting saliency to hierarchy and back is the identity in both directions (up to node order).",
  ["inputs"], "all graphs up to a size with all weight orders, all partition hierarchies up to a size",
  "The tests use one or two images and compare with stored results.",
  ["include/higra/hierarchy/hierarchy_core.hpp", "include/higra/algo/tree.hpp", "higra/algo/tree.py", "higra/hierarchy/hierarchy_core.py", "higra/algo/graph_core.py"],
  [("simplification of canonical trees", "hierarchy_core.hpp: quasi_flat_zone_hierarchy"), ("lca based saliency", "algo/tree.py: saliency")],
  ["hg.quasi_flat_zone_hierarchy", "hg.saliency", "hg.ultrametric_open", "hg.quasi_flat_zone_hierarchy"])

p("C10", "Tree restructuring preserves the hierarchy and reports exact node maps",
  "Removing nodes from a tree by any criterion keeps exactly the other nodes, links each to its closest kept ancestor and returns the matching node map, whether or not leaves may be removed; "
  "making a tree binary, sorting it by altitudes, extracting a sub-tree and factoring it by supervertices give hierarchies with the same regions as specified. "
  "Isomorphism tests are true exactly for trees with the same sets of regions.",
  ["inputs", "configurations"], "all trees up to a size, all removal criteria, all altitudes with ties, all supervertex labellings, all pairs of trees",
  "Tests check two or three trees with one criterion each.",
  ["include/higra/algo/tree.hpp", "higra/algo/tree.py", "include/higra/hierarchy/hierarchy_core.hpp", "higra/hierarchy/hierarchy_core.py", "higra/structure/tree_graph.py"],
  [("two pass renumbering", "hierarchy_core.hpp: simplify_tree"), ("supervertices", "algo/tree.hpp")],
  ["hg.simplify_tree", "hg.tree_2_binary_tree", "hg.sort_hierarchy_with_altitudes", "hg.supervertices_hierarchy", "hg.test_tree_isomorphism", "Tree.sub_tree", "hg.quasi_flat_zone_hierarchy"])

p("C11", "Agglomerative binary partition trees always merge a closest pair",
  "For every connected graph and every linkage (single, complete, average, exponential, Ward, custom), the binary partition tree is a complete binary merge sequence in which each "
  "merge joins two adjacent regions whose linkage value is minimal among all adjacent pairs at that step, the linkage being the one defined on the original edges, and "
  "the altitude of each new node is that value (made increasing where the linkage asks for it).",
  ["inputs", "configurations"], "all small graphs (parallel edges included) with all small weights, lengths and vertex values, all linkages",
  "Tests compare with stored trees on two graphs; update rules with several common neighbours and ties need all small cases.",
  ["include/higra/hierarchy/binary_partition_tree.hpp", "higra/hierarchy/binary_partition_tree.py", "higra/hierarchy/py_binary_partition_tree.cpp"],
  [("heap of region adjacencies with local updates", "binary_partition_tree.hpp")],
  ["hg.binary_partition_tree*"])

p("C12", "Component trees and trees of shapes are the trees of level set components",
  "For every vertex-weighted graph the max (min) tree has exactly one node per distinct connected component of the upper (lower) level sets, with the right altitude and leaves, and reconstructs the "
  "weights. For every 2-d or 3-d image, the tree of shapes has exactly the saturated components of the level sets as its nodes, reconstructs the image, and is "
  "invariant to contrast inversion.",
  ["inputs", "configurations"], "all small graphs and images with few grey levels, all padding, immersion and output size options, all numeric types",
  "Tests use a few images compared with stored results.",
  ["include/higra/hierarchy/component_tree.hpp", "include/higra/image/tree_of_shapes.hpp", "higra/hierarchy/component_tree.py", "higra/image/tree_of_shapes.py"],
  [("union find on sorted vertices", "component_tree.hpp"), ("propagation by hierarchical queue in the plain map", "tree_of_shapes.hpp")],
  ["hg.component_tree_min_tree", "hg.component_tree_max_tree", "hg.component_tree_tree_of_shapes_image2d", "hg.component_tree_tree_of_shapes_image3d"])

p("C13", "Watershed cuts and watershed hierarchies respect minima and saddles",
  "For every edge-weighted graph, the watershed labelling has one connected region per regional minimum and is reached by paths of steepest descent; seeded watershed keeps seeds and assigns every vertex to a seed by a minimum spanning "
  "forest. Watershed hierarchies by any attribute have the altitude of each merge equal to the smaller extinction value of the two merged basins, on a minimum spanning tree of the weights.",
  ["inputs", "configurations"], "all small graphs with all weight orders, all seed placements, all attributes",
  "Tests use one or two grids with stored results; plateaus and ties are where flooding goes wrong.",
  ["include/higra/algo/watershed.hpp", "include/higra/hierarchy/watershed_hierarchy.hpp", "higra/algo/watershed.py", "higra/hierarchy/watershed_hierarchy.py"],
  [("streams", "watershed.hpp: labelisation_watershed"), ("persistence on the canonical tree", "watershed_hierarchy.hpp")],
  ["hg.labelisation_watershed", "hg.labelisation_seeded_watershed", "hg.watershed_hierarchy_by_*"])

p("C14", "Labelisations, graph cuts and region adjacency graphs agree with each other",
  "Converting a graph cut to a labelling gives its connected components, converting a labelling to a cut marks exactly the edges between different labels, and the region adjacency graph of either has "
  "one vertex per connected region and one edge per pair of adjacent regions. Its vertex and edge maps, and the accumulation and back-projection of weights through them, are exact.",
  ["inputs"], "all small graphs, all labellings and all cuts, all accumulators, scalar and vectorial weights",
  "Tests use one grid with one labelling.",
  ["include/higra/algo/rag.hpp", "include/higra/algo/graph_core.hpp", "higra/algo/rag.py", "higra/algo/graph_core.py"],
  [("flood filling of regions", "rag.hpp"), ("connected components", "graph_core.hpp: graph_cut_2_labelisation")],
  ["hg.make_region_adjacency_graph_from_labelisation", "hg.make_region_adjacency_graph_from_graph_cut", "hg.labelisation_2_graph_cut", "hg.graph_cut_2_labelisation", "hg.rag_*"])

p("C15", "Horizontal cuts enumerate exactly the threshold partitions of a hierarchy",
  "For every hierarchy with increasing altitudes, the horizontal cuts are exactly its distinct threshold partitions, listed from coarsest to finest, and requests by index, altitude or number of regions "
  "return the corresponding one. The nodes, labelling, graph cut, reconstruction and threshold functions of a cut describe the same partition.",
  ["inputs", "configurations"], "all trees up to a size with all non-decreasing altitudes (ties included), every index, level and region count, both choices for unavailable counts",
  "Tests use two trees.",
  ["include/higra/algo/horizontal_cuts.hpp", "higra/algo/horizontal_cuts.py", "include/higra/algo/tree.hpp", "higra/algo/tree.py"],
  [("sorted altitudes scan", "horizontal_cuts.hpp")],
  ["hg.HorizontalCutExplorer", "hg.labelisation_horizontal_cut_from_threshold", "hg.labelisation_horizontal_cut_from_num_regions", "hg.labelisation_hierarchy_supervertices"])

p("C16", "Optimal energy cuts are globally optimal and follow the scale parameter",
  "For every tree and every pair of data fidelity and regularisation terms, the computed cut minimises the total energy over all cuts of the tree. For piecewise linear energies the hierarchy of "
  "optimal cuts has altitudes such that thresholding it at any scale gives an optimal cut for that scale.",
  ["inputs"], "all trees up to a size, all small energy values (ties included), all scales between breakpoints",
  "Tests use one tree with one energy; optimality is a statement over all cuts.",
  ["include/higra/algo/tree_energy_optimization.hpp", "higra/algo/tree_energy_optimization.py"],
  [("dynamic programming from leaves to root", "tree_energy_optimization.hpp")],
  ["hg.labelisation_optimal_cut_from_energy", "hg.hierarchy_to_optimal_energy_cut_hierarchy", "hg.binary_partition_tree_MumfordShah_energy"])

p("C17", "Monotonic regression returns increasing altitudes that meet their optimality",
  "For every tree, altitudes and positive weights, each regression mode returns altitudes that never decrease from a node to its parent; max and min modes are the smallest increasing majorant and the "
  "largest increasing minorant, and the least squares mode minimises the weighted squared error among increasing altitudes. Already increasing altitudes are unchanged.",
  ["inputs"], "all trees up to a size with all small altitudes and weights",
  "Tests use one tree and two altitudes.",
  ["include/higra/algo/tree_monotonic_regression.hpp", "higra/algo/tree_monotonic_regression.py"],
  [("pooling of adjacent violators on a tree", "tree_monotonic_regression.hpp")],
  ["hg.tree_monotonic_regression"])

p("C18", "Tree fusion and hierarchy alignment follow inclusion of regions",
  "The depth map of the fusion of several trees on the same leaves is, for each leaf, the length of the longest inclusion chain of regions of the trees above it. Aligning a hierarchy on a "
  "partition or finer hierarchy projects each contour to the best matching contour and returns saliencies defined on the target graph.",
  ["inputs"], "all tuples of small trees on the same leaves, all small images with coarse and fine partitions",
  "Tests use one pair of trees.",
  ["include/higra/algo/tree_fusion.hpp", "include/higra/algo/alignment.hpp", "higra/algo/tree_fusion.py", "higra/algo/alignment.py"],
  [("inclusion graph of the regions", "tree_fusion.hpp"), ("majority projection", "alignment.hpp")],
  ["hg.tree_fusion_depth_map", "hg.project_fine_to_coarse_labelisation", "hg.make_hierarchy_aligner_from_*"])

p("C19", "Bipartite tests are exact and bipartite matchings are optimal",
  "For every graph, the bipartite test answers true exactly when the graph has no odd cycle and then returns a proper two-colouring. For every bipartite weighted graph, the matching is a valid one of maximum "
  "cardinality and of minimal total weight among those.",
  ["inputs"], "all graphs up to a size (self loops, parallel edges, isolated vertices), all small weights of all numeric types, graph or edge list input",
  "Tests use a few graphs; optimality quantifies over all matchings.",
  ["include/higra/algo/bipartite_graph.hpp", "include/higra/algo/details/csa.hpp", "higra/algo/bipartite_graph.py"],
  [("union find of doubled vertices", "bipartite_graph.hpp"), ("cost scaling assignment", "details/csa.hpp")],
  ["hg.is_bipartite_graph", "hg.bipartite_graph_matching"])

p("C20", "Structural and altitude attributes of trees equal their definitions",
  "For every tree, altitudes and leaf data, node area, volume, depth, height, dynamics, extinction value, extrema, child number, sibling, smallest and lca based attributes, pair sums, topological height, "
  "children pair sum products, mean and Gaussian region models equal the value given by their definition on the sets of leaves and the altitudes.",
  ["inputs", "configurations"], "all trees up to a size with all monotone altitudes, increasing and decreasing, all numeric types",
  "Tests check one tree per attribute.",
  ["include/higra/attribute/tree_attribute.hpp", "higra/attribute/tree_attributes.py"],
  [("accumulations along the tree", "tree_attributes.py"), ("extinction by propagation", "tree_attribute.hpp")],
  ["hg.attribute_*"])

p("C21", "Region and contour attributes measure the regions of the hierarchy",
  "For every graph and hierarchy built on it, perimeter, contour length and strength, frontier length and strength, compactness, mean vertex weights, Gaussian region models, moments, vertex coordinates and perimeters "
  "equal the direct measure of the region of each node on the graph, for hierarchies on pixels or on region adjacency graphs.",
  ["inputs", "configurations"], "all small graphs and grids with all hierarchies from small weights, scalar and vectorial data, component and partition trees",
  "Tests use one image with one hierarchy.",
  ["higra/attribute/tree_attributes.py", "higra/attribute/graph_attributes.py", "include/higra/attribute/tree_attribute.hpp", "include/higra/accumulator/tree_contour_accumulator.hpp"],
  [("lca based counting of edges", "tree_attribute.hpp")],
  ["hg.attribute_perimeter_*", "hg.attribute_contour_*", "hg.attribute_frontier_*", "hg.attribute_compactness", "hg.attribute_*"])

p("C22", "Hierarchy quality measures equal their combinatorial definitions",
  "For every hierarchy and ground truth, dendrogram purity, Dasgupta cost and divisive cost, tree sampling divergence, partition scores (BCE, DHamming, DCovering...) and fragmentation curves equal their "
  "definition computed by brute force over pairs of leaves, regions or cuts.",
  ["inputs"], "all trees up to a size with all labellings and weights",
  "Tests compare with one stored number each.",
  ["include/higra/assessment/dendrogram_purity.hpp", "include/higra/assessment/partition.hpp", "include/higra/assessment/fragmentation_curve.hpp", "higra/assessment/hierarchical_cost.py", "higra/assessment/fragmentation_curve.py"],
  [("dynamic programming over cuts", "fragmentation_curve.hpp"), ("weighted histograms", "dendrogram_purity.hpp")],
  ["hg.dendrogram_purity", "hg.dasgupta_cost", "hg.tree_sampling_divergence", "hg.assess_partition", "hg.assess_fragmentation_*"])

p("C23", "Khalimsky contours and graph contours are lossless views of each other",
  "For every image shape and edge weights of the 4 adjacency graph, the map to the Khalimsky grid and back is the identity, with and without border, and 0-faces take the strongest adjacent edge. The 2-d contours extracted from a cut "
  "contain each cut edge exactly once, simplifying them by polyline subdivision only removes intermediate points, their elements are read by index within their bounds only, and "
  "pixel matching between contour images returns a valid one to one matching within the distance.",
  ["inputs", "configurations"], "all small shapes, all binary cuts and small weights, both border options",
  "Tests use one or two images.",
  ["include/higra/image/contour_2d.hpp", "include/higra/image/graph_image.hpp", "higra/image/contour_2d.py", "higra/image/graph_image.py"],
  [("contour following", "contour_2d.hpp"), ("Khalimsky mapping", "graph_image.hpp")],
  ["hg.graph_4_adjacency_2_khalimsky", "hg.khalimsky_2_graph_4_adjacency", "hg.fit_contour_2d"])

p("C24", "Saved trees, graphs and images read back identically or are refused",
  "A tree saved with any attributes, or a graph saved with vertex and edge values and shape, reads back as the same object with the same values. A file that stops at any byte, as an interrupted write leaves it, either reads back identically "
  "or is refused with an error; reading never hangs, crashes or returns other data.",
  ["crash_points", "inputs"], "every small tree and graph with small attribute sets of all types, every prefix of every such file",
  "Tests round trip one file each and never read a truncated one.",
  ["include/higra/io/tree_io.hpp", "include/higra/io/pink_graph_io.hpp", "include/higra/io/pnm_io.hpp", "higra/io_utils/tree_io.py", "higra/io_utils/pink_io.py"],
  [("text header then binary sections", "tree_io.hpp"), ("text sections", "pink_graph_io.hpp")],
  ["hg.save_tree", "hg.read_tree", "hg.save_graph_pink", "hg.read_graph_pink", "hg::save_image_pnm", "hg::read_image_pnm"])

p("C25", "Cached attributes are never stale and explicit attributes win",
  "A cached function called on an object returns what the uncached computation on the same arguments returns, for every history of calls, attribute settings, clears and deletions of other objects. Attributes set, read, "
  "listed and removed on an object behave as a map per object; attributes given explicitly take precedence over those found on the object; clearing removes exactly what was asked.",
  ["histories"], "all histories up to a depth of calls with different arguments, garbage collected arguments, renamed attributes, sets, clears",
  "Tests call each cached function once or twice with the same arguments.",
  ["higra/data_cache.py", "higra/concept.py", "higra/hg_utils.py"],
  [("key built from the arguments", "data_cache.py: auto_cache"), ("weak dictionary of caches", "data_cache.py: DataCache")],
  ["hg.auto_cache", "hg.set_attribute", "hg.get_attribute", "hg.clear_all_attributes", "hg.argument_helper"])

p("C26", "Sorting, conversions, sub-graphs and interoperability are exact",
  "Sorting functions are stable and correct in all modes; edge weighting functions give the defined value on each edge; conversions of graphs to adjacency matrices and back, sub-graphs, induced sub-graphs, line graphs, connected component and "
  "spanning utilities, linkage matrices, linear and grid layouts and type promotion neither lose, invent nor misplace edges, vertices or values.",
  ["inputs", "configurations"], "all small arrays, multigraphs, weight functions, trees and numeric types",
  "Tests use one example per function.",
  ["include/higra/sorting.hpp", "higra/sorting.py", "include/higra/algo/graph_weights.hpp", "higra/algo/graph_weights.py", "higra/algo/graph_core.py", "higra/interop/interop_scipy.py", "higra/hg_utils.py", "include/higra/algo/graph_core.hpp"],
  [("conversion loops", "graph_core.py, graph_core.hpp")],
  ["hg.sort", "hg.arg_sort", "hg.weight_graph", "hg.adjacency_matrix_2_undirected_graph", "hg.undirected_graph_2_adjacency_matrix", "hg.subgraph", "hg.line_graph", "hg.binary_hierarchy_to_scipy_linkage_matrix", "hg.linearize_vertex_weights", "hg.common_type"])

p("C27", "Hierarchical filters and constrained hierarchies keep exactly what they promise",
  "Filtering a hierarchy by size, frontier strength or any relevance criterion removes exactly the contours of the irrelevant merges and keeps the order of the others; marker-based binary labelling, leaf reconstruction and deletion follow their definition; "
  "the constrained connectivity hierarchies have as regions exactly the quasi-flat zones whose value range (and edge weights for strong connectivity) is smaller than the level of the next larger region, whatever the type of the values.",
  ["inputs", "configurations"], "all small graphs with all small weights and vertex values, all thresholds, all markers",
  "Tests use one example per filter.",
  ["higra/algo/tree.py", "higra/hierarchy/constrained_connectivity_hierarchy.py", "higra/hierarchy/hierarchy_core.py"],
  [("saliency, filter, quasi-flat zones", "algo/tree.py: filter_non_relevant_node_from_tree")],
  ["hg.filter_non_relevant_node_from_tree", "hg.filter_small_nodes_from_tree", "hg.filter_weak_frontier_nodes_from_tree", "hg.binary_labelisation_from_markers", "hg.reconstruct_leaf_data", "hg.constrained_connectivity_hierarchy_*"])

p("C28", "Results depend only on argument values, and arguments are never modified",
  "Calling any function leaves the arrays, graphs and trees it was given unchanged (except for cached attributes), calling it again gives the same result, and the result does not depend on "
  "whether an array argument is contiguous, strided, reversed or Fortran ordered, nor on which lossless numeric type carries its values (a type without overload may be refused, a memory layout may not).",
  ["configurations", "histories"], "every function of the public API table, every array argument, every memory layout and every lossless numeric type",
  "Tests pass C-contiguous arrays of one type and do not compare the arguments afterwards.",
  ["higra/py_common.hpp", "higra/hg_utils.py", "higra/algo/tree.py", "include/higra/structure/array.hpp"],
  [("numpy array adaptors", "py_common.hpp"), ("casts", "hg_utils.py: cast_to_common_type")],
  ["hg.*"])

p("C29", "Parallel execution gives the same result as sequential execution",
  "Where the library may use several threads (sorting and per-element loops when built with threading support), the result equals the sequential one for every schedule.",
  ["schedules"], "all interleavings of the worker threads",
  "Tests run on a build without threads.",
  ["include/higra/sorting.hpp", "CMakeLists.txt"],
  [("TBB parallel sort", "sorting.hpp")], [])

p("C30", "Values read from native objects stay valid when their owner is released",
  "Iterators, arrays, contour elements and derived objects obtained from a graph, tree, contour, hierarchy, cut explorer or assessment object keep giving the values they give while the object is alive after every reference to "
  "the object is dropped, at whatever point of the iteration, and results already obtained from a graph do not change when the graph is modified.",
  ["histories", "inputs"], "every accessor of every kind of object, every number of elements read before the release, every order of release, reuse of the memory and reading, every modification of graphs",
  "Tests keep all the objects alive until they return.",
  ["higra/structure/py_common_graph.hpp", "higra/structure/py_tree_graph.cpp", "higra/structure/py_undirected_graph.cpp", "higra/image/py_contour_2d.cpp", "higra/hierarchy/py_hierarchy_core.cpp"],
  [("keep alive policies of the bindings", "py_*.cpp")],
  ["hg.Tree", "hg.UndirectedGraph", "hg.Contour2d", "hg.HorizontalCutExplorer", "hg.AssesserFragmentationOptimalCut"])

p("C31", "Contour based hierarchies and image filters follow their definition",
  "For every gradient, orientation and image, the oriented watershed gives each frontier its mean gradient (reweighted by the concordance with the given orientations), the mean boundary hierarchies merge regions by increasing mean "
  "boundary value and combine scales by alignment, and the triangular filter and the gradient orientation equal the convolutions that define them.",
  ["inputs", "configurations"], "all small gradients on small grids, orientations, sets of scales and images",
  "Tests compare one image with a stored result.",
  ["higra/image/hierarchy_mean_pb.py", "include/higra/image/contour_2d.hpp", "higra/image/image_utils.py", "include/higra/image/hierarchy_mean_pb.hpp"],
  [("composition of watershed, contours and linkage", "hierarchy_mean_pb.hpp")],
  ["hg.oriented_watershed", "hg.mean_pb_hierarchy", "hg.multiscale_mean_pb_hierarchy", "hg.triangular_filter", "hg.gradient_orientation"])

p("C32", "Images and deduced information equal flat arrays and explicit arguments",
  "For every public function that takes vertex data, the data given as an image (shape of the grid) or as a flat array give the same result, and vertex results come back with the shape of the grid. Information deduced from the concepts "
  "of an object (leaf graph, shape, spanning tree, region adjacency graph) gives the same result as the same information given explicitly; results are linked to the leaf graph they were computed on, and a call whose information is missing is refused.",
  ["inputs", "configurations"], "all small images and the graphs and trees built on them, every combination of flat and image shaped data, deduced and explicit information, with and without a grid",
  "Tests call each function in one way on one input.",
  ["higra/concept.py", "higra/hg_utils.py", "higra/data_cache.py", "higra/algo/tree.py", "higra/attribute/tree_attributes.py", "higra/hierarchy"],
  [("linearize_vertex_weights / delinearize_vertex_weights", "hg_utils.py"), ("argument helpers deducing missing arguments from concepts", "data_cache.py, concept.py")],
  ["hg.linearize_vertex_weights", "hg.delinearize_vertex_weights", "hg.argument_helper", "hg.CptHierarchy", "hg.CptGridGraph"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
