"""C32: A table of the public functions that take or return vertex data, or that deduce information from the concepts of their arguments, on enumerated
images, graphs and trees: flat and image shaped data, deduced and explicit information, with and without a grid, all the combinations agree."""
import itertools
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, ints, edges_of

ID = "C32"
ASSUMPTIONS = ["Shapes with as many vertices as their first axis (n x 1 images) are excluded for vector data: the function linearising images documents that it recognises shapes by their leading dimensions.",
               "Edge weights are integers of at most 9: nothing depends on rounding."]
ADJ = {4: hg.get_4_adjacency_graph, 8: hg.get_8_adjacency_graph}


class World:
    """The data of one image; mode: flat, image (vertex data given as images), explicit (trees without concept, leaf graph given), plain (no grid), shape (no grid, shape given)."""

    def __init__(self, h, w, adj, img, mode):
        self.h, self.w, self.mode, self.shape = h, w, mode, (h, w)
        self.n = n = h * w
        grid = ADJ[adj]((h, w))
        self.grid = grid
        if mode == "plain":
            self.g = mk_graph(n, edges_of(grid))
            hg.set_attribute(self.g, "no_border_vertex_out_degree", adj)
        elif mode == "shape":
            self.g = mk_graph(n, edges_of(grid))
        else:
            self.g = grid
        g = self.g
        E = edges_of(grid)
        I = np.array(img, dtype="float64")
        k = sum(img)
        self.data = {
            "img": I, "int": I.astype("int64"), "rgb": np.stack((I, 2 - I, (I * 2 + np.arange(n)) % 3), 1),
            "area": 1.0 + (np.arange(n) + k) % 3, "per": 4.0 + np.arange(n) % 2, "labels": ((np.arange(n) * 2 + k) % 3).astype("int64"),
            "seeds": np.where(np.arange(n) % max(2, n - 1) == k % 2, 1 + np.arange(n), 0).astype("int64"),
            "m1": (np.arange(n) == k % n).astype("uint8"), "m2": (np.arange(n) == (k + 1) % n).astype("uint8")}
        self.data["sq"] = I * I + 1
        self.e = np.array([abs(img[a] - img[b]) * 2 + (a + b) % 2 for a, b in E], dtype="float64")
        self.cut = np.array([(img[a] != img[b]) for a, b in E], dtype="uint8")
        self.len = np.array([1.0 + (i + k) % 2 for i in range(len(E))])
        self.k = {"leaf_graph": g} if mode == "explicit" else {}
        self.s = {"shape": (h, w) if k % 2 else np.array([h, w])} if mode == "shape" else {}

    def v(self, name):
        a = self.data[name].copy()
        return a.reshape(self.shape + a.shape[1:]) if self.mode == "image" else a

    def tree(self, kind):
        """A tree on the pixels and its altitudes: computed on the same graph in every mode."""
        g = self.grid
        if kind == "min":
            t, a = hg.component_tree_min_tree(g, self.data["img"])
        elif kind == "max":
            t, a = hg.component_tree_max_tree(g, self.data["img"])
        elif kind == "bpt":
            t, a = hg.bpt_canonical(g, self.e)
        else:
            t, a = hg.quasi_flat_zone_hierarchy(g, self.e)
        u = hg.Tree(t.parents().copy(), t.category())
        if self.mode != "explicit":
            hg.CptHierarchy.link(u, self.g)
        return u, np.array(a)


def T(tree):
    return ("tree", tree)


def V(a):
    return ("vertex", a)


def rag(W):
    return hg.make_region_adjacency_graph_from_labelisation(W.g, W.v("labels"))


def tr(kind, f):
    return lambda W: f(W, *W.tree(kind))


def cutter(f):
    def run(W, t, a):
        c = hg.HorizontalCutExplorer(t, a)
        out = []
        for i in range(c.num_cuts()):
            out.append(f(W, t, a, c.horizontal_cut_from_index(i)))
        return [y for x in out for y in (x if isinstance(x, list) else [x])]
    return run


def detail(r):
    d = hg.CptRegionAdjacencyGraph.construct(r)
    return [np.asarray(d["vertex_map"]), np.asarray(d["edge_map"])]


A = hg.Accumulators
FUNCS = {
    "component_tree_min_tree": lambda W: (lambda r: [T(r[0]), r[1]])(hg.component_tree_min_tree(W.g, W.v("img"))),
    "component_tree_max_tree": lambda W: (lambda r: [T(r[0]), r[1]])(hg.component_tree_max_tree(W.g, W.v("int"))),
    "bpt_canonical": lambda W: (lambda r: [T(r[0]), r[1], hg.CptBinaryHierarchy.get_mst_edge_map(r[0]), hg.CptBinaryHierarchy.get_mst(r[0]).edge_list()])(hg.bpt_canonical(W.g, W.e)),
    "quasi_flat_zone_hierarchy": lambda W: (lambda r: [T(r[0]), r[1]])(hg.quasi_flat_zone_hierarchy(W.g, W.e)),
    "constrained_connectivity_alpha_omega": lambda W: (lambda r: [T(r[0]), r[1]])(hg.constrained_connectivity_hierarchy_alpha_omega(W.g, W.v("img"))),
    "constrained_connectivity_strong": lambda W: (lambda r: [T(r[0]), r[1]])(hg.constrained_connectivity_hierarchy_strong_connection(W.g, W.e)),
    "watershed_by_area": lambda W: (lambda r: [T(r[0]), r[1]])(hg.watershed_hierarchy_by_area(W.g, W.e, W.v("area"))),
    "watershed_by_volume": lambda W: (lambda r: [T(r[0]), r[1]])(hg.watershed_hierarchy_by_volume(W.g, W.e, W.v("area"))),
    "watershed_by_dynamics": lambda W: (lambda r: [T(r[0]), r[1]])(hg.watershed_hierarchy_by_dynamics(W.g, W.e)),
    "watershed_by_parents": lambda W: (lambda r: [T(r[0]), r[1]])(hg.watershed_hierarchy_by_number_of_parents(W.g, W.e)),
    "binary_partition_tree_complete_linkage": lambda W: (lambda r: [T(r[0]), r[1]])(hg.binary_partition_tree_complete_linkage(W.g, W.e)),
    "binary_partition_tree_average_linkage": lambda W: (lambda r: [T(r[0]), r[1]])(hg.binary_partition_tree_average_linkage(W.g, W.e)),
    "binary_partition_tree_MumfordShah": lambda W: (lambda r: [T(r[0]), r[1]])(hg.binary_partition_tree_MumfordShah_energy(W.g, W.v("img"), W.v("area"), W.v("per") + 1, W.len, W.v("sq"))),
    "binary_partition_tree_MumfordShah rgb": lambda W: (lambda r: [T(r[0]), r[1]])(hg.binary_partition_tree_MumfordShah_energy(W.g, W.v("rgb"))),
    "labelisation_seeded_watershed": lambda W: V(hg.labelisation_seeded_watershed(W.g, W.e, W.v("seeds"))),
    "labelisation_watershed": lambda W: V(hg.labelisation_watershed(W.g, W.e)),
    "weight_graph": lambda W: hg.weight_graph(W.g, W.v("img"), hg.WeightFunction.L1),
    "weight_graph rgb": lambda W: hg.weight_graph(W.g, W.v("rgb"), hg.WeightFunction.L2_squared),
    "graph_cut_2_labelisation": lambda W: V(hg.graph_cut_2_labelisation(W.g, W.cut)),
    "labelisation_2_graph_cut": lambda W: hg.labelisation_2_graph_cut(W.g, W.v("labels")),
    "rag from labelisation": lambda W: detail(rag(W)),
    "rag from cut": lambda W: detail(hg.make_region_adjacency_graph_from_graph_cut(W.g, W.cut)),
    "rag_accumulate_on_vertices": lambda W: hg.rag_accumulate_on_vertices(rag(W), A.sum, W.v("rgb")),
    "rag_accumulate_on_edges": lambda W: hg.rag_accumulate_on_edges(rag(W), A.max, W.e),
    "rag_back_project_vertex_weights": lambda W: V(hg.rag_back_project_vertex_weights(rag(W), np.arange(rag(W).num_vertices()) * 2 + 1)),
    "rag_back_project_edge_weights": lambda W: hg.rag_back_project_edge_weights(rag(W), np.arange(rag(W).num_edges()) + 1),
    "rag tree": lambda W: (lambda r: [np.ravel(hg.labelisation_hierarchy_supervertices(r[0], r[1])), hg.saliency(r[0], r[1])])(hg.bpt_canonical(rag(W), np.arange(rag(W).num_edges()) + 1.0)),
    "attribute_vertex_area": lambda W: np.ravel(hg.attribute_vertex_area(W.g)),
    "attribute_vertex_perimeter": lambda W: np.ravel(hg.attribute_vertex_perimeter(W.g, W.len)),
    "khalimsky": lambda W: hg.graph_4_adjacency_2_khalimsky(W.g, W.e, **W.s),
    "attribute_vertex_coordinates": lambda W: np.reshape(hg.attribute_vertex_coordinates(W.g, **W.s), (W.n, 2)),
    "oriented_watershed": lambda W: (lambda r: detail(r[0]) + [r[1]])(hg.oriented_watershed(W.g, W.e, **W.s)),
    "oriented_watershed with orientations": lambda W: (lambda r: detail(r[0]) + [r[1]])(hg.oriented_watershed(W.g, W.e, edge_orientations=np.ones(len(W.e), dtype="float32"), **W.s)),
    "mean_pb_hierarchy": lambda W: (lambda r: detail(r[0]) + [r[1].parents(), r[2]])(hg.mean_pb_hierarchy(W.g, W.e, **W.s)),
    "linearize": lambda W: [hg.linearize_vertex_weights(W.v("rgb"), W.g), hg.linearize_vertex_weights(W.v("img"), W.g)],
    "delinearize": lambda W: [V(hg.delinearize_vertex_weights(W.data["img"], W.g)), V(hg.delinearize_vertex_weights(W.data["rgb"], W.g))],
    "minimum_spanning_tree": lambda W: (lambda r: [r.edge_list(), hg.CptMinimumSpanningTree.get_edge_map(r)])(hg.minimum_spanning_tree(W.g, W.e)),
}
TREE = {
    "attribute_area": lambda W, t, a: hg.attribute_area(t, **W.k),
    "attribute_area of vertices": lambda W, t, a: hg.attribute_area(t, W.v("area"), **W.k),
    "attribute_volume": lambda W, t, a: hg.attribute_volume(t, a, hg.attribute_area(t, **W.k)),
    "attribute_lca_map": lambda W, t, a: hg.attribute_lca_map(t, **W.k),
    "attribute_frontier_length": lambda W, t, a: [hg.attribute_frontier_length(t, **W.k), hg.attribute_frontier_length(t, W.len, **W.k)],
    "attribute_frontier_strength": lambda W, t, a: hg.attribute_frontier_strength(t, W.e, **W.k),
    "attribute_contour_length": lambda W, t, a: [hg.attribute_contour_length(t, **W.k), hg.attribute_contour_length(t, W.v("per"), W.len, **W.k)],
    "attribute_contour_strength": lambda W, t, a: [hg.attribute_contour_strength(t, W.e, W.v("per"), W.len, **W.k)],
    "attribute_compactness": lambda W, t, a: [hg.attribute_compactness(t, contour_length=np.arange(len(a)) + 1.0, **W.k)],
    "attribute_mean_vertex_weights": lambda W, t, a: [hg.attribute_mean_vertex_weights(t, W.v("rgb"), **W.k), hg.attribute_mean_vertex_weights(t, W.v("img"), np.arange(len(a)) + 2, **W.k)],
    "attribute_gaussian_region_weights_model": lambda W, t, a: list(hg.attribute_gaussian_region_weights_model(t, W.v("rgb"), **W.k)) + list(hg.attribute_gaussian_region_weights_model(t, W.v("img"), **W.k)),
    "attribute_moment_of_inertia": lambda W, t, a: hg.attribute_moment_of_inertia(t, **W.k),
    "attribute_depth": lambda W, t, a: hg.attribute_depth(t),
    "accumulate_on_contours": lambda W, t, a: hg.accumulate_on_contours(t, a, A.max, **W.k),
    "accumulate_sequential": lambda W, t, a: [hg.accumulate_sequential(t, W.v("rgb"), A.sum, **W.k), hg.accumulate_sequential(t, W.v("img"), A.max, **W.k)],
    "accumulate_and_add_sequential": lambda W, t, a: hg.accumulate_and_add_sequential(t, a, W.v("img"), A.sum, **W.k),
    "accumulate_and_multiply_sequential": lambda W, t, a: hg.accumulate_and_multiply_sequential(t, a, W.v("img"), A.sum, **W.k),
    "accumulate_and_min_sequential": lambda W, t, a: hg.accumulate_and_min_sequential(t, a, W.v("img"), A.sum, **W.k),
    "accumulate_and_max_sequential": lambda W, t, a: hg.accumulate_and_max_sequential(t, a, W.v("int"), A.sum, **W.k),
    "binary_labelisation_from_markers": lambda W, t, a: V(hg.binary_labelisation_from_markers(t, W.v("m1"), W.v("m2"), **W.k)),
    "reconstruct_leaf_data": lambda W, t, a: [V(hg.reconstruct_leaf_data(t, a, **W.k)), V(hg.reconstruct_leaf_data(t, np.stack((a, a + np.arange(len(a))), 1), **W.k)),
                                             V(hg.reconstruct_leaf_data(t, np.arange(len(a)), np.arange(len(a)) % 2 == 0, **W.k))],
    "labelisation_horizontal_cut_from_threshold": lambda W, t, a: [V(hg.labelisation_horizontal_cut_from_threshold(t, a, x, **W.k)) for x in (0, 1, 2)],
    "labelisation_horizontal_cut_from_num_regions": lambda W, t, a: [V(hg.labelisation_horizontal_cut_from_num_regions(t, a, x, m, **W.k)) for x in (1, 2) for m in ("at_least", "at_most")],
    "labelisation_hierarchy_supervertices": lambda W, t, a: [V(hg.labelisation_hierarchy_supervertices(t, a, **W.k)), V(hg.labelisation_hierarchy_supervertices(t, a, handle_rag=False, **W.k))],
    "labelisation_optimal_cut_from_energy": lambda W, t, a: V(hg.labelisation_optimal_cut_from_energy(t, (np.arange(len(a)) * 7 % 5).astype("float64"), **W.k)),
    "saliency": lambda W, t, a: hg.saliency(t, a, **W.k),
    "filter_non_relevant_node_from_tree": lambda W, t, a: (lambda r: [T(r[0]), r[1]])(hg.filter_non_relevant_node_from_tree(t, a, lambda tree, alt: np.arange(len(alt)) % 2 == 0, **W.k)),
    "filter_small_nodes_from_tree": lambda W, t, a: (lambda r: [T(r[0]), r[1]])(hg.filter_small_nodes_from_tree(t, a, 2, **W.k)),
    "filter_weak_frontier_nodes_from_tree": lambda W, t, a: (lambda r: [T(r[0]), r[1]])(hg.filter_weak_frontier_nodes_from_tree(t, a, W.e, 2, **W.k)),
    "dasgupta_cost": lambda W, t, a: hg.dasgupta_cost(t, W.e, mode="similarity", **W.k),
    "dendrogram_purity": lambda W, t, a: hg.dendrogram_purity(t, W.data["labels"]),
    "tree_sampling_divergence": lambda W, t, a: hg.tree_sampling_divergence(t, W.e + 1, **W.k),
    "assess_fragmentation_optimal_cut": lambda W, t, a: (lambda r: [r.num_regions(), r.scores(), r.num_regions_ground_truth()])(hg.assess_fragmentation_optimal_cut(t, W.data["labels"], hg.OptimalCutMeasure.BCE)),
    "assess_fragmentation_horizontal_cut": lambda W, t, a: (lambda r: [r.num_regions(), r.scores(), r.num_regions_ground_truth()])(hg.assess_fragmentation_horizontal_cut(t, a, W.data["labels"], hg.PartitionMeasure.BCE)),
    "hierarchy_to_optimal_MumfordShah": lambda W, t, a: (lambda r: [T(r[0]), r[1]])(hg.hierarchy_to_optimal_MumfordShah_energy_cut_hierarchy(t, W.v("img"), **W.k)),
    "attribute_piecewise_constant_Mumford_Shah_energy": lambda W, t, a: [hg.attribute_piecewise_constant_Mumford_Shah_energy(t, W.v("img"), 2, **W.k), hg.attribute_piecewise_constant_Mumford_Shah_energy(t, W.v("rgb"), 0.5, **W.k)],
    "cut.labelisation_leaves": lambda W, t, a: cutter(lambda W, t, a, c: V(c.labelisation_leaves(t, **W.k)))(W, t, a),
    "cut.graph_cut": lambda W, t, a: cutter(lambda W, t, a, c: c.graph_cut(t, **W.k))(W, t, a),
    "cut.reconstruct_leaf_data": lambda W, t, a: cutter(lambda W, t, a, c: V(c.reconstruct_leaf_data(t, np.arange(len(a)), **W.k)))(W, t, a),
    "simplify_tree": lambda W, t, a: (lambda r: [T(r[0]), r[1]])(hg.simplify_tree(t, np.arange(len(a)) % 2 == 0)),
    "sub_tree": lambda W, t, a: (lambda r: [r.tree().parents(), r.node_map()] if hasattr(r, "tree") else [r[0].parents(), r[1]])(t.sub_tree(t.root())),
    "tree_fusion_depth_map": lambda W, t, a: np.ravel(hg.tree_fusion_depth_map([t, t])),
    "align_hierarchies": lambda W, t, a: hg.align_hierarchies(W.g, W.data["labels"], (t, a)),
}
GRIDONLY = ("khalimsky", "attribute_vertex_coordinates", "oriented_watershed", "oriented_watershed with orientations", "mean_pb_hierarchy", "attribute_moment_of_inertia")
FOUR = ("khalimsky", "oriented_watershed", "oriented_watershed with orientations", "mean_pb_hierarchy")
INCREASING = ("saliency", "labelisation_hierarchy_supervertices", "binary_labelisation_from_markers")
NEEDS_LINK = ("assess_fragmentation_optimal_cut", "assess_fragmentation_horizontal_cut")


def flatten(ctx, W, r, what):
    """The result as nested lists, vertex data flat; checks the shapes and the links."""
    if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str):
        kind, x = r
        if kind == "tree":
            if W.mode != "explicit":
                ctx.ok(hg.CptHierarchy.validate(x) and hg.CptHierarchy.get_leaf_graph(x) is W.g, what + " the result is not linked to its leaf graph")
            return ("tree", ints(x.parents()), str(x.category()))
        x = np.asarray(x)
        lead = (W.n,) if W.mode == "plain" else W.shape
        ctx.eq(x.shape[:len(lead)], lead, what + " shape of the result %r" % (x.shape,))
        return ("vertex", x.reshape((W.n,) + x.shape[len(lead):]).tolist())
    if isinstance(r, (list, tuple)):
        return [flatten(ctx, W, x, what) for x in r]
    return np.asarray(r).tolist()


def call(ctx, W, name, f, what):
    ctx.op()
    try:
        return flatten(ctx, W, f(W), what)
    except Violation:
        raise
    except Exception as e:
        return "refused", type(e).__name__


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return not isinstance(a, (list, tuple, str)) and not isinstance(b, (list, tuple, str)) and (a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)))
    return a == b


def run(case, ctx):
    h, w, adj, img = case[0], case[1], case[2], tuple(case[3])
    ctx.state((h, w, adj, img))
    table = [(n, f, None) for n, f in FUNCS.items()] + [("%s of a %s tree" % (n, k), tr(k, f), k) for k in ("min", "max", "bpt", "qfz") for n, f in TREE.items()]
    for name, f, kind in table:
        base = name.split(" of a ")[0] if kind else name
        if base in FOUR and adj != 4:
            continue
        if kind == "max" and base in INCREASING:
            continue
        if kind and base.startswith(("cut.", "labelisation_horizontal")) and kind == "max":
            continue
        what = "%s of the %dx%d image %r, %d adjacency," % (name, h, w, img, adj)
        ref = call(ctx, World(h, w, adj, img, "flat"), name, f, what)
        if isinstance(ref, tuple) and ref[0] == "refused":
            ctx.outcome(("refused", name))
            if case[4] == "strict":
                raise Violation(what + " raises " + ref[1])
            continue
        for mode in ("image", "explicit", "plain", "shape"):
            if mode == "plain" and base in GRIDONLY or mode == "shape" and base not in GRIDONLY[:-1] or mode == "explicit" and base in NEEDS_LINK:
                continue
            got = call(ctx, World(h, w, adj, img, mode), name, f, what + " %s:" % mode)
            ctx.compared += 1
            if not close(got, ref):
                raise Violation("%s %s arguments: got %r, expected %r" % (what, mode, got, ref))
        ctx.outcome(name)


def concepts(case, ctx):
    """Objects and their concepts: what is linked is what is found, deduced or refused."""
    h, w, img, mst = case
    g = hg.get_4_adjacency_graph((h, w))
    E = edges_of(g)
    e = np.array([abs(img[a] - img[b]) for a, b in E], dtype="float64")
    ctx.state((h, w, tuple(img), mst))
    what = "%dx%d image %r:" % (h, w, tuple(img))
    t, a = hg.bpt_canonical(g, e, compute_mst=mst)
    ctx.op(3)
    B = hg.CptBinaryHierarchy
    ctx.ok(hg.CptHierarchy.validate(t) and hg.CptHierarchy.get_leaf_graph(t) is g and t.leaf_graph is g, what + " leaf graph of the canonical tree")
    m = B.get_mst_edge_map(t)
    M = B.get_mst(t)
    ctx.eq([edges_of(M)[i] for i in range(M.num_edges())], [E[i] for i in ints(m)], what + " spanning tree of the hierarchy, computed early: %r" % mst)
    ctx.eq(M.num_vertices(), h * w, what + " vertices of the spanning tree")
    ctx.ok(B.get_mst(t) is M, what + " spanning tree asked twice")
    ctx.ok(t.mst is M, what + " attribute mst of the tree")
    ctx.ok(B.validate(t), what + " binary hierarchy")
    d = B.construct(t)
    ctx.ok(d["tree"] is t and d["leaf_graph"] is g and d["mst"] is M, what + " elements of the binary hierarchy")
    ctx.eq(ints(d["mst_edge_map"]), ints(m), what + " edge map of the binary hierarchy")
    ctx.ok(hg.CptMinimumSpanningTree.validate(M) and hg.CptMinimumSpanningTree.get_base_graph(M) is g, what + " base graph of the spanning tree")
    ctx.eq(ints(hg.CptMinimumSpanningTree.get_edge_map(M)), ints(m), what + " edge map of the spanning tree")
    u = hg.Tree(t.parents())
    ctx.ok(not hg.CptHierarchy.validate(u) and not B.validate(u) and hg.CptHierarchy.get_leaf_graph(u) is None, what + " a new tree has no leaf graph")
    for f in (lambda: hg.CptHierarchy.construct(u, strict=True), lambda: hg.attribute_lca_map(u), lambda: hg.saliency(u, a)):
        ctx.raises(f, what + " information which cannot be deduced")
    ctx.eq(hg.CptGridGraph.get_shape(g), (h, w), what + " shape of the grid")
    b, nm = hg.tree_2_binary_tree(t) if h * w > 1 else (t, None)
    ctx.ok(hg.CptHierarchy.get_leaf_graph(b) is g, what + " leaf graph of the binary tree")
    if h * w > 1:
        b, nm = hg.tree_2_binary_tree(u)
        ctx.ok(not hg.CptHierarchy.validate(b), what + " binary tree of a tree without leaf graph")
    r = hg.make_region_adjacency_graph_from_labelisation(g, np.array(img))
    d = hg.CptRegionAdjacencyGraph.construct(r)
    ctx.ok(hg.CptRegionAdjacencyGraph.validate(r) and hg.CptRegionAdjacencyGraph.get_pre_graph(r) is g and d["pre_graph"] is g and d["rag"] is r, what + " elements of the region adjacency graph")
    ctx.eq(ints(hg.CptRegionAdjacencyGraph.get_vertex_map(r)), ints(d["vertex_map"]), what + " vertex map")
    ctx.eq(ints(hg.CptRegionAdjacencyGraph.get_edge_map(r)), ints(d["edge_map"]), what + " edge map")
    q, qa = hg.bpt_canonical(r, np.arange(r.num_edges(), dtype="float64") + 1)
    lab = hg.labelisation_hierarchy_supervertices(q, qa)
    ctx.eq(np.asarray(lab).shape, (h, w), what + " supervertices of a tree on a region adjacency graph: shape") if np.asarray(lab).ndim == 2 else ctx.eq(ints(np.ravel(lab)), ints(d["vertex_map"]), what + " supervertices")
    for sh in ((h, w), [h, w], np.array([h, w]), hg.EmbeddingGrid2d((h, w))):
        k = hg.get_4_adjacency_graph(sh) if not isinstance(sh, hg.EmbeddingGrid2d) else hg.get_4_adjacency_graph(sh.shape())
        ctx.eq((edges_of(k), tuple(hg.CptGridGraph.get_shape(k))), (E, (h, w)), what + " graph of the shape %s" % type(sh).__name__)
        i = hg.get_4_adjacency_implicit_graph(sh) if not isinstance(sh, hg.EmbeddingGrid2d) else hg.RegularGraph2d(sh, ((-1, 0), (0, -1), (0, 1), (1, 0)))
        ctx.eq(tuple(hg.CptGridGraph.get_shape(i)), (h, w), what + " implicit graph of the shape %s" % type(sh).__name__)
        x = i.as_explicit_graph()
        ctx.eq((sorted(map(tuple, map(sorted, edges_of(x)))), tuple(hg.CptGridGraph.get_shape(x))), (sorted(map(tuple, map(sorted, E))), (h, w)), what + " explicit version of the implicit graph")
        if not isinstance(sh, hg.EmbeddingGrid2d):
            ctx.eq(hg.graph_4_adjacency_2_khalimsky(g, e, shape=sh), hg.graph_4_adjacency_2_khalimsky(g, e), what + " Khalimsky grid, shape given as %s" % type(sh).__name__)


def groups(tier):
    deep = tier != "quick"

    def ws():
        for h, w in ((1, 2), (2, 2), (1, 3), (3, 2), (2, 3), (1, 4)):
            for k, img in enumerate(itertools.product((0, 1, 2), repeat=h * w)):
                for adj in (4, 8):
                    if h * w < 4 or deep or k % (5 if h * w == 4 else 53) == adj // 4:
                        yield [h, w, adj, img, ""]
        for k, img in enumerate(itertools.product((0, 1, 2), repeat=9)):
            if k % (97 if deep else 1999) == 7:
                yield [3, 3, 4 + 4 * (k % 2), img, ""]

    def cs():
        for h, w in ((1, 2), (2, 2), (1, 3), (3, 2), (2, 3)):
            for k, img in enumerate(itertools.product((0, 1, 2), repeat=h * w)):
                if h * w < 5 or deep or k % 17 == 0:
                    for mst in (True, False):
                        yield [h, w, img, mst]
    return [Group("modes", ws, run, "%d functions, and %d functions of 4 trees, on all images of at most 3 pixels of 3 values and a fixed stride of larger ones, 4 and 8 adjacency; flat, image shaped, explicit, without grid"
                  % (len(FUNCS), len(TREE)), limit=120),
            Group("concepts", cs, concepts, "all images of at most 4 pixels of 3 values, 2x3 and 3x2 with a fixed stride, spanning trees computed early or on demand")]
