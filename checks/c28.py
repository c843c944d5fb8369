"""C28: For every function of a table of the public API taking arrays, every array argument, every memory layout and every numeric type which holds the values exactly, on enumerated graphs, trees
and weights: the result is that of the contiguous double or 64 bits array, a second call gives it again and no argument is modified."""
import contextlib
import io
import itertools
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints, edges_of

ID = "C28"
ASSUMPTIONS = ["A type for which a function has no overload may be refused with an exception, but never gives another result; a memory layout is never refused.",
               "The output type may depend on the type of the arguments, its values may not (up to single precision rounding)."]
INT = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
NUM = ("bool",) + INT + ("float16", "float32", "float64")


def variants(a, kinds):
    """(name, base, array): the values of a in other types and layouts; base owns the memory."""
    types = [a.dtype.name]
    if kinds in "niqw":
        types += [t for t in {"n": NUM, "i": INT + ("bool",), "q": NUM[1:], "w": ("int32", "uint32", "int64", "uint64", "float32")}[kinds] if t != a.dtype.name and np.array_equal(a.astype(t).astype(a.dtype), a)]
    elif kinds == "f":
        types += [t for t in ("float32",) if np.array_equal(a.astype(t).astype(a.dtype), a)]
    for t in types:
        c = np.ascontiguousarray(a.astype(t))
        yield t, c, c
        if t in ("float64", "int64", "int32", "uint8", "bool", "float32"):
            for name, base, v in layouts(c):
                yield "%s, %s" % (t, name), base, v


def layouts(a):
    fill = a.dtype.type(1)

    def put(base, view):
        view[...] = a
        return base, view
    n = a.ndim
    big = tuple(2 * s + 3 for s in a.shape)
    base = np.full(big, fill, dtype=a.dtype)
    yield ("strided",) + put(base, base[tuple(slice(1, 1 + 2 * s, 2) for s in a.shape)])
    base = np.full(big, fill, dtype=a.dtype)
    yield ("reversed",) + put(base, base[tuple(slice(s - 1, None, -1) if s else slice(0, 0) for s in a.shape)])
    if n > 1:
        base = np.full(a.shape[::-1], fill, dtype=a.dtype)
        yield ("transposed",) + put(base, base.T)
        base = np.full(a.shape[:-1] + (a.shape[-1] + 2,), fill, dtype=a.dtype)
        yield ("columns",) + put(base, base[..., 1:-1])
    else:
        base = np.full(a.shape + (3,), fill, dtype=a.dtype)
        yield ("column",) + put(base, base[:, 1])
    base = a.copy()
    base.flags.writeable = False
    yield "read only", base, base
    sw = a.astype(a.dtype.newbyteorder(">"))
    if a.dtype.itemsize > 1:
        yield "big endian", sw, sw
    off = np.zeros(a.nbytes + 1, dtype=np.uint8)
    view = off[1:].view(a.dtype).reshape(a.shape) if a.size else a.copy()
    if a.size:
        yield ("unaligned",) + put(off, view)
    if a.size and np.all(a == a.flat[0]):
        one = np.array([a.flat[0]], dtype=a.dtype)
        b = np.broadcast_to(one.reshape((1,) * n), a.shape)
        yield "broadcast", one, b


def norm(x):
    if isinstance(x, hg.Tree):
        return ["tree", ints(x.parents()), str(x.category())]
    if isinstance(x, (hg.UndirectedGraph, hg.UndirectedGraphOptimizedDelete)) or hasattr(x, "edge_list"):
        return ["graph", x.num_vertices(), [list(e) for e in edges_of(x)]]
    if isinstance(x, np.ndarray):
        return ["array", list(x.shape), [float(y) for y in x.ravel()]]
    if isinstance(x, (tuple, list)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return [[str(k), norm(x[k])] for k in sorted(x)]
    if hasattr(x, "todense"):
        return norm(np.asarray(x.todense()))
    if isinstance(x, (bool, int, float, np.generic)):
        return float(x)
    return str(x) if x is not None else None


def shapes(r):
    """A component tree up to the order of its nodes."""
    t, alt = r
    R = gen.leaf_sets(ints(t.parents()))
    return sorted([float(alt[i])] + sorted(R[i]) for i in range(t.num_leaves(), len(R)))


def equal(a, b, tol=1e-5):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a) + abs(b) < float('inf') and abs(a - b) <= tol * max(1, abs(a), abs(b))
    return type(a) is type(b) and a == b


class World:
    """The objects and arrays of one input."""

    def __init__(self, c):
        self.c = c
        self.edges = [(0, 1), (0, 2), (1, 3), (2, 3), (1, 2)]
        self.w = np.array(c, dtype=np.float64)
        self.g = mk_graph(4, self.edges)
        self.v = np.array([c[0], c[1] + 1, c[2] + 3, (c[3] + c[4]) * 2], dtype=np.float64)
        self.vm = np.stack([self.v, self.v[::-1] + 1, self.v * 2], axis=1)
        self.wm = np.stack([self.w, self.w[::-1] + 1], axis=1)
        self.lab = np.array([c[0], c[0], c[1], c[2]], dtype=np.int64)
        self.seeds = np.array([1, 0, 0, 2] if c[0] else [1, 2, 0, 3], dtype=np.int64)
        self.bool4 = np.array([c[0] > 0, c[1] > 0, c[2] > 1, c[3] > 0])
        self.t, self.alt = hg.bpt_canonical(self.g, self.w)
        self.n = self.t.num_vertices()
        self.nw = np.array([(3 * i + c[i % 5]) % 7 for i in range(self.n)], dtype=np.float64)
        self.nwm = np.stack([self.nw, self.nw[::-1]], axis=1)
        self.nb = np.array([c[i % 5] > 1 for i in range(self.n)])
        self.idx = np.array([c[0], 3, c[1] + 1, 0], dtype=np.int64)
        self.nidx = np.array([self.n - 1, c[0] + 4, 0, c[1]], dtype=np.int64)
        # image
        self.im = np.array([c[0], c[1], 2, c[2], 3, c[3], 1, c[4], 0], dtype=np.float64).reshape(3, 3)
        self.gi = hg.get_4_adjacency_graph((3, 3))
        self.iw = hg.weight_graph(self.gi, self.im, hg.WeightFunction.L1).astype(np.float64)
        self.ti, self.alti = hg.component_tree_max_tree(self.gi, self.im)
        self.labi = (self.im.astype(np.int64) + 1)
        self.bi = self.im > 1
        self.gtree = hg.get_4_adjacency_graph((2, 2))
        self.tt, self.talt = hg.quasi_flat_zone_hierarchy(self.gtree, self.w[:4])
        self.rag = hg.make_region_adjacency_graph_from_labelisation(self.gi, self.labi)
        self.objects = {k: x for k, x in vars(self).items() if isinstance(x, (hg.Tree, hg.UndirectedGraph))}

    def snapshot(self):
        return {k: norm(x) for k, x in self.objects.items()}


TABLE = {}


def add(name, args, fn):
    assert name not in TABLE, name
    TABLE[name] = (args, fn)


def tree_pair(r):
    return r


A = hg.Accumulators
ACC = ("min", "max", "mean", "sum", "prod", "counter", "first", "last", "argmin", "argmax")
# --- graphs
add("add_edges", {"s": ("idx", "i"), "t": ("idx", "i")}, lambda W, s, t: (lambda g: (g.add_edges(s, t), g)[1])(hg.UndirectedGraph(5)))
add("degree", {"s": ("idx", "i")}, lambda W, s: [W.g.degree(s), W.g.in_degree(s), W.g.out_degree(s)])
add("implicit degree", {"s": ("idx", "i")}, lambda W, s: [x(s) for x in [getattr(hg.get_4_adjacency_implicit_graph((2, 2)), m) for m in ("degree", "in_degree", "out_degree")]])
add("tree degree", {"s": ("nidx", "i")}, lambda W, s: [W.t.degree(s), W.t.in_degree(s), W.t.out_degree(s)])
for cls in ("EmbeddingGrid1d", "EmbeddingGrid2d", "EmbeddingGrid3d"):
    d = int(cls[-2])
    add(cls + " lin2grid", {"s": ("idx", "i")}, lambda W, s, cls=cls, d=d: getattr(hg, cls)((5,) + (2,) * (d - 1)).lin2grid(s))
    add(cls + " grid2lin", {"x": (lambda W, d=d: np.array([[(W.c[0] + i) % 2] * d for i in range(3)], dtype=np.int64), "i")}, lambda W, x, cls=cls, d=d: getattr(hg, cls)((5,) + (2,) * (d - 1)).grid2lin(x))
    add(cls + " contains", {"x": (lambda W, d=d: np.array([[W.c[0] + i + 1] * d for i in range(3)], dtype=np.int64), "i")}, lambda W, x, cls=cls, d=d: getattr(hg, cls)((3,) + (2,) * (d - 1)).contains(x))
add("EmbeddingGrid2d shape", {"s": (lambda W: np.array([3, 2]), "i")}, lambda W, s: hg.EmbeddingGrid2d(s).shape())
add("get_4_adjacency_graph", {"s": (lambda W: np.array([3, 2]), "i")}, lambda W, s: hg.get_4_adjacency_graph(s))
add("mask_2_neighbours", {"m": (lambda W: np.array([[W.c[0], 1, 0], [1, 0, W.c[1]], [0, 1, W.c[2]]], dtype=np.float64), "n")}, lambda W, m: hg.mask_2_neighbours(m))
add("get_nd_regular_graph", {"s": (lambda W: np.array([3, 2]), "i"), "n": (lambda W: np.array([[0, 1], [1, W.c[0] - 1]]), "s")}, lambda W, s, n: hg.get_nd_regular_graph(s, n))
add("weight_graph", {"v": ("v", "n")}, lambda W, v: [hg.weight_graph(W.g, v, f) for f in (hg.WeightFunction.L0, hg.WeightFunction.L1, hg.WeightFunction.L2, hg.WeightFunction.L_infinity, hg.WeightFunction.L2_squared, hg.WeightFunction.max, hg.WeightFunction.min, hg.WeightFunction.mean, hg.WeightFunction.source, hg.WeightFunction.target)])
add("weight_graph vectors", {"v": ("vm", "n")}, lambda W, v: [hg.weight_graph(W.g, v, f) for f in (hg.WeightFunction.L0, hg.WeightFunction.L1, hg.WeightFunction.L2, hg.WeightFunction.L_infinity, hg.WeightFunction.L2_squared)])
add("adjacency_matrix_2_undirected_graph", {"m": (lambda W: hg.undirected_graph_2_adjacency_matrix(W.g, W.w + 1, sparse=False), "n")}, lambda W, m: hg.adjacency_matrix_2_undirected_graph(m))
add("undirected_graph_2_adjacency_matrix", {"w": ("w", "n")}, lambda W, w: [hg.undirected_graph_2_adjacency_matrix(W.g, w, sparse=s) for s in (True, False)])
add("subgraph", {"e": (lambda W: np.array([W.c[0], 3, 4]), "i")}, lambda W, e: [hg.subgraph(W.g, e, spanning=s, return_vertex_map=not s) for s in (True, False)])
add("vertex_induced_subgraph", {"e": (lambda W: np.array([W.c[0], 3]), "i")}, lambda W, e: hg.vertex_induced_subgraph(W.g, e, return_edge_map=True))
add("minimum_spanning_tree", {"w": ("w", "n")}, lambda W, w: hg.minimum_spanning_tree(W.g, w))
add("labelisation_2_graph_cut", {"v": ("lab", "n")}, lambda W, v: hg.labelisation_2_graph_cut(W.g, v))
add("graph_cut_2_labelisation", {"w": ("w", "n")}, lambda W, w: hg.graph_cut_2_labelisation(W.g, w))
add("labelisation_watershed", {"w": ("w", "n")}, lambda W, w: hg.labelisation_watershed(W.g, w))
add("labelisation_seeded_watershed", {"w": ("w", "n"), "s": ("seeds", "i")}, lambda W, w, s: hg.labelisation_seeded_watershed(W.g, w, s))
add("ultrametric_open", {"w": ("w", "n")}, lambda W, w: hg.ultrametric_open(W.g, w))
add("make_graph_from_points", {"x": (lambda W: W.vm[:, :2] + np.arange(8).reshape(4, 2) * 5, "n")}, lambda W, x: [hg.make_graph_from_points(x, graph_type="complete")] + [hg.make_graph_from_points(x, graph_type=k, n_neighbors=2) for k in ("knn", "knn+mst")])
add("bipartite_graph_matching", {"w": (lambda W: W.w[:4], "n")}, lambda W, w: hg.bipartite_graph_matching(W.gtree, w))
for a in ("mean", "sum", "max", "min", "counter"):
    add("accumulate_graph_edges " + a, {"w": ("wm", "n")}, lambda W, w, a=a: hg.accumulate_graph_edges(W.g, w, getattr(A, a)))
    add("accumulate_graph_vertices " + a, {"w": ("vm", "n")}, lambda W, w, a=a: hg.accumulate_graph_vertices(W.g, w, getattr(A, a)))
    add("accumulate_at " + a, {"i": (lambda W: np.array([W.c[0], W.c[1], 0, 2, 1]), "i"), "w": ("wm", "n")}, lambda W, i, w, a=a: hg.accumulate_at(i, w, getattr(A, a)))
    add("accumulate_on_contours " + a, {"w": ("nw", "n")}, lambda W, w, a=a: hg.accumulate_on_contours(W.t, w, getattr(A, a), W.g) if False else hg.accumulate_on_contours(W.t, w, getattr(A, a), W.t and W.g) if hasattr(W.t, "x") else None)
add("sort", {"w": ("w", "n")}, lambda W, w: [hg.arg_sort(w, stable=True), hg.sort(np.array(w), stable=True)])
# --- regions adjacency
add("make_region_adjacency_graph_from_labelisation", {"v": ("labi", "i")}, lambda W, v: (lambda r: [r, hg.CptRegionAdjacencyGraph.get_edge_map(r), hg.CptRegionAdjacencyGraph.get_vertex_map(r)])(hg.make_region_adjacency_graph_from_labelisation(W.gi, v)))
add("make_region_adjacency_graph_from_graph_cut", {"w": ("iw", "n")}, lambda W, w: (lambda r: [r, hg.CptRegionAdjacencyGraph.get_edge_map(r), hg.CptRegionAdjacencyGraph.get_vertex_map(r)])(hg.make_region_adjacency_graph_from_graph_cut(W.gi, w)))
add("rag_back_project_vertex_weights", {"w": (lambda W: np.arange(W.rag.num_vertices() * 2, dtype=np.float64).reshape(-1, 2), "n")}, lambda W, w: [hg.rag_back_project_vertex_weights(W.rag, w)])
add("rag_back_project_edge_weights", {"w": (lambda W: np.arange(1, W.rag.num_edges() + 1, dtype=np.float64), "n")}, lambda W, w: hg.rag_back_project_edge_weights(W.rag, w))
add("rag_accumulate_on_vertices", {"w": (lambda W: np.stack([W.im, W.im + 1], axis=2), "n")}, lambda W, w: [hg.rag_accumulate_on_vertices(W.rag, getattr(A, a), w) for a in ("mean", "sum", "max", "min")])
add("rag_accumulate_on_edges", {"w": ("iw", "n")}, lambda W, w: [hg.rag_accumulate_on_edges(W.rag, getattr(A, a), w) for a in ("mean", "sum", "max", "min")])
add("rag_2d_vertex_perimeter_and_edge_length", {"l": ("labi", "i")}, lambda W, l: hg.rag_2d_vertex_perimeter_and_edge_length(hg.make_region_adjacency_graph_from_labelisation(W.gi, l), W.gi, (3, 3)))
# --- trees
add("Tree", {"p": (lambda W: W.t.parents().astype(np.int64), "i")}, lambda W, p: hg.Tree(p))
for m in ("child", "parent", "find_region", "num_children", "lowest_common_ancestor", "lca preprocessed", "is_leaf", "sub_tree"):
    if m == "child":
        add("tree child", {"s": (lambda W: np.array([W.n - 1, W.c[0] + 4]), "i")}, lambda W, s: [W.t.child(0, s), W.t.child(1, s)])
    elif m == "parent":
        add("tree parent", {"s": ("nidx", "i")}, lambda W, s: W.t.parent(s))
    elif m == "find_region":
        add("tree find_region", {"s": (lambda W: np.array([0, 1, 3, 2]), "i"), "l": (lambda W: W.alt[[4, 5, 6, 4]].astype(np.float64), "n"), "a": (lambda W: W.alt.astype(np.float64), "n")}, lambda W, s, l, a: W.t.find_region(s, l, a))
    elif m == "num_children":
        add("tree num_children", {"s": ("nidx", "i")}, lambda W, s: W.t.num_children(s))
    elif m == "lowest_common_ancestor":
        add("tree lowest_common_ancestor", {"a": ("nidx", "i"), "b": ("idx", "i")}, lambda W, a, b: W.t.lowest_common_ancestor(a, b))
    elif m == "is_leaf":
        add("tree is_leaf", {"s": ("nidx", "i")}, lambda W, s: W.t.is_leaf(s))
add("LCAFast", {"a": ("nidx", "i"), "b": ("idx", "i")}, lambda W, a, b: hg.make_lca_fast(W.t).lca(a, b))
for a in ACC:
    add("accumulate_sequential " + a, {"w": ("v", "n")}, lambda W, w, a=a: [hg.accumulate_sequential(W.t, w, getattr(A, a))[W.t.num_leaves():]])
    add("accumulate_parallel " + a, {"w": ("nw", "n")}, lambda W, w, a=a: [hg.accumulate_parallel(W.t, w, getattr(A, a))[W.t.num_leaves():]])
    if not a.startswith("arg"):
        add("accumulate_sequential vectors " + a, {"w": ("vm", "n")}, lambda W, w, a=a: [hg.accumulate_sequential(W.t, w, getattr(A, a))[W.t.num_leaves():]])
        add("accumulate_parallel vectors " + a, {"w": ("nwm", "n")}, lambda W, w, a=a: [hg.accumulate_parallel(W.t, w, getattr(A, a))[W.t.num_leaves():]])
for o in ("add", "multiply", "min", "max"):
    f = getattr(hg, "accumulate_and_%s_sequential" % o)
    add("accumulate_and_%s_sequential" % o, {"w": ("nw", "n"), "v": ("v", "n")}, lambda W, w, v, f=f: [f(W.t, w, v, A.max), f(W.t, w, v, A.sum)])
    add("accumulate_and_%s_sequential vectors" % o, {"w": ("nwm", "n"), "v": (lambda W: W.vm[:, :2].copy(), "n")}, lambda W, w, v, f=f: [f(W.t, w, v, A.max), f(W.t, w, v, A.sum)])
add("propagate_parallel", {"w": ("nw", "n"), "c": ("nb", "n")}, lambda W, w, c: [hg.propagate_parallel(W.t, w), hg.propagate_parallel(W.t, w, c)])
add("propagate_sequential", {"w": ("nwm", "n"), "c": ("nb", "n")}, lambda W, w, c: hg.propagate_sequential(W.t, w, c))
add("propagate_sequential_and_accumulate", {"w": ("nwm", "n"), "c": ("nb", "n")}, lambda W, w, c: [hg.propagate_sequential_and_accumulate(W.t, w, getattr(A, a), c) for a in ("sum", "max")] + [hg.propagate_sequential_and_accumulate(W.t, w, A.min)])
add("simplify_tree", {"d": ("nb", "n")}, lambda W, d: [hg.simplify_tree(W.t, d), hg.simplify_tree(W.t, d, process_leaves=True)])
add("simplify_tree image", {"d": (lambda W: np.array([W.c[i % 5] > 0 for i in range(W.ti.num_vertices())]), "n")}, lambda W, d: hg.simplify_tree(W.ti, d))
add("reconstruct_leaf_data", {"w": ("nwm", "n"), "d": ("nb", "n")}, lambda W, w, d: [hg.reconstruct_leaf_data(W.t, w, d), hg.reconstruct_leaf_data(W.t, w)])
add("reconstruct_leaf_data component tree", {"w": (lambda W: np.arange(W.ti.num_vertices(), dtype=np.float64), "n"), "d": (lambda W: np.array([W.c[i % 5] > 1 for i in range(W.ti.num_vertices())]), "n")}, lambda W, w, d: [hg.reconstruct_leaf_data(W.ti, w, d), hg.reconstruct_leaf_data(W.ti, w)])
add("labelisation_horizontal_cut_from_threshold", {"w": ("alt", "n")}, lambda W, w: [hg.labelisation_horizontal_cut_from_threshold(W.t, w, x) for x in (-1, 0, 0.5, 1, 2)])
add("labelisation_horizontal_cut_from_num_regions", {"w": ("alt", "n")}, lambda W, w: [hg.labelisation_horizontal_cut_from_num_regions(W.t, w, x, mode=m) for x in (1, 2, 3, 4) for m in ("at_least", "at_most")])
add("HorizontalCutExplorer", {"w": ("alt", "n")}, lambda W, w: (lambda e: [e.num_regions_cuts(), e.altitude_cuts()] + [[c.nodes(), c.altitude()] for c in [e.horizontal_cut_from_index(i) for i in range(len(e.altitude_cuts()))]])(hg.HorizontalCutExplorer(W.t, w)))
add("HorizontalCutNodes", {"w": ("alt", "n"), "d": ("nwm", "n")}, lambda W, w, d: (lambda c: [c.reconstruct_leaf_data(W.t, d), c.graph_cut(W.t, W.g), c.labelisation_leaves(W.t)])(hg.HorizontalCutExplorer(W.t, w).horizontal_cut_from_num_regions(2)))
add("labelisation_hierarchy_supervertices", {"w": ("alt", "n")}, lambda W, w: hg.labelisation_hierarchy_supervertices(W.t, w))
add("binary_labelisation_from_markers", {"o": ("bool4", "n"), "b": (lambda W: ~W.bool4, "n")}, lambda W, o, b: hg.binary_labelisation_from_markers(W.t, o, b))
add("sort_hierarchy_with_altitudes", {"w": ("alt", "n")}, lambda W, w: hg.sort_hierarchy_with_altitudes(W.t, w))
add("test_altitudes_increasingness", {"w": ("nw", "n")}, lambda W, w: hg.test_altitudes_increasingness(W.t, w))
add("canonize_hierarchy", {"w": ("alt", "n")}, lambda W, w: hg.canonize_hierarchy(W.t, w, return_node_map=True))
add("filters", {"w": ("alt", "n"), "m": ("nb", "n"), "e": ("w", "n")}, lambda W, w, m, e: [hg.filter_non_relevant_node_from_tree(W.t, w, lambda t, a: m), hg.filter_small_nodes_from_tree(W.t, w, 2), hg.filter_weak_frontier_nodes_from_tree(W.t, w, e, 1)])
add("saliency", {"w": ("alt", "n")}, lambda W, w: hg.saliency(W.t, w))
add("dendrogram_purity", {"l": ("lab", "i")}, lambda W, l: hg.dendrogram_purity(W.t, l))
add("dasgupta_cost", {"w": ("w", "n")}, lambda W, w: [hg.dasgupta_cost(W.t, w, W.g, mode=m) for m in ("dissimilarity", "similarity")])
add("tree_sampling_divergence", {"w": (lambda W: W.w + 1, "n")}, lambda W, w: hg.tree_sampling_divergence(W.t, w, W.g))
add("attribute_tree_sampling_probability", {"w": (lambda W: W.w + 1, "n")}, lambda W, w: [hg.attribute_tree_sampling_probability(W.t, W.g, w, m) for m in ("edge", "null")])
add("tree_monotonic_regression", {"w": ("nw", "n"), "x": (lambda W: W.nw + 1, "n")}, lambda W, w, x: [hg.tree_monotonic_regression(W.t, w, m) for m in ("min", "max")] + [hg.tree_monotonic_regression(W.t, w, "least_square", x)])
add("labelisation_optimal_cut_from_energy", {"w": ("nw", "n")}, lambda W, w: [hg.labelisation_optimal_cut_from_energy(W.t, w, a) for a in (A.sum, A.min, A.max)])
add("hierarchy_to_optimal_energy_cut_hierarchy", {"d": (lambda W: np.array(hg.accumulate_sequential(W.t, W.v, A.sum)) ** 2, "n"), "r": (lambda W: np.array([4 if i < 4 else 3 if i < W.n - 1 else 1 for i in range(W.n)], dtype=np.float64), "n")}, lambda W, d, r: hg.hierarchy_to_optimal_energy_cut_hierarchy(W.t, d, r))
add("hierarchy_to_optimal_MumfordShah_energy_cut_hierarchy", {"v": ("vm", "n")}, lambda W, v: hg.hierarchy_to_optimal_MumfordShah_energy_cut_hierarchy(W.t, v))
add("binary_hierarchy_to_scipy_linkage_matrix", {"w": ("alt", "n"), "a": (lambda W: hg.attribute_area(W.t).astype(np.float64), "n")}, lambda W, w, a: hg.binary_hierarchy_to_scipy_linkage_matrix(W.t, w, a))
add("scipy_linkage_matrix_to_binary_hierarchy", {"z": (lambda W: hg.binary_hierarchy_to_scipy_linkage_matrix(W.t, W.alt), "n")}, lambda W, z: hg.scipy_linkage_matrix_to_binary_hierarchy(z))
add("project_fine_to_coarse_labelisation", {"a": (lambda W: np.array([0, 1, 2, 3]), "i"), "b": ("lab", "i")}, lambda W, a, b: hg.project_fine_to_coarse_labelisation(a, b))
add("align_hierarchies", {"l": (lambda W: np.array([0, 1, 2, 2]), "i")}, lambda W, l: hg.align_hierarchies(W.g, l, [(W.t, W.alt)]))
add("HierarchyAligner", {"w": ("alt", "f")}, lambda W, w: hg.align_hierarchies(W.g, np.array([0, 1, 2, 2]), (W.t, w)))
# --- attributes
add("attribute_area", {"a": (lambda W: W.v + 1, "n")}, lambda W, a: hg.attribute_area(W.t, a))
add("attribute_volume", {"w": ("nw", "n"), "a": (lambda W: np.array([1., 2, 1, 3, 4, 5, 7])[:W.n], "n")}, lambda W, w, a: [hg.attribute_volume(W.t, w), hg.attribute_volume(W.t, w, a)])
add("attribute_contour_length", {"p": (lambda W: W.v + 1, "n"), "e": (lambda W: W.w + 1, "n")}, lambda W, p, e: hg.attribute_contour_length(W.t, p, e))
add("attribute_contour_length component tree", {"p": (lambda W: W.im + 4, "n"), "e": (lambda W: W.iw + 1, "n")}, lambda W, p, e: hg.attribute_contour_length(W.ti, p, e))
add("attribute_contour_strength", {"w": ("w", "n"), "p": (lambda W: W.v + 1, "n"), "e": (lambda W: W.w + 1, "n")}, lambda W, w, p, e: hg.attribute_contour_strength(W.t, w, p, e))
add("attribute_frontier_length", {"e": (lambda W: W.w + 1, "n")}, lambda W, e: hg.attribute_frontier_length(W.t, e))
add("attribute_frontier_strength", {"w": ("w", "n")}, lambda W, w: hg.attribute_frontier_strength(W.t, w, W.g))
add("attribute_compactness", {"a": (lambda W: hg.attribute_area(W.t).astype(np.float64), "n"), "c": (lambda W: W.nw + 1, "n")}, lambda W, a, c: hg.attribute_compactness(W.t, a, c))
add("attribute_mean_vertex_weights", {"v": ("vm", "n"), "a": (lambda W: hg.attribute_area(W.t).astype(np.float64), "n")}, lambda W, v, a: hg.attribute_mean_vertex_weights(W.t, v, a))
add("attribute_gaussian_region_weights_model", {"v": ("vm", "n")}, lambda W, v: hg.attribute_gaussian_region_weights_model(W.t, v))
add("attribute_piecewise_constant_Mumford_Shah_energy", {"v": ("vm", "n")}, lambda W, v: hg.attribute_piecewise_constant_Mumford_Shah_energy(W.t, v, 0.5))
add("attribute_extrema", {"w": ("alt", "n")}, lambda W, w: hg.attribute_extrema(W.t, w))
add("attribute_extinction_value", {"w": ("alt", "n"), "a": (lambda W: hg.attribute_area(W.t).astype(np.float64), "n")}, lambda W, w, a: hg.attribute_extinction_value(W.t, w, a))
add("attribute_dynamics", {"w": ("alt", "n")}, lambda W, w: hg.attribute_dynamics(W.t, w))
add("attribute_dynamics max tree", {"w": ("alti", "n")}, lambda W, w: hg.attribute_dynamics(W.ti, w))
add("attribute_height", {"w": ("alt", "n")}, lambda W, w: [hg.attribute_height(W.t, w), hg.attribute_height(W.t, w, reference_altitude="current")])
add("attribute_height max tree", {"w": ("alti", "n")}, lambda W, w: [hg.attribute_height(W.ti, w, increasing_altitudes=False), hg.attribute_height(W.ti, w, increasing_altitudes=False, reference_altitude="current")])
add("attribute_regular_altitudes", {"d": (lambda W: hg.attribute_depth(W.t).astype(np.float64), "n")}, lambda W, d: hg.attribute_regular_altitudes(W.t, d))
add("attribute_children_pair_sum_product", {"w": ("nw", "n")}, lambda W, w: hg.attribute_children_pair_sum_product(W.t, w))
add("attribute_vertex_perimeter", {"e": ("w", "n")}, lambda W, e: hg.attribute_vertex_perimeter(W.g, e))
# --- hierarchies
for f in ("binary_partition_tree_single_linkage", "binary_partition_tree_complete_linkage", "binary_partition_tree_average_linkage", "bpt_canonical", "quasi_flat_zone_hierarchy",
          "watershed_hierarchy_by_area", "watershed_hierarchy_by_volume", "watershed_hierarchy_by_dynamics", "watershed_hierarchy_by_number_of_parents", "constrained_connectivity_hierarchy_strong_connection"):
    add(f, {"w": ("w", "n")}, lambda W, w, f=f: getattr(hg, f)(W.g, w))
add("binary_partition_tree_average_linkage weighted", {"w": ("w", "n"), "x": (lambda W: W.w[::-1] + 1, "n")}, lambda W, w, x: hg.binary_partition_tree_average_linkage(W.g, w, x))
add("binary_partition_tree_exponential_linkage", {"w": ("w", "n"), "x": (lambda W: W.w[::-1] + 1, "n")}, lambda W, w, x: hg.binary_partition_tree_exponential_linkage(W.g, w, 0.5, x))
add("binary_partition_tree_ward_linkage", {"v": ("vm", "n"), "s": (lambda W: W.v + 1, "n")}, lambda W, v, s: hg.binary_partition_tree_ward_linkage(W.g, v, s))
add("binary_partition_tree_MumfordShah_energy", {"v": ("vm", "n"), "a": (lambda W: W.v + 1, "n"), "p": (lambda W: W.v + 2, "n"), "e": (lambda W: W.w + 1, "n"), "q": (lambda W: W.vm ** 2, "n")}, lambda W, v, a, p, e, q: hg.binary_partition_tree_MumfordShah_energy(W.g, v, a, p, e, q))
add("binary_partition_tree", {"w": ("w", "n")}, lambda W, w: hg.binary_partition_tree(W.g, lambda g, i, f, e: e.set_new_weight if False else [x.set_new_edge_weight(1 + x.first_edge_weight()) for x in e] if False else None, w) if False else None)
add("bpt_canonical sorted", {"w": ("w", "n"), "s": (lambda W: hg.arg_sort(W.w, stable=True).astype(np.int64), "i")}, lambda W, w, s: hg.bpt_canonical(W.g, w, sorted_edge_indices=s))
add("watershed_hierarchy_by_area areas", {"w": ("w", "n"), "a": (lambda W: W.v + 1, "n")}, lambda W, w, a: [hg.watershed_hierarchy_by_area(W.g, w, a), hg.watershed_hierarchy_by_volume(W.g, w, a)])
add("watershed_hierarchy_by_attribute", {"w": ("w", "n")}, lambda W, w: hg.watershed_hierarchy_by_attribute(W.g, w, lambda t, a: hg.attribute_area(t)))
add("watershed_hierarchy_by_minima_ordering", {"w": ("w", "n"), "r": (lambda W: (lambda l: np.array(l))(hg.labelisation_watershed(W.g, W.w)).astype(np.int64), "i")}, lambda W, w, r: hg.watershed_hierarchy_by_minima_ordering(W.g, w, r))
add("constrained_connectivity_hierarchy_alpha_omega", {"v": ("v", "n")}, lambda W, v: hg.constrained_connectivity_hierarchy_alpha_omega(W.g, v))
add("component_tree_max_tree", {"v": ("im", "n")}, lambda W, v: [hg.component_tree_max_tree(W.gi, v), hg.component_tree_min_tree(W.gi, v)])
add("component_tree_tree_of_shapes_image2d", {"v": ("im", "n")}, lambda W, v: [shapes(hg.component_tree_tree_of_shapes_image2d(v, padding=p, original_size=o, immersion=i)) for p in ("none", "zero") for o in (True, False) for i in (True, False)])
add("component_tree_multivariate_tree_of_shapes_image2d", {"v": (lambda W: np.stack([W.im, W.im.T], axis=2), "n")}, lambda W, v: hg.component_tree_multivariate_tree_of_shapes_image2d(v, padding="zero"))
add("mean_pb_hierarchy", {"w": ("iw", "n"), "o": (lambda W: W.iw[::-1] * 0.5, "f")}, lambda W, w, o: [hg.mean_pb_hierarchy(W.gi, w, (3, 3)), hg.mean_pb_hierarchy(W.gi, w, (3, 3), o)])
add("oriented_watershed", {"w": ("iw", "n"), "o": (lambda W: W.iw[::-1] * 0.5, "f")}, lambda W, w, o: [hg.oriented_watershed(W.gi, w, (3, 3)), hg.oriented_watershed(W.gi, w, (3, 3), o)])
# --- images, assessment
add("graph_4_adjacency_2_khalimsky", {"w": ("iw", "n")}, lambda W, w: [hg.graph_4_adjacency_2_khalimsky(W.gi, w, (3, 3), b) for b in (True, False)])
add("khalimsky_2_graph_4_adjacency", {"k": (lambda W: hg.graph_4_adjacency_2_khalimsky(W.gi, W.iw, (3, 3)), "n")}, lambda W, k: hg.khalimsky_2_graph_4_adjacency(k))
add("fit_contour_2d", {"w": ("iw", "n")}, lambda W, w: (lambda c: [[[s.source if hasattr(s, "source") else 0, len(s)] if False else [float(len(s)), s.norm()] for s in p] for p in c])(hg.fit_contour_2d(W.gi, (3, 3), w)))
add("match_pixels_image_2d", {"a": ("bi", "n"), "b": (lambda W: W.bi.T.copy(), "n")}, lambda W, a, b: [hg.match_pixels_image_2d(a, b, 1.5, mode="absolute")])
add("gradient_orientation", {"i": ("im", "n")}, lambda W, i: hg.gradient_orientation(i, 1))
add("triangular_filter", {"i": ("im", "n")}, lambda W, i: hg.triangular_filter(i, 1))
add("mean_angle_mod_pi", {"a": ("v", "n"), "b": (lambda W: W.v[::-1] + 1, "n")}, lambda W, a, b: hg.mean_angle_mod_pi(a, b))
add("assess_partition", {"a": ("lab", "i"), "b": (lambda W: np.array([1, 1, 2, 2]), "i")}, lambda W, a, b: [hg.assess_partition(a, b, hg.PartitionMeasure.BCE), hg.assess_partition(a, [b, b], hg.PartitionMeasure.DHamming)])
add("assess_fragmentation_horizontal_cut", {"w": ("alt", "n"), "b": (lambda W: np.array([1, 1, 2, 2]), "i")}, lambda W, w, b: (lambda c: [c.num_regions(), c.scores(), c.num_regions_ground_truth()])(hg.assess_fragmentation_horizontal_cut(W.t, w, b, hg.PartitionMeasure.BCE)))
add("assess_fragmentation_optimal_cut", {"b": (lambda W: np.array([1, 1, 2, 2]), "i")}, lambda W, b: [(lambda c: [c.num_regions(), c.scores(), c.num_regions_ground_truth()])(hg.assess_fragmentation_optimal_cut(W.t, b, m)) for m in (hg.OptimalCutMeasure.BCE, hg.OptimalCutMeasure.DHamming, hg.OptimalCutMeasure.DCovering)])
add("AssesserFragmentationOptimalCut", {"b": (lambda W: np.array([1, 1, 2, 2]), "i")}, lambda W, b: (lambda a: [a.optimal_number_of_regions(), a.optimal_score(), a.optimal_partition()])(hg.make_assesser_fragmentation_optimal_cut(W.t, b, hg.OptimalCutMeasure.BCE)))
add("linearize_vertex_weights", {"v": ("im", "n")}, lambda W, v: [hg.linearize_vertex_weights(v, W.gi), hg.delinearize_vertex_weights(hg.linearize_vertex_weights(v, W.gi), W.gi)])
add("cast", {"v": ("im", "n")}, lambda W, v: [hg.cast_to_dtype(v, np.float64), hg.is_in_bijection(v.ravel(), v.ravel())])
add("tree_fusion_depth_map", {"w": ("alt", "n")}, lambda W, w: hg.tree_fusion_depth_map(W.t, hg.saliency and hg.bpt_canonical(W.g, np.arange(5.))[0]))
for k in [k for k in TABLE if k in ("binary_partition_tree", "tree_fusion_depth_map") or k.startswith("accumulate_on_contours")]:
    del TABLE[k]
for a in ("mean", "sum", "max", "min", "counter"):
    add("accumulate_on_contours " + a, {"w": ("nw", "n")}, lambda W, w, a=a: hg.accumulate_on_contours(W.gk, w, getattr(A, a), W.gk) if False else hg.accumulate_on_contours(W.t, w, getattr(A, a)))


for k in TABLE:
    # the mean of integers is an integer (it is truncated): only the types of real numbers are compared
    if k.endswith(" mean") or k in ("rag_accumulate_on_vertices", "rag_accumulate_on_edges"):
        TABLE[k] = ({x: (y, "f" if x == "w" else z) for x, (y, z) in TABLE[k][0].items()}, TABLE[k][1])


    # products need types which hold the results, sums of lengths are not defined on booleans
    if "prod" in k or "multiply" in k:
        TABLE[k] = ({x: (y, "w" if z == "n" else z) for x, (y, z) in TABLE[k][0].items()}, TABLE[k][1])
    if k.startswith(("attribute_contour", "attribute_frontier")):
        TABLE[k] = ({x: (y, "q") for x, (y, z) in TABLE[k][0].items()}, TABLE[k][1])
TABLE["attribute_frontier_strength"] = ({"w": ("w", "f")}, TABLE["attribute_frontier_strength"][1])  # documented: of the type of the weights
TABLE["filters"] = ({"w": ("alt", "n"), "m": ("nb", "n"), "e": ("w", "f")}, TABLE["filters"][1])


def run(case, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        run_(case, ctx)


def run_(case, ctx):
    name, c = case
    hg.set_auto_cache_state(False)
    spec, fn = TABLE[name]
    W = World(c)
    base = {}
    for k, (src, kinds) in spec.items():
        x = getattr(W, src) if isinstance(src, str) else src(W)
        base[k] = np.array(x, order="C")
    ctx.state((name, tuple(c)))
    before = W.snapshot()
    what = "%s on input %r" % (name, c)

    def call(args):
        ctx.op()
        return norm(fn(W, **args))
    ref = call({k: x.copy() for k, x in base.items()})
    ctx.outcome(repr(ref)[:200])
    if not equal(call({k: x.copy() for k, x in base.items()}), ref):
        raise Violation(what + ": a second call with the same arguments gives another result")
    refused = set()

    def attempt(vs):
        args = {k: v[2] for k, v in vs.items()}
        args.update({k: x.copy() for k, x in base.items() if k not in args})
        keep = {k: (v[1].copy(), v[2].copy()) for k, v in vs.items()}
        label = "%s with %s" % (what, "; ".join("%s: %s %r" % (k, v[0], base[k].tolist()) for k, v in vs.items()))
        ctx.compared += 1
        ctx.state((name, tuple(c), tuple((k, v[0]) for k, v in vs.items())))
        try:
            got = call(args)
        except Exception as e:
            types = [v[0].split(",")[0] != base[k].dtype.name or "endian" in v[0] for k, v in vs.items()]
            if any(types):
                refused.add(tuple(v[0].split(",")[0] for v in vs.values()))
                return
            raise Violation("%s: refused: %s" % (label, str(e)[:200]))
        if not equal(got, ref, 5e-3 if any("float16" in v[0] for v in vs.values()) else 1e-5):
            raise Violation("%s: gives %s instead of %s" % (label, repr(got)[:300], repr(ref)[:300]))
        for k, v in vs.items():
            if not np.array_equal(v[1], keep[k][0]) or not np.array_equal(v[2], keep[k][1]):
                raise Violation("%s: argument %s was modified" % (label, k))
        if W.snapshot() != before:
            raise Violation("%s: a graph or tree was modified" % label)

    for k, (src, kinds) in spec.items():
        for v in variants(base[k], kinds):
            attempt({k: v})
    if len(spec) > 1:
        allv = {k: {v[0].split(",")[-1].strip() if "," in v[0] else v[0]: v for v in variants(base[k], kinds)} for k, (src, kinds) in spec.items()}
        for lay in ("strided", "reversed", "read only"):
            attempt({k: allv[k][lay] for k in spec if lay in allv[k]})
        for t in NUM:
            if all(t in allv[k] or base[k].dtype.name == t for k in spec):
                attempt({k: allv[k].get(t) or next(variants(base[k], "x")) for k in spec})
    for r in refused:
        ctx.outcome(("refused", name, r))
    hg.set_auto_cache_state(True)


def groups(tier):
    T = tier == "thorough"
    inputs = list(itertools.product((0, 1, 2), repeat=5))
    inputs = inputs[::3] if T else [list(x) for x in [(0, 1, 2, 1, 2), (2, 0, 1, 1, 0), (1, 1, 1, 1, 1), (0, 0, 0, 0, 0), (2, 2, 0, 1, 0), (1, 0, 0, 2, 2)]]

    def g():
        for c in inputs:
            for name in sorted(TABLE):
                yield name, list(c)
    return [Group("arguments", g, run, "%d functions, every array argument, every layout (contiguous, strided, reversed, transposed, column, read only, big endian, unaligned, broadcast) and lossless type, %d inputs" % (len(TABLE), len(inputs)), limit=60)]
