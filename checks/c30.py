"""C30: For every accessor of a table of objects holding native memory, every derived object, every number of elements read before the owner is released and every order of release: the values read
afterwards, with freed memory overwritten, are those read while the owner is alive."""
import gc
import itertools
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints, edges_of

ID = "C30"
ASSUMPTIONS = ["Freed memory is overwritten by the allocator (MALLOC_PERTURB_, no thread cache) and reallocated between the release and the reading.",
               "Objects are not modified while they are iterated."]


def plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    if isinstance(x, (int, float, np.generic)):
        return float(x)
    if isinstance(x, hg.Tree):
        return ints(x.parents())
    if hasattr(x, "edge_list"):
        return [x.num_vertices()] + edges_of(x)
    if hasattr(x, "angle"):
        return ["segment", len(x), plain([e for e in x]), plain(x[0]), x.norm(), x.angle()]
    if isinstance(x, hg.PolylineContour2d):
        return ["polyline", len(x)] + [plain(s) for s in x] + [plain(x[i]) for i in range(len(x))]
    if isinstance(x, hg.HorizontalCutNodes):
        return [x.altitude(), plain(x.nodes())]
    return repr(x)


def graph(k):
    n = 5
    E = [e for i, e in enumerate([(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 2), (1, 3), (1, 2), (0, 0)]) if (k >> (i % 3)) & 1 or i % 2 == k % 2]
    return mk_graph(n, E)


def del_graph(k):
    g = hg.UndirectedGraphOptimizedDelete(5)
    for e in edges_of(graph(k)):
        g.add_edge(*e)
    return g


TREES = [(2, 2, 3, 3), (4, 4, 5, 5, 6, 6, 6), (3, 3, 3, 3), (5, 5, 6, 6, 6, 7, 7, 7), (4, 4, 4, 5, 5, 5)]


def tree(k):
    return mk_tree(TREES[k % len(TREES)], "pc"[k % 2])


def contour(k):
    im = np.array([[(k >> (i % 4)) & 1, i % 2, (i * k) % 3, 1 - i % 2] for i in range(4)])
    g = hg.get_4_adjacency_graph((4, 4))
    c = hg.fit_contour_2d(g, (4, 4), hg.weight_graph(g, im.astype(np.float64).ravel(), hg.WeightFunction.L0))
    if k % 2:
        c.subdivide(0.05, True, 1)
    return c


def bpt(k):
    g = hg.get_4_adjacency_graph((2, 3))
    w = np.array([(i * k + i // 2) % 4 for i in range(g.num_edges())], dtype=np.float64)
    return hg.bpt_canonical(g, w)


def explorer(k):
    t, a = bpt(k)
    return hg.HorizontalCutExplorer(t, a)


def assesser(k):
    t, a = bpt(k)
    return hg.make_assesser_fragmentation_optimal_cut(t, np.array([1, 1, 2, k % 2, 2, 2]), hg.OptimalCutMeasure.BCE)


def curve(k):
    return assesser(k).fragmentation_curve()


def implicit(k):
    return [hg.get_4_adjacency_implicit_graph((2, 3)), hg.get_8_adjacency_implicit_graph((3, 2)), hg.get_6_adjacency_implicit_graph((2, 2, 2)), hg.get_nd_regular_implicit_graph((4,), ((1,), (-1,)))][k % 4]


# owner, accessors: name -> function giving an object whose values do not depend on the life of the owner
def graph_accessors(implicit=False, tree=False):
    d = {"vertices": lambda g: g.vertices(), "out_edges": lambda g: g.out_edges(1), "in_edges": lambda g: g.in_edges(1), "adjacent_vertices": lambda g: g.adjacent_vertices(1)}
    if not implicit:
        d.update({"edges": lambda g: g.edges(), "edge_list": lambda g: g.edge_list(), "sources": lambda g: g.sources(), "targets": lambda g: g.targets(), "edge_from_index": lambda g: g.edge_from_index(1), "degree": lambda g: g.degree(np.arange(2))})
    if tree:
        d.update({"parents": lambda t: t.parents(), "leaves": lambda t: t.leaves(), "children": lambda t: t.children(t.root()), "ancestors": lambda t: t.ancestors(0), "to_undirected_graph": lambda t: t.to_undirected_graph(),
                  "sub_tree": lambda t: t.sub_tree(t.root()), "adjacent_vertices": lambda t: t.adjacent_vertices(t.root()), "out_edges": lambda t: t.out_edges(t.root()), "in_edges": lambda t: t.in_edges(t.root()),
                  "parent": lambda t: t.parent(np.arange(3)), "view of parents": lambda t: t.parents()[1:]})
        for il, ir in itertools.product((True, False), repeat=2):
            d["leaves_to_root %d%d" % (il, ir)] = lambda t, il=il, ir=ir: t.leaves_to_root_iterator(include_leaves=il, include_root=ir)
            d["root_to_leaves %d%d" % (il, ir)] = lambda t, il=il, ir=ir: t.root_to_leaves_iterator(include_leaves=il, include_root=ir)
    return d


OWNERS = {
    "graph": (graph, graph_accessors(), 8),
    "graph with deletion": (del_graph, {k: v for k, v in graph_accessors().items() if k in ("vertices", "out_edges", "in_edges", "adjacent_vertices", "edges", "degree")}, 8),
    "implicit graph": (implicit, graph_accessors(True), 4),
    "tree": (tree, graph_accessors(tree=True), 5),
    "contour": (contour, {"iter": lambda c: iter(c), "polyline": lambda c: c[0], "last polyline": lambda c: c[len(c) - 1], "segment": lambda c: c[0][0], "segment of a polyline": lambda c: c[len(c) - 1][0],
                          "iterator of segments": lambda c: iter(c[0]), "iterator of elements": lambda c: iter(c[0][0]), "element": lambda c: c[0][0][0], "next polyline": lambda c: next(iter(c)), "next segment": lambda c: next(iter(next(iter(c)))),
                          "list": lambda c: [x for x in c], "segments": lambda c: [s for p in c for s in p], "elements": lambda c: [e for p in c for s in p for e in s]}, 16),
    "hierarchy": (bpt, {"tree": lambda r: r[0], "altitudes": lambda r: r[1], "leaf graph": lambda r: hg.CptHierarchy.get_leaf_graph(r[0]), "mst": lambda r: hg.CptBinaryHierarchy.get_mst(r[0]), "mst map": lambda r: hg.CptBinaryHierarchy.get_mst_edge_map(r[0]),
                        "base graph": lambda r: hg.CptMinimumSpanningTree.get_base_graph(hg.CptBinaryHierarchy.get_mst(r[0])), "lca": lambda r: hg.attribute_lca_map(r[0]), "lists": lambda r: hg.attribute_vertex_list(r[0]),
                        "edges of the leaf graph": lambda r: hg.CptHierarchy.get_leaf_graph(r[0]).edges(), "children": lambda r: r[0].children(r[0].root()), "area": lambda r: hg.attribute_area(r[0]), "lca fast": lambda r: r[0].lowest_common_ancestor(np.arange(3), np.arange(3) + 1),
                        "simplified": lambda r: hg.simplify_tree(r[0], np.zeros(r[0].num_vertices(), dtype=bool))}, 6),
    "explorer": (explorer, {"altitudes": lambda e: e.altitude_cuts(), "regions": lambda e: e.num_regions_cuts(), "cut": lambda e: e.horizontal_cut_from_num_regions(2), "first cut": lambda e: e.horizontal_cut_from_index(0), "nodes": lambda e: e.horizontal_cut_from_index(0).nodes()}, 6),
    "assesser": (assesser, {"curve": lambda a: a.fragmentation_curve().scores(), "partition": lambda a: a.optimal_partition(), "curve regions": lambda a: a.fragmentation_curve().num_regions()}, 4),
    "curve": (curve, {"scores": lambda c: c.scores(), "regions": lambda c: c.num_regions(), "normalized": lambda c: c.num_regions_normalized()}, 4),
}


def churn():
    """Reuses the freed memory."""
    x = []
    for i in range(40):
        x.append(np.full(i + 1, 12345678))
        x.append(mk_tree(TREES[i % len(TREES)]))
        x.append(mk_graph(5, [(0, i % 5), (1, 2), (3, 4)]))
    gc.collect()
    return x


def run(case, ctx):
    owner, acc, k, mode = case
    make, table, _ = OWNERS[owner]
    fn = table[acc]
    what = "%s of %s %d" % (acc, owner, k)
    o = make(k)
    if owner == "contour" and (len(o) == 0 or len(o[0]) == 0):
        return
    x = fn(o)
    it = hasattr(x, "__next__")
    ref = [plain(y) for y in x] if it else plain(x)
    # the same values while the owner is alive, read again
    y = fn(o)
    ctx.eq(([plain(z) for z in y] if it else plain(y)) == ref, True, what + ": two readings differ")
    del x, y, o
    for before in range(len(ref) + 1) if it else (0,):
        for m in (("drop",), ("drop", "churn"), ("churn", "drop", "churn"))[mode:mode + 1]:
            o = make(k)
            x = fn(o)
            ctx.op()
            ctx.state((owner, acc, k, before, m))
            got = []
            kept = []
            for _ in range(before):
                e = next(x)
                kept.append(e)
                got.append(plain(e))
            keep = []
            for a in m:
                if a == "drop":
                    o = None
                    gc.collect()
                else:
                    keep.append(churn())
            if it:
                for e in x:
                    kept.append(e)
                    got.append(plain(e))
            else:
                got = plain(x)
            del keep
            if got != ref:
                raise Violation("%s, %d elements read, then %s: %s instead of %s" % (what, before, "+".join(m), repr(got)[:300], repr(ref)[:300]))
            ctx.compared += 1
            # the elements survive the iterator
            if it:
                x = None
                gc.collect()
                c2 = churn()
                late = [plain(e) for e in kept]
                del c2
                if late != ref:
                    raise Violation("%s: elements kept after their iterator: %s instead of %s" % (what, repr(late)[:300], repr(ref)[:300]))
    ctx.outcome((owner, acc, repr(ref)[:100]))


def modified(case, ctx):
    """Arrays, lists and elements obtained from a graph keep their values when the graph is modified."""
    kind, acc, k, seq = case
    make, table, _ = OWNERS[kind]
    o = make(k)
    x = table[acc](o)
    if hasattr(x, "__next__"):
        x = list(x)
    ref = plain(x)
    ctx.state((kind, acc, k, seq))
    for m in seq:
        ctx.op()
        n = o.num_vertices()
        if m == "edge":
            o.add_edge(k % n, (k + 1) % n)
        elif m == "edges":
            o.add_edges(np.arange(100) % n, np.arange(1, 101) % n)
        elif m == "vertices":
            o.add_vertices(50) if hasattr(o, "add_vertices") else o.add_vertex()
        elif m == "remove":
            o.remove_edge(0)
        elif m == "set":
            o.set_edge(1, n - 1, 0)
        keep = churn()
        got = plain(x)
        del keep
        ctx.ok(got == ref, "%s of %s %d, then %r: %s instead of %s" % (acc, kind, k, seq, repr(got)[:300], repr(ref)[:300]))


def groups(tier):
    T = tier == "thorough"

    def g():
        for owner in sorted(OWNERS):
            make, table, n = OWNERS[owner]
            for acc in sorted(table):
                for k in range(4 * n if T else n):
                    for mode in range(3):
                        yield owner, acc, k, mode

    def g2():
        mods = {"graph": ("edge", "edges", "vertices", "remove", "set"), "graph with deletion": ("edge", "edges", "vertices", "remove", "set")}
        for owner in sorted(mods):
            make, table, n = OWNERS[owner]
            for acc in sorted(table):
                for k in range(n):
                    for d in range(1, 3 if T else 2):
                        for seq in itertools.product(mods[owner], repeat=d):
                            yield owner, acc, k, seq
    return [Group("release", g, run, "%d accessors of %d kinds of objects, every number of elements read before the release, three orders of release and reuse of the memory" % (sum(len(OWNERS[o][1]) for o in OWNERS), len(OWNERS))),
            Group("modified", g2, modified, "results of the accessors of graphs, read again after every sequence of modifications")]
