"""All small multigraphs with all labellings and all cuts through the conversions, region adjacency graphs, accumulations and back-projections, against connected components and direct sums."""
import itertools
import numpy as np
import higra as hg
from vf import gen, acc
from vf.core import Group, Violation
from vf.util import mk_graph, ints, edges_of

ID = "C14"
ASSUMPTIONS = ["A region is a maximal connected set of vertices of the same label (or linked by edges of weight 0); the order of the vertices and edges of the region adjacency graph is free."]
INT = ["int64", "uint8", "int32", "int8", "uint16", "uint64", "int16", "uint32"]
NUM = INT + ["float64", "float32"]
ACC = ["min", "max", "mean", "sum", "counter", "prod", "first", "last", "argmin", "argmax"]


def fold(name, xs):
    if name == "min": return min(xs)
    if name == "max": return max(xs)
    if name == "mean": return sum(xs) / len(xs) if isinstance(xs[0], float) else sum(xs) // len(xs)
    if name == "sum": return sum(xs)
    if name == "counter": return len(xs)
    if name == "prod": return float(np.prod(np.array(xs, dtype=float)))
    if name == "first": return xs[0]
    if name == "last": return xs[-1]
    if name == "argmin": return xs.index(min(xs))
    if name == "argmax": return xs.index(max(xs))


def rag_check(ctx, rag, g, n, edges, comp, k, what):
    """rag against the partition comp of the vertices."""
    vm, em = ints(hg.CptRegionAdjacencyGraph.get_vertex_map(rag)), ints(hg.CptRegionAdjacencyGraph.get_edge_map(rag))
    ctx.ok(hg.CptRegionAdjacencyGraph.get_pre_graph(rag) is g and hg.CptRegionAdjacencyGraph.validate(rag), what + " concept")
    ctx.eq(len(vm), n, what + " size of the vertex map")
    ctx.eq(gen.canon_labels(vm), gen.canon_labels(comp), what + " vertex map %r" % vm)
    R = len(set(comp))
    ctx.eq(sorted(set(vm)), list(range(R)), what + " vertex map")
    ctx.eq(rag.num_vertices(), R, what + " number of regions")
    re = edges_of(rag)
    want = {tuple(sorted((vm[a], vm[b]))) for a, b in edges if vm[a] != vm[b]}
    ctx.eq(sorted(tuple(sorted(e)) for e in re), sorted(want), what + " edges")
    ctx.eq(em, [-1 if vm[a] == vm[b] else [tuple(sorted(e)) for e in re].index(tuple(sorted((vm[a], vm[b])))) for a, b in edges], what + " edge map")
    for v in range(R):
        ctx.eq(rag.degree(v), sum(v in e for e in re), what + " degree")
    # accumulation
    for j, name in enumerate(ACC):
        A = getattr(hg.Accumulators, name)
        dt = NUM[(j + k) % len(NUM)] if name != "prod" else ["int64", "float64", "int32", "uint64"][k % 4]
        if n > 5 and name in ("sum", "prod"):
            dt = ["int64", "float64", "uint64"][k % 3]
        vw = np.array([(3 * v * v + k + j) % 5 + (v == 2) for v in range(n)], dtype=dt)
        ctx.op(2)
        got = hg.rag_accumulate_on_vertices(rag, A, vertex_weights=vw) if j % 2 else hg.rag_accumulate_on_vertices(rag, A, vw)
        ctx.eq([round(float(x), 5) for x in np.asarray(got).tolist()], [round(float(fold(name, [vw.tolist()[v] for v in range(n) if vm[v] == r])), 5) for r in range(R)], what + " %s of vertex weights %r (%s)" % (name, vw.tolist(), dt))
        ew = np.array([(5 * e * e + k + 2 * j) % (7 if n <= 5 else 3) for e in range(len(edges))], dtype=dt)
        got = hg.rag_accumulate_on_edges(rag, A, edge_weights=ew)
        ctx.eq([round(float(x), 5) for x in np.asarray(got).tolist()], [round(float(fold(name, [ew.tolist()[e] for e in range(len(edges)) if em[e] == r])), 5) for r in range(len(re))], what + " %s of edge weights %r (%s)" % (name, ew.tolist(), dt))
        if name not in ("argmin", "argmax"):
            v2 = np.stack([vw, vw[::-1]], axis=1)
            got = hg.rag_accumulate_on_vertices(rag, A, v2)
            want2 = [[float(fold(name, [x[c] for x, y in zip(v2.tolist(), vm) if y == r])) for c in range(2)] for r in range(R)]
            if name == "counter":
                want2 = [x[0] for x in want2] if np.asarray(got).ndim == 1 else [[x[0]] if np.asarray(got).shape[1] == 1 else x for x in want2]
            ctx.eq(np.asarray(got).astype(float).round(5).tolist(), np.round(want2, 5).tolist(), what + " %s of vectorial vertex weights" % name)
            if re:
                e2 = np.stack([ew, ew[::-1], ew], axis=1)
                got = hg.rag_accumulate_on_edges(rag, A, e2)
                want2 = [[float(fold(name, [x[c] for x, y in zip(e2.tolist(), em) if y == r])) for c in range(3)] for r in range(len(re))]
                if name == "counter":
                    want2 = [x[0] for x in want2] if np.asarray(got).ndim == 1 else [[x[0]] if np.asarray(got).shape[1] == 1 else x for x in want2]
                ctx.eq(np.asarray(got).astype(float).round(5).tolist(), np.round(want2, 5).tolist(), what + " %s of vectorial edge weights" % name)
    # back-projection
    dt = NUM[k % len(NUM)]
    rv = np.array([7 * r + 1 for r in range(R)], dtype=dt)
    ctx.op(4)
    got = hg.rag_back_project_vertex_weights(rag, rv)
    ctx.eq(np.asarray(got).ravel().tolist(), [rv[r].item() for r in vm], what + " projection of vertex weights")
    ctx.eq(got.dtype, rv.dtype, what + " type of projected vertex weights")
    rw = np.array([5 * r + 2 for r in range(len(re))], dtype=dt)
    got = hg.rag_back_project_edge_weights(rag, rw)
    ctx.eq(got.tolist(), [rw[r].item() if r >= 0 else 0 for r in em], what + " projection of edge weights")
    ctx.eq(got.dtype, rw.dtype, what + " type of projected edge weights")
    got = hg.rag_back_project_vertex_weights(rag, np.stack([rv, rv // 3], axis=1))
    ctx.eq(np.asarray(got).reshape(n, 2).tolist(), [[rv[r].item(), rv[r].item() // 3] for r in vm], what + " projection of vectorial vertex weights")
    if re:
        got = hg.rag_back_project_edge_weights(rag, np.stack([rw, rw // 3], axis=1))
        ctx.eq(got.tolist(), [[rw[r].item(), rw[r].item() // 3] if r >= 0 else [0, 0] for r in em], what + " projection of vectorial edge weights")
    ctx.raises(lambda: hg.rag_back_project_vertex_weights(rag, np.zeros(R + 1)), what + " too many vertex weights")
    ctx.raises(lambda: hg.rag_back_project_edge_weights(rag, np.zeros(len(re) + 1)), what + " too many edge weights")
    if R > 1:
        ctx.raises(lambda: hg.rag_back_project_vertex_weights(rag, np.zeros(R - 1)), what + " not enough vertex weights")
    ctx.raises(lambda: hg.rag_accumulate_on_vertices(rag, hg.Accumulators.sum, np.zeros(n + 1)), what + " too many vertex weights to accumulate")
    ctx.raises(lambda: hg.rag_accumulate_on_edges(rag, hg.Accumulators.sum, np.zeros(len(edges) + 1)), what + " too many edge weights to accumulate")
    return vm, re


def labelling(case, ctx):
    n, edges, lab, k = case
    edges = [tuple(e) for e in edges]
    ctx.state((n, tuple(edges), tuple(lab)))
    g = mk_graph(n, edges)
    dt = INT[k % len(INT)]
    names = [[0, 1, 2, 3, 4], [5, 0, 7, 1, 2], [100, 3, 99, 0, 7], [2, 1, 0, 4, 3]][k % 4]
    if dt[0] == "i" and k % 3 == 0:
        names = [-1, 0, -7, 3, -2]
    L = np.array([names[x] for x in lab], dtype=dt)
    what = "graph of %d vertices, edges %r, labels %r (%s):" % (n, edges, L.tolist(), dt)
    comp = gen.components(n, [e for e in edges if lab[e[0]] == lab[e[1]]])
    ctx.op(3)
    cut = hg.labelisation_2_graph_cut(g, L)
    ctx.eq([x != 0 for x in cut.tolist()], [lab[a] != lab[b] for a, b in edges], what + " cut %r" % cut.tolist())
    back = ints(hg.graph_cut_2_labelisation(g, cut))
    ctx.eq(gen.canon_labels(back), gen.canon_labels(comp), what + " labels of the cut")
    ctx.eq(sorted(set(back)), list(range(1, len(set(comp)) + 1)), what + " labels of the cut")
    rag = hg.make_region_adjacency_graph_from_labelisation(g, L)
    vm, re = rag_check(ctx, rag, g, n, edges, comp, k, what + " rag of labels:")
    rag2 = hg.make_region_adjacency_graph_from_graph_cut(g, cut)
    rag_check(ctx, rag2, g, n, edges, comp, k + 1, what + " rag of the cut:")
    # a region adjacency graph of the region adjacency graph
    R = rag.num_vertices()
    if R > 1:
        l2 = [(r + k) % 2 for r in range(R)]
        top = hg.make_region_adjacency_graph_from_labelisation(rag, np.array(l2))
        c2 = gen.components(R, [e for e in re if l2[e[0]] == l2[e[1]]])
        v2, _ = rag_check(ctx, top, rag, R, re, c2, k, what + " rag of the rag:")
        w = np.arange(top.num_vertices()) * 3 + 1
        ctx.eq(ints(hg.rag_back_project_vertex_weights(rag, hg.rag_back_project_vertex_weights(top, w))), [3 * v2[r] + 1 for r in vm], what + " two projections")
    ctx.outcome((tuple(vm), tuple(re)))
    ctx.raises(lambda: hg.labelisation_2_graph_cut(g, np.zeros(n + 1, dtype=int)), what + " too many labels")
    ctx.raises(lambda: hg.make_region_adjacency_graph_from_labelisation(g, np.zeros(n + 1, dtype=int)), what + " too many labels")
    ctx.raises(lambda: hg.make_region_adjacency_graph_from_graph_cut(g, np.zeros(len(edges) + 1)), what + " too many weights")
    ctx.raises(lambda: hg.graph_cut_2_labelisation(g, np.zeros(len(edges) + 1)), what + " too many weights")


def cuts(case, ctx):
    n, edges, w, k = case
    edges = [tuple(e) for e in edges]
    ctx.state((n, tuple(edges), tuple(w)))
    g = mk_graph(n, edges)
    dt = NUM[k % len(NUM)]
    names = [0, 1, 2] if dt[0] == "u" else [0, -1, 3] if dt[0] == "i" else [0, 0.25, -1e-3]
    W = np.array([names[x] for x in w], dtype=dt)
    what = "graph of %d vertices, edges %r, cut %r (%s):" % (n, edges, W.tolist(), dt)
    comp = gen.components(n, [e for e, x in zip(edges, w) if x == 0])
    ctx.op(3)
    lab = ints(hg.graph_cut_2_labelisation(g, W))
    ctx.eq(gen.canon_labels(lab), gen.canon_labels(comp), what + " labels")
    ctx.eq(sorted(set(lab)), list(range(1, len(set(comp)) + 1)), what + " labels")
    rag_check(ctx, hg.make_region_adjacency_graph_from_graph_cut(g, W), g, n, edges, comp, k, what)
    cut = hg.labelisation_2_graph_cut(g, hg.graph_cut_2_labelisation(g, W))
    ctx.eq([x != 0 for x in cut.tolist()], [comp[a] != comp[b] for a, b in edges], what + " cut of the labels")
    ctx.outcome(tuple(lab))


def grids(case, ctx):
    """Images: labels and weights have the shape of the image."""
    shape, adj, q = case
    g = hg.get_4_adjacency_graph(shape) if adj == 4 else hg.get_8_adjacency_graph(shape)
    n = shape[0] * shape[1]
    edges = edges_of(g)
    r = gen.lcg(q)
    lab = [next(r) % (2 + q % 3) for _ in range(n)]
    ctx.state((tuple(shape), adj, tuple(lab)))
    L = np.array(lab, dtype=INT[q % len(INT)]).reshape(shape)
    what = "%r image, labels %r:" % (shape, L.tolist())
    comp = gen.components(n, [e for e in edges if lab[e[0]] == lab[e[1]]])
    ctx.op(3)
    cut = hg.labelisation_2_graph_cut(g, L)
    ctx.eq([x != 0 for x in cut.tolist()], [lab[a] != lab[b] for a, b in edges], what + " cut")
    back = hg.graph_cut_2_labelisation(g, cut)
    ctx.eq(back.shape, tuple(shape), what + " shape of the labels")
    ctx.eq(gen.canon_labels(back.ravel()), gen.canon_labels(comp), what + " labels of the cut")
    rag = hg.make_region_adjacency_graph_from_labelisation(g, L)
    vm, re = rag_check(ctx, rag, g, n, edges, comp, q, what)
    rag_check(ctx, hg.make_region_adjacency_graph_from_graph_cut(g, cut), g, n, edges, comp, q, what + " rag of the cut:")
    img = np.array([(i * i) % 11 for i in range(n)]).reshape(shape)
    s = hg.rag_accumulate_on_vertices(rag, hg.Accumulators.sum, img)
    ctx.eq(ints(s), [sum((i * i) % 11 for i in range(n) if vm[i] == c) for c in range(len(set(comp)))], what + " sum of an image")
    p = hg.rag_back_project_vertex_weights(rag, s)
    ctx.eq(p.shape, tuple(shape), what + " shape of a projection")
    rgb = np.stack([img, 2 * img, img + 1], axis=2)
    s = hg.rag_accumulate_on_vertices(rag, hg.Accumulators.max, rgb)
    ctx.eq(s.tolist(), [[max(rgb.reshape(n, 3)[i][c].item() for i in range(n) if vm[i] == x) for c in range(3)] for x in range(len(set(comp)))], what + " maximum of a colour image")
    ctx.eq(hg.rag_back_project_vertex_weights(rag, s).shape, tuple(shape) + (3,), what + " shape of a colour projection")
    ctx.outcome((tuple(vm), tuple(re)))


def groups(tier):
    deep = tier != "quick"

    def graphs(n3, n4):
        yield 1, []
        yield 1, [(0, 0)]
        yield 1, [(0, 0), (0, 0)]
        for n, mm in ((2, 3), (3, n3)):
            for es in gen.multigraphs(n, mm):
                yield n, es
        for i, es in enumerate(gen.simple_graphs(4)):
            yield 4, es if i % 2 else es[::-1]
        for es in ([(4, 0), (1, 3), (2, 0), (3, 1), (4, 2)], [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)], [(3, 4), (2, 3), (1, 2), (0, 1)], [(0, 4), (1, 4), (2, 4), (3, 4), (0, 1)], list(itertools.combinations(range(5), 2))):
            yield 5, es

    def labels():
        k = 0
        for n, es in graphs(4 if deep else 3, 6):
            for lab in gen.set_partitions(n):
                k += 1
                if n < 4 or deep or k % 2 == 0:
                    yield [n, es, list(lab), k]

    def allcuts():
        k = 0
        for n, es in graphs(4 if deep else 3, 6):
            for w in itertools.product(range(2), repeat=len(es)):
                k += 1
                if len(es) < 4 or (deep and len(es) < 8) or k % 7 == 0 and len(es) < 8 or k % 29 == 0:
                    yield [n, es, [x * (1 + (i + k) % 2) for i, x in enumerate(w)], k]

    def images():
        for shape in ((1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 3), (4, 5), (7, 6), (3, 12)):
            for adj in (4, 8):
                for q in range(40 if deep else 8):
                    yield [shape, adj, q]
    return [Group("labellings", labels, labelling, "all multigraphs of 3 vertices and %d edges (self loops), all graphs of 4 vertices, 5 graphs of 5 vertices, all partitions" % (4 if deep else 3)),
            Group("cuts", allcuts, cuts, "the same graphs, all cuts"),
            Group("images", images, grids, "9 shapes, 4 and 8 adjacency")]
