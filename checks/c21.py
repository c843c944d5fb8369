"""All small graphs with all small trees on their vertices, all small images with the trees built on their grids, and all region adjacency
graphs of small images: every region and contour attribute of every node is measured on the set of leaves of the node."""
import itertools
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints, edges_of, tree_regions

ID = "C21"
ASSUMPTIONS = ["Graphs have no self loop; edge lengths and weights are small integers or halves (exact sums).",
               "Frontier strength is compared on nodes with a frontier, compactness on nodes with a contour, its normalized form when every node has a contour.",
               "On region adjacency graphs, the edge weights given to contour and frontier strengths are those of the original graph."]


def same(ctx, got, want, what, skip=(), atol=1e-9):
    ctx.compared += 1
    got, want = np.asarray(got), np.asarray(want, dtype="float64")
    if got.shape != want.shape:
        raise Violation("%s: got shape %r %r, expected shape %r %r" % (what, got.shape, got.tolist(), want.shape, want.tolist()))
    m = [i not in skip for i in range(len(want))]
    if not np.allclose(got[m].astype("float64"), want[m], rtol=1e-6, atol=atol):
        raise Violation("%s: got %r, expected %r%s" % (what, got.tolist(), want.tolist(), " (except at %r)" % sorted(skip) if skip else ""))


def measure(ctx, t, g, L, edges, length, vper, W, what, rag=None, area=None, explicit=False):
    """t hierarchy on g; edges and length describe g; vper perimeter of vertices; W weights of the edges (of the base graph of rag)."""
    p = ints(t.parents())
    n = len(p)
    ls = gen.leaf_sets(p)
    inside = [[e for e, (a, b) in enumerate(edges) if a in s and b in s] for s in ls]
    cross = [[e for e, (a, b) in enumerate(edges) if (a in s) != (b in s)] for s in ls]
    lc = [gen.lca(p, a, b) for a, b in edges]
    fl = [sum(length[e] for e in range(len(edges)) if lc[e] == i) for i in range(n)]
    cl = [sum(vper[v] for v in s) - 2 * sum(length[e] for e in inside[i]) for i, s in enumerate(ls)]
    if rag is None:
        w = [float(x) for x in W]
    else:
        w = [0.0] * len(edges)
        for e, r in enumerate(rag):
            if r >= 0:
                w[r] += float(W[e])
    area = area or [1] * L
    ar = [sum(area[v] for v in s) for s in ls]
    kw = {}
    if explicit:
        kw = {"edge_length": np.array(length, dtype="float64")}
    ctx.op(8)
    same(ctx, hg.attribute_area(t), ar, what + " area")
    same(ctx, hg.attribute_frontier_length(t, **kw), fl, what + " frontier length")
    if explicit:
        kw["vertex_perimeter"] = np.array(vper, dtype="float64")
    c0 = hg.attribute_contour_length(t, **kw)
    same(ctx, c0, cl, what + " contour length")
    if not explicit:
        fw = [sum(w[e] for e in range(len(edges)) if lc[e] == i) for i in range(n)]
        no = [i for i in range(n) if i < L or fl[i] == 0]
        fs = hg.attribute_frontier_strength(t, W)
        same(ctx, fs, [(x / y if W.dtype.kind == "f" else int(x / y)) if y else 0 for x, y in zip(fw, fl)], what + " frontier strength", no)
        ctx.eq(str(fs.dtype), str(W.dtype), what + " type of the frontier strength")
        if all(cl):
            same(ctx, hg.attribute_compactness(t), np.array([a / c ** 2 for a, c in zip(ar, cl)]) / max(a / c ** 2 for a, c in zip(ar, cl)), what + " normalized compactness")
        same(ctx, hg.attribute_compactness(t, normalize=False), [a / c ** 2 if c else 0 for a, c in zip(ar, cl)], what + " compactness", [i for i in range(n) if cl[i] == 0])
        if all(cl[:-1]):
            same(ctx, hg.attribute_contour_strength(t, W), [sum(w[e] for e in cross[i]) / (cl[i] or 1) for i in range(n)], what + " contour strength")
    else:
        c1 = hg.attribute_compactness(t, contour_length=np.array([x or 1 for x in cl]), area=np.array(ar), normalize=False)
        same(ctx, c1, [a / (c or 1) ** 2 for a, c in zip(ar, cl)], what + " compactness with explicit measures")
        if all(cl[:-1]):
            same(ctx, hg.attribute_contour_strength(t, W, **kw), [sum(w[e] for e in cross[i]) / (cl[i] or 1) for i in range(n)], what + " contour strength")
    same(ctx, c0, cl, what + " the contour length changed after later calls")
    same(ctx, hg.attribute_contour_length(t, **kw), cl, what + " contour length computed after the contour strength")
    ctx.outcome((tuple(fl), tuple(cl)))


def graphs(case, ctx):
    L, edges, p = case[0], [tuple(e) for e in case[1]], tuple(case[2])
    k = case[3]
    ctx.state((L, tuple(edges), p, k))
    g = mk_graph(L, edges)
    t = mk_tree(p, "pc"[k % 2])
    hg.CptHierarchy.link(t, g)
    r = gen.lcg(k)
    dt = ("float64", "float32", "int64", "uint8", "int8")[k % 5]
    W = np.array([190 + next(r) % 66 if dt == "uint8" else 127 - 17 * (next(r) % 16) if dt == "int8" else next(r) % 7 - (dt == "float64") for _ in edges], dtype=dt)
    what = "graph of %d vertices with edges %r, tree %r, edge weights %r (%s):" % (L, edges, p, W.tolist(), W.dtype)
    if k % 2:
        length = [1 + next(r) % 6 / 2 for _ in edges]
        vper = [8 + next(r) % 5 for v in range(L)] if k % 4 == 1 else [sum(l for e, l in zip(edges, length) if v in e) for v in range(L)]
        same(ctx, hg.attribute_vertex_perimeter(g, edge_length=np.array(length, dtype="float64")), [sum(l for e, l in zip(edges, length) if v in e) for v in range(L)],
             what + " vertex perimeter with edge lengths %r" % length)
        measure(ctx, t, g, L, edges, length, vper, W, what + " edge lengths %r, perimeters %r:" % (length, vper), explicit=True)
    else:
        ctx.eq([float(x) for x in hg.attribute_edge_length(g)], [1.0] * len(edges), what + " edge length")
        ctx.eq([float(x) for x in hg.attribute_vertex_area(g)], [1.0] * L, what + " vertex area")
        vper = [sum(1 for e in edges if v in e) for v in range(L)]
        ctx.eq([float(x) for x in hg.attribute_vertex_perimeter(g)], [float(x) for x in vper], what + " vertex perimeter")
        measure(ctx, t, g, L, edges, [1] * len(edges), vper, W, what)
        # vertex weights through the hierarchy
        X = np.array([[next(r) % 9 * 31, next(r) % 5] for _ in range(L)], dtype=("uint8", "float64", "int32")[k % 3])
        ls = gen.leaf_sets(p)
        same(ctx, hg.attribute_mean_vertex_weights(t, X), [X[list(s)].astype("float64").mean(axis=0) for s in ls], what + " mean of %r" % X.tolist())
        av = [1 + next(r) % 4 for _ in range(L)]
        t2 = mk_tree(p)
        hg.CptHierarchy.link(t2, g)
        same(ctx, hg.attribute_area(t2, np.array(av)), [sum(av[x] for x in s) for s in ls], what + " area with vertex areas %r" % av)


def make_tree(kind, g, img, shape):
    if kind == "max":
        return hg.component_tree_max_tree(g, img)[0]
    if kind == "min":
        return hg.component_tree_min_tree(g, img)[0]
    w = hg.weight_graph(g, img.astype("float64"), hg.WeightFunction.L1)
    if kind == "qfz":
        return hg.quasi_flat_zone_hierarchy(g, w)[0]
    return hg.bpt_canonical(g, w)[0]


def grids(case, ctx):
    shape, adj, kind, vals = tuple(case[0]), case[1], case[2], case[3]
    k = case[4]
    L = shape[0] * shape[1]
    ctx.state((shape, adj, kind, tuple(vals)))
    img = np.array(vals, dtype=("uint8", "float64", "int32")[k % 3]).reshape(shape)
    g = hg.get_4_adjacency_graph(shape) if adj == 4 else hg.get_8_adjacency_graph(shape)
    edges = edges_of(g)
    border = k % 4 != 3
    if not border:
        hg.set_attribute(g, "no_border_vertex_out_degree", None)
    t = make_tree(kind, g, img, shape)
    r = gen.lcg(k)
    W = np.array([next(r) % 7 for _ in edges], dtype="float64")
    what = "%r image %r, %d adjacency%s, %s tree:" % (shape, vals, adj, "" if border else " without border", kind)
    vper = [adj if border else sum(1 for e in edges if v in e) for v in range(L)]
    ctx.op(4)
    vp = hg.attribute_vertex_perimeter(g)
    ctx.eq((vp.shape, [float(x) for x in vp.ravel()]), (shape, [float(x) for x in vper]), what + " vertex perimeter")
    va = hg.attribute_vertex_area(g)
    ctx.eq((va.shape, [float(x) for x in va.ravel()]), (shape, [1.0] * L), what + " vertex area")
    measure(ctx, t, g, L, edges, [1] * len(edges), vper, W, what)
    p = ints(t.parents())
    ls = gen.leaf_sets(p)
    if kind in ("min", "max") and border:
        got = hg.cpp._attribute_contour_length_component_tree(t, g, np.array(vper, dtype="float64"), np.ones(len(edges)))
        same(ctx, got, [sum(vper[v] for v in s) - 2 * sum(1 for a, b in edges if a in s and b in s) for s in ls], what + " contour length of component trees")
    inertia = []
    for s in ls:
        ys, xs = [v // shape[1] for v in s], [v % shape[1] for v in s]
        my, mx = sum(ys) / len(s), sum(xs) / len(s)
        inertia.append((sum((y - my) ** 2 for y in ys) + sum((x - mx) ** 2 for x in xs)) / len(s) ** 2)
    same(ctx, hg.attribute_moment_of_inertia(t), inertia, what + " moment of inertia")
    same(ctx, hg.attribute_mean_vertex_weights(t, img), [np.mean([vals[v] for v in s]) for s in ls], what + " mean")
    rgb = np.array([[next(r) % 9 for _ in range(3)] for _ in range(L)], dtype="uint8")
    X = rgb.reshape(shape + (3,))
    f = rgb.astype("float64")
    if shape != (1, 1):
        same(ctx, hg.attribute_mean_vertex_weights(t, X), [f[sorted(s)].mean(axis=0) for s in ls], what + " mean of colours %r" % rgb.tolist())
        m, v = hg.attribute_gaussian_region_weights_model(t, X)
        same(ctx, m, [f[sorted(s)].mean(axis=0) for s in ls], what + " Gaussian model of colours %r" % rgb.tolist())
        same(ctx, v, [np.cov(f[sorted(s)].T, bias=True) if len(s) > 1 else np.zeros((3, 3)) for s in ls], what + " covariances of colours %r" % rgb.tolist(), atol=1e-6)
        ctx.raises(lambda: hg.attribute_gaussian_region_weights_model(t, np.zeros(shape + (2, 2))), what + " Gaussian model of matrices")
    m, v = hg.attribute_gaussian_region_weights_model(t, img)
    same(ctx, m, [np.mean([vals[x] for x in s]) for s in ls], what + " Gaussian model")
    same(ctx, v, [np.var([vals[x] for x in s]) for s in ls], what + " variances", atol=1e-6)
    area = np.array([1 + next(r) % 3 for _ in range(L)], dtype="float64").reshape(shape)
    t2 = make_tree(kind, g, img, shape)
    same(ctx, hg.attribute_area(t2, area), [sum(area.ravel()[v] for v in s) for s in tree_regions(t2)], what + " area with vertex areas %r" % area.tolist())


def rags(case, ctx):
    shape, lab = tuple(case[0]), case[1]
    k = case[2]
    ctx.state((shape, tuple(lab)))
    g = hg.get_4_adjacency_graph(shape)
    base = edges_of(g)
    rag = hg.make_region_adjacency_graph_from_labelisation(g, np.array(lab, dtype="int64").reshape(shape))
    vm = ints(hg.CptRegionAdjacencyGraph.construct(rag)["vertex_map"])
    em = ints(hg.CptRegionAdjacencyGraph.construct(rag)["edge_map"])
    R = rag.num_vertices()
    red = edges_of(rag)
    what = "%r labels %r:" % (shape, lab)
    cnt = [sum(1 for e in range(len(base)) if em[e] == i) for i in range(len(red))]
    for e, (a, b) in enumerate(base):
        ctx.ok((em[e] < 0) == (vm[a] == vm[b]) and (em[e] < 0 or set(red[em[e]]) == {vm[a], vm[b]}), what + " edge map")
    area = [vm.count(i) for i in range(R)]
    vper = [sum(l for e, l in zip(red, cnt) if v in e) for v in range(R)]
    r = gen.lcg(k)
    ctx.op(3)
    ctx.eq([float(x) for x in hg.attribute_edge_length(rag)], [float(x) for x in cnt], what + " edge length of the region adjacency graph")
    ctx.eq([float(x) for x in hg.attribute_vertex_area(rag)], [float(x) for x in area], what + " vertex area of the region adjacency graph")
    ctx.eq([float(x) for x in hg.attribute_vertex_perimeter(rag)], [float(x) for x in vper], what + " vertex perimeter of the region adjacency graph")
    if not red:
        return
    W = np.array([next(r) % 7 * 42 for _ in base], dtype=("float64", "uint8")[k // 2 % 2])
    rw = np.array([next(r) % 3 for _ in red], dtype="float64")
    t = (hg.bpt_canonical if k % 2 else hg.quasi_flat_zone_hierarchy)(rag, rw)[0]
    w2 = what + " tree %r, edge weights %r:" % (ints(t.parents()), W.tolist())
    if len(red) != len(base):
        measure(ctx, t, rag, R, red, cnt, vper, W, w2, rag=em, area=area)
    p = ints(t.parents())
    ls = gen.leaf_sets(p)
    X = np.array([next(r) % 9 for _ in range(R)], dtype="float64")
    got = hg.attribute_mean_vertex_weights(t, X * np.array(area))
    same(ctx, got, [sum(X[v] * area[v] for v in s) / sum(area[v] for v in s) for s in ls], w2 + " mean of the sums of the regions")
    # the same tree with the leaf graph given explicitly
    t3 = hg.Tree(np.array(p))
    if k % 3:
        hg.CptHierarchy.link(t3, mk_graph(R, []))
    ctx.op(6)
    same(ctx, hg.attribute_area(t3, leaf_graph=rag), [sum(area[v] for v in s) for s in ls], w2 + " area with an explicit leaf graph")
    same(ctx, hg.attribute_mean_vertex_weights(t3, X * np.array(area), leaf_graph=rag), np.asarray(got), w2 + " mean with an explicit leaf graph")
    for f in (hg.attribute_frontier_length, hg.attribute_contour_length, hg.attribute_lca_map, lambda x, **q: hg.attribute_compactness(x, normalize=False, **q)):
        a, b = f(t3, leaf_graph=rag), f(t)
        same(ctx, a, np.asarray(b), w2 + " attribute with an explicit leaf graph", [i for i in range(len(b)) if not np.isfinite(b[i])])
    # a second level
    if R > 2:
        lab2 = np.array([next(r) % (R - 1) for _ in range(R)], dtype="int64")
        rag2 = hg.make_region_adjacency_graph_from_labelisation(rag, lab2)
        d2 = hg.CptRegionAdjacencyGraph.construct(rag2)
        vm2, em2 = ints(d2["vertex_map"]), ints(d2["edge_map"])
        w3 = what + " then region labels %r:" % lab2.tolist()
        ctx.eq([float(x) for x in hg.attribute_edge_length(rag2)], [float(sum(c for c, e in zip(cnt, em2) if e == i)) for i in range(rag2.num_edges())], w3 + " edge length")
        ctx.eq([float(x) for x in hg.attribute_vertex_area(rag2)], [float(sum(a for a, v in zip(area, vm2) if v == i)) for i in range(rag2.num_vertices())], w3 + " vertex area")


def coordinates(case, ctx):
    shape = tuple(case)
    ctx.state(shape)
    ctx.op()
    if len(shape) == 2:
        g = hg.get_4_adjacency_graph(shape)
    else:
        g = hg.get_nd_regular_graph(shape, [[0] * i + [1] + [0] * (len(shape) - i - 1) for i in range(len(shape))])
    got = hg.attribute_vertex_coordinates(g)
    want = np.array(list(itertools.product(*map(range, shape)))).reshape(shape + (len(shape),))
    ctx.eq((got.shape, ints(got)), (want.shape, ints(want)), "vertex coordinates of a grid of shape %r" % (shape,))


def groups(tier):
    deep = tier != "quick"

    def gr():
        k = 0
        for L in (1, 2, 3, 4):
            gs = list(gen.multigraphs(L, (0, 0, 3, 4, 3)[L], loops=False))
            if L == 4:
                gs += [list(e) for e in gen.simple_graphs(4) if len(e) > 3]
            ts = [p for n in range(1, L + (4 if L < 4 else 3)) for p in gen.trees_exact(n) if gen.num_leaves(p) == L]
            for i, es in enumerate(gs):
                for j, p in enumerate(ts):
                    if L == 4 and not deep and (i + j) % 6:
                        continue
                    k += 1
                    yield [L, [(b, a) if (a + b + k) % 2 else (a, b) for a, b in es], list(p), k]
        for q in range(800 if deep else 80):
            r = gen.lcg(q)
            L = 5 + q % 5
            es = [(a, b) for a, b in ((next(r) % L, next(r) % L) for _ in range(3 * L)) if a != b]
            yield [L, es, list(gen.scattered_tree(L + 3 + q % 4, L, q)), q]

    def gd():
        k = 0
        for shape, vals in (((1, 1), 2), ((1, 2), 3), ((2, 1), 3), ((3, 1), 3), ((1, 3), 3), ((2, 2), 3), ((4, 1), 2), ((2, 3), 2), ((3, 2), 2), ((3, 3), 2)):
            for i, v in enumerate(itertools.product(range(vals), repeat=shape[0] * shape[1])):
                for adj in (4, 8):
                    for kind in ("min", "max", "qfz", "bpt"):
                        k += 1
                        if shape[0] * shape[1] == 1 and kind in ("qfz", "bpt"):
                            continue
                        if shape[0] * shape[1] < 6 or deep or (k * 7 + i) % (64 if shape == (3, 3) else 5) == 0:
                            yield [shape, adj, kind, v, k + i]
        for q in range(400 if deep else 40):
            r = gen.lcg(q)
            shape = (3 + q % 3, 3 + q % 4)
            yield [shape, 4 + 4 * (q % 2), ("min", "max", "qfz", "bpt")[q // 2 % 4], [next(r) % 5 for _ in range(shape[0] * shape[1])], q]

    def rg():
        for shape in ((1, 2), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2)):
            for k, lab in enumerate(gen.set_partitions(shape[0] * shape[1])):
                for o in range(4 if deep or shape[0] * shape[1] < 5 else 1):
                    yield [shape, list(lab), k * 4 + o]
        for q in range(600 if deep else 60):
            r = gen.lcg(q)
            yield [(3, 3 + q % 3), [next(r) % (2 + q % 6) for _ in range(3 * (3 + q % 3))], q]

    def co():
        for d in (1, 2, 3, 4):
            for s in itertools.product((1, 2, 3, 4)[:5 - (d > 2) - (d > 3)], repeat=d):
                yield list(s)
    return [Group("graphs", gr, graphs, "all multigraphs of at most 4 vertices with all trees on them, default and explicit lengths and perimeters", limit=20),
            Group("grids", gd, grids, "all images over two or three values up to 3x2 (and some of 3x3), 4 and 8 adjacency, with and without border, component, quasi flat zone and partition trees", limit=30),
            Group("region adjacency graphs", rg, rags, "all labellings of images of at most 6 pixels, regions of regions", limit=20),
            Group("coordinates", co, coordinates, "all grids of 1 to 4 dimensions of sides at most 4")]
