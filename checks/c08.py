"""C08: minimum spanning trees and canonical partition trees against Kruskal on sets and threshold components: all multigraphs, weight orders and forms of input."""
import itertools
import numpy as np
import higra as hg
from vf.core import Group, Violation
from vf import gen
from vf.util import ints, mk_graph, edges_of

ID = "C08"
ASSUMPTIONS = ["multigraphs of at most 5 vertices and 5 edges with every weight order (ties included); larger graphs belong to fixed families",
               "equal weights are ordered by edge index (the documented stable sort) in the canonical partition tree; any minimal tree is accepted from minimum_spanning_tree",
               "NaN weights are not specified"]


def kruskal(n, edges, order):
    """parents and building edges, on sets of vertices."""
    reg = [frozenset([v]) for v in range(n)]
    node = {r: v for v, r in enumerate(reg)}
    parents, emap = list(range(max(2 * n - 1, 0))), []
    for e in order:
        a, b = reg[edges[e][0]], reg[edges[e][1]]
        if a == b:
            continue
        c = a | b
        node[c] = n + len(emap)
        parents[node[a]] = parents[node[b]] = node[c]
        for v in c:
            reg[v] = c
        emap.append(e)
    return parents[:n + len(emap)], emap


def thresholds(n, edges, w, ctx, what, tree, alt):
    """The regions of altitude at most t that are maximal are the components of the edges of weight at most t."""
    p = ints(tree.parents())
    reg = gen.leaf_sets(p)
    a = [0] * n + [x for x in np.asarray(alt)[n:].tolist()]
    for t in sorted(set(w)):
        lab = gen.components(n, [e for e, x in zip(edges, w) if x <= t])
        want = {frozenset(v for v in range(n) if lab[v] == l) for l in set(lab)}
        got = {frozenset(reg[i]) for i in range(len(p)) if (i < n or a[i] <= t) and (i == len(p) - 1 or a[p[i]] > t)}
        ctx.ok(got == want, "%s: partition at level %r is %r, expected %r" % (what, t, sorted(map(sorted, got)), sorted(map(sorted, want))))


def check_mst(mst, emap, n, edges, w, ctx, what):
    ctx.compared += 1
    emap = ints(emap)
    if len(set(emap)) != len(emap) or any(not 0 <= e < len(edges) for e in emap):
        raise Violation("%s: edge map %r" % (what, emap))
    got = edges_of(mst)
    ctx.eq(mst.num_vertices(), n, what + " vertices of the minimum spanning tree")
    ctx.ok([tuple(sorted(e)) for e in got] == [tuple(sorted(edges[e])) for e in emap], "%s: edge map %r does not designate the edges %r of the tree" % (what, emap, got))
    for t in sorted(set(w)):
        a = gen.components(n, [edges[e] for e in range(len(edges)) if w[e] <= t])
        b = gen.components(n, [edges[e] for e in emap if w[e] <= t])
        ctx.ok(a == b, "%s: edges %r do not span the components of level %r" % (what, emap, t))
    ctx.ok(len(emap) == n - len(set(gen.components(n, edges))), "%s: %d edges" % (what, len(emap)))
    if w:
        ctx.ok(sum(w[e] for e in emap) == min_forest(n, tuple(edges), tuple(w)), what + " total weight")


def min_forest(n, edges, w):
    """Minimal weight of the spanning forests, by enumeration of all of them."""
    k = n - len(set(gen.components(n, edges)))
    if len(edges) > 8:
        return sum(w[e] for e in kruskal(n, edges, sorted(range(len(edges)), key=lambda e: w[e]))[1])
    return min(sum(w[e] for e in s) for s in itertools.combinations(range(len(edges)), k) if n - len(set(gen.components(n, [edges[e] for e in s]))) == k)


def bpt(res, n, edges, w, order, alt_of, ctx, what, graph=None):
    tree, alt = res
    ctx.op()
    parents, emap = kruskal(n, edges, order)
    ctx.eq(ints(tree.parents()), parents, what + " parents")
    ctx.eq(ints(tree.mst_edge_map), emap, what + " mst_edge_map")
    ctx.eq(ints(hg.CptBinaryHierarchy.get_mst_edge_map(tree)), emap, what + " mst_edge_map (concept)")
    if alt is not None:
        ctx.eq(np.asarray(alt).tolist(), alt_of(emap), what + " altitudes")
    ctx.ok(tree.category() == hg.TreeCategory.PartitionTree, what + " category")
    if graph is not None:
        ctx.ok(hg.CptHierarchy.get_leaf_graph(tree) is graph, what + " leaf graph")
        mst = hg.CptBinaryHierarchy.get_mst(tree)
        ctx.ok(hg.CptMinimumSpanningTree.get_base_graph(mst) is graph, what + " base graph of the mst")
        check_mst(mst, hg.CptMinimumSpanningTree.get_edge_map(mst), n, edges, w, ctx, what)
        ctx.eq(ints(hg.CptMinimumSpanningTree.get_edge_map(mst)), emap, what + " edge map of the mst")
    return emap


def run(case, ctx):
    n, edges, w = case[0], [tuple(e) for e in case[1]], list(case[2])
    ctx.state((n, tuple(edges), tuple(w)))
    m = len(edges)
    what = "graph of %d vertices, edges %r, weights %r:" % (n, edges, w)
    order = sorted(range(m), key=lambda e: w[e])
    conn = gen.connected(n, edges)
    ws = [("int64", w), ("float64", [x - 1.5 for x in w]), ("uint8", [x + 230 for x in w]), ("float64", gen.scaled(w, "float64", 1)), ("int64", gen.scaled(w, "int64", 1))] if m < 5 or len(case) > 3 else [("int32", [-x for x in w])]
    for dt, v in ws:
        o = sorted(range(m), key=lambda e: v[e])
        g = mk_graph(n, edges)
        a = np.array(v, dtype=dt)
        mst = hg.minimum_spanning_tree(g, a)
        ctx.op()
        ctx.ok(hg.CptMinimumSpanningTree.get_base_graph(mst) is g, what + " base graph")
        check_mst(mst, mst.mst_edge_map, n, edges, v, ctx, what + " minimum_spanning_tree " + dt)
        for k in (m - 1, m + 1):
            if k >= 0 and dt == "float64":
                ctx.raises(lambda: hg.minimum_spanning_tree(g, np.zeros(k)), what + " minimum_spanning_tree with %d weights" % k)
                ctx.raises(lambda: hg.bpt_canonical(g, np.zeros(k)), what + " bpt_canonical with %d weights" % k)
        if not conn:
            ctx.raises(lambda: hg.bpt_canonical(g, a), what + " bpt_canonical")
            continue
        f = lambda em: [0] * n + [v[e] for e in em]
        r = hg.bpt_canonical(g, a)
        ctx.ok(np.asarray(r[1]).dtype == a.dtype, what + " type of the altitudes")
        em = bpt(r, n, edges, v, o, f, ctx, what + " bpt_canonical " + dt, g)
        ctx.ok(all(x <= y for x, y in zip(r[1][n:], r[1][n + 1:])), what + " altitudes decrease")
        thresholds(n, edges, v, ctx, what, *r)
        ctx.outcome((tuple(ints(r[0].parents())), tuple(em)))
        # a spanning tree given as the graph
        w2 = a[mst.mst_edge_map]
        r2 = hg.bpt_canonical(mst, w2)
        em0 = ints(mst.mst_edge_map)
        o2 = sorted(em0, key=lambda e: v[e])
        bpt(r2, n, edges, v, o2, f, ctx, what + " bpt_canonical of its minimum spanning tree " + dt, g)
    if not conn or not (m < 5 or len(case) > 3):
        return
    g = mk_graph(n, edges)
    a = np.array(w)
    f = lambda em: [0] * n + [w[e] for e in em]
    t = hg.bpt_canonical(g, a, return_altitudes=False, compute_mst=False)
    bpt((t, None), n, edges, w, order, f, ctx, what + " without altitudes and mst", g)
    s, tt = [e[0] for e in edges], [e[1] for e in edges]
    for x, y in ((np.array(s), np.array(tt)), (tuple(s), tuple(tt))):
        if m:
            bpt(hg.bpt_canonical((x, y, n), a), n, edges, w, order, f, ctx, what + " bpt_canonical of edge lists")
    perms = list(itertools.permutations(range(m))) if m < 4 else [tuple(range(m)), tuple(range(m))[::-1], tuple(order[::-1]), tuple(range(m // 2, m)) + tuple(range(m // 2))]
    for o in perms:
        rank = {e: k for k, e in enumerate(o)}
        g = mk_graph(n, edges)
        for dt in ("int64", "int32", "uint64"):
            oo = np.array(o, dtype=dt)
            bpt(hg.bpt_canonical(g, sorted_edge_indices=oo), n, edges, [rank[e] for e in range(m)], o, lambda em: [0] * n + [rank[e] for e in em], ctx, what + " bpt_canonical in order %r" % (o,), g)
        bpt(hg.bpt_canonical(g, a, oo.astype(np.int64)), n, edges, [rank[e] for e in range(m)], o, f, ctx, what + " bpt_canonical in order %r with weights" % (o,), g)
    # lexicographic order of vectors
    if m:
        for shape in ((2,), (2, 2), (1,)):
            k = int(np.prod(shape))
            V = [[w[e]] + [(3 * e + j) % 2 for j in range(k - 1)] for e in range(m)]
            o = sorted(range(m), key=lambda e: V[e])
            g = mk_graph(n, edges)
            r = hg.bpt_canonical(g, np.array(V).reshape((m,) + shape))
            rank = {}
            ctx.eq(np.asarray(r[1]).shape, (2 * n - 1,) + shape, what + " shape of vectorial altitudes")
            bpt((r[0], np.asarray(r[1]).reshape(2 * n - 1, k)), n, edges, [sorted(V).index(V[e]) for e in range(m)], o,
                lambda em: [[0] * k] * n + [V[e] for e in em], ctx, what + " vectorial weights %r" % V, g)
    ctx.raises(lambda: hg.bpt_canonical(mk_graph(n, edges)), what + " bpt_canonical without weights")


def families():
    for h, w_ in ((3, 3), (2, 5), (1, 8), (4, 4)):
        es = gen.grid_edges(h, w_, 8)
        for q in range(6):
            r = gen.lcg(17 * q + h)
            yield [h * w_, es, [next(r) % (2 + 3 * q) for _ in es], 1]
    for n in (16, 33):
        for q in range(3):
            r = gen.lcg(q + n)
            es = [(i, next(r) % i if q else i - 1) for i in range(1, n)] + [(next(r) % n, next(r) % n) for _ in range(n)]
            yield [n, es, [next(r) % 7 for _ in es], 1]


def groups(tier):
    deep = tier != "quick"

    def all_():
        for n in range(0, 5 if not deep else 6):
            for es in gen.multigraphs(n, 3 if not deep else 4 if n > 3 else 5):
                flip = [(b, a) if k % 2 else (a, b) for k, (a, b) in enumerate(es)]
                for w in gen.weak_orders(len(es)):
                    yield [n, flip, list(w)]
        if not deep:
            for es in gen.multigraphs(4, 4, mmin=4, loops=False):
                if gen.connected(4, es):
                    for w in gen.weak_orders(4):
                        yield [4, es, list(w)]
        for es in gen.multigraphs(4, 6 if deep else 5, mmin=5, loops=False):
            if len(set(es)) == len(es) and gen.connected(4, es):
                ws = gen.weak_orders(len(es))
                for w in ws[::1 if deep and len(es) == 5 else 7]:
                    yield [4, es, list(w)]
    return [Group("all", all_, run, "all multigraphs (loops, parallel edges, unconnected) of at most %s with all weak orders of weights" % ("5 vertices, 5 (n<=3) or 4 edges" if deep else "4 vertices and 3 edges; connected ones with 4 edges")),
            Group("families", families, run, "grids and scattered graphs of 8 to 33 vertices")]
