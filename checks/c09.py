"""C09: quasi-flat zones, saliency maps and ultrametrics against threshold components and min-max paths: all multigraphs, weight orders and hierarchies, conversions in both directions."""
import itertools
import numpy as np
import higra as hg
from vf.core import Group, Violation
from vf import gen
from vf.util import ints, mk_graph, mk_tree, edges_of

ID = "C09"
ASSUMPTIONS = ["multigraphs of at most 5 vertices and hierarchies of at most 5 leaves; weights non negative where leaves (altitude 0) matter",
               "the nodes of a hierarchy are compared as regions: node order is free within the rules of a tree"]


def regions(tree, alt, n, ctx, what):
    """dict region -> altitude; a partition tree has no region twice (n > 1)."""
    p = ints(tree.parents())
    ctx.eq(tree.num_leaves(), n, what + " number of leaves")
    rs = gen.leaf_sets(p)
    a = np.asarray(alt).tolist()
    ctx.eq(len(a), len(p), what + " number of altitudes")
    d = {frozenset(r): x for r, x in zip(rs, a)}
    ctx.ok(len(d) == len(p), what + ": a region appears twice in %r" % (p,))
    for i in range(n):
        ctx.eq(a[i], 0, what + " altitude of leaf %d" % i)
    return d


def qfz_ref(n, edges, w):
    d = {frozenset([v]): 0 for v in range(n)}
    for t in sorted(set(w)):
        lab = gen.components(n, [e for e, x in zip(edges, w) if x <= t])
        for l in set(lab):
            r = frozenset(v for v in range(n) if lab[v] == l)
            if r not in d:
                d[r] = t
    return d


def minmax(n, edges, w):
    """Smallest largest weight over the paths between the ends of each edge (0 for a loop: the empty path)."""
    inf = float("inf")
    D = [[0 if i == j else inf for j in range(n)] for i in range(n)]
    for (a, b), x in zip(edges, w):
        if a != b:
            D[a][b] = D[b][a] = min(D[a][b], x)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if i != j and i != k and j != k:
                    D[i][j] = min(D[i][j], max(D[i][k], D[k][j]))
    return [D[a][b] for a, b in edges]


def run(case, ctx):
    n, edges, w = case[0], [tuple(e) for e in case[1]], list(case[2])
    ctx.state((n, tuple(edges), tuple(w)))
    m = len(edges)
    what = "graph of %d vertices, edges %r, weights %r:" % (n, edges, w)
    conn = gen.connected(n, edges)
    for dt, v in (("int64", w), ("float32", [x + 0.5 for x in w]), ("uint8", [x + 200 for x in w]), ("float64", [x - 2 for x in w]),
                  ("float64", gen.scaled(w, "float64", 1)), ("int64", gen.scaled(w, "int64", 1))):
        g = mk_graph(n, edges)
        a = np.array(v, dtype=dt)
        ctx.op()
        if not conn:
            ctx.raises(lambda: hg.quasi_flat_zone_hierarchy(g, a), what + " quasi_flat_zone_hierarchy")
            ctx.raises(lambda: hg.ultrametric_open(g, a), what + " ultrametric_open")
            continue
        t, alt = hg.quasi_flat_zone_hierarchy(g, a)
        ctx.ok(hg.CptHierarchy.get_leaf_graph(t) is g and t.category() == hg.TreeCategory.PartitionTree, what + " leaf graph and category")
        want = qfz_ref(n, edges, v)
        got = regions(t, alt, n, ctx, what + " quasi_flat_zone_hierarchy")
        ctx.ok(got == want, "%s quasi_flat_zone_hierarchy (%s): %r, expected %r" % (what, dt, {tuple(sorted(k)): x for k, x in got.items()}, {tuple(sorted(k)): x for k, x in want.items()}))
        b, ba = hg.bpt_canonical(g, a)
        c, ca, nm = hg.canonize_hierarchy(b, ba, return_node_map=True)
        ctx.ok(regions(c, ca, n, ctx, what) == want, what + " canonize_hierarchy of the canonical tree")
        ctx.ok(hg.CptHierarchy.get_leaf_graph(c) is g, what + " leaf graph of canonize_hierarchy")
        ctx.eq(np.asarray(ca).tolist(), np.asarray(ba)[nm].tolist(), what + " canonize_hierarchy altitudes")
        ctx.outcome((tuple(ints(t.parents())), tuple(np.asarray(alt).tolist())))
        u = minmax(n, edges, v)
        so = np.asarray(hg.ultrametric_open(g, a))
        ctx.eq(so.tolist(), u, what + " ultrametric_open " + dt)
        ctx.ok(so.dtype == a.dtype, what + " type of the ultrametric")
        ctx.eq(np.asarray(hg.saliency(b, ba)).tolist(), u, what + " saliency of the canonical tree " + dt)
        s = np.asarray(hg.saliency(t, alt))
        ctx.eq(s.tolist(), u, what + " saliency of the quasi flat zones " + dt)
        ctx.eq(np.asarray(hg.saliency(t, alt, g)).tolist(), u, what + " saliency of the quasi flat zones, explicit graph")
        ctx.eq(np.asarray(hg.ultrametric_open(g, s)).tolist(), u, what + " ultrametric_open is idempotent")
        if min(v, default=0) >= 0:
            t2, alt2 = hg.quasi_flat_zone_hierarchy(g, s)
            ctx.ok(regions(t2, alt2, n, ctx, what) == want, what + " hierarchy of its saliency map")
        if dt == "int64":
            for k in (m - 1, m + 1):
                if k >= 0:
                    ctx.raises(lambda: hg.quasi_flat_zone_hierarchy(g, np.zeros(k)), what + " quasi_flat_zone_hierarchy with %d weights" % k)
                    ctx.raises(lambda: hg.ultrametric_open(g, np.zeros(k)), what + " ultrametric_open with %d weights" % k)


def hier(case, ctx):
    p, ranks = tuple(case[0]), list(case[1])
    n, nl = len(p), gen.num_leaves(p)
    ctx.state((p, tuple(ranks)))
    what = "hierarchy %r altitudes %r:" % (p, ranks)
    t = mk_tree(p)
    full = [e for e in itertools.combinations(range(nl), 2)]
    g = mk_graph(nl, full + [(b, a) for a, b in full[:1]] + [(0, 0)])
    E = edges_of(g)
    lc = [gen.lca(p, a, b) for a, b in E]
    plain = ranks
    for dt, k in (("float64", 0), ("int32", 0), ("uint16", 0), ("float64", 1), ("int64", 1)):
        ranks = gen.scaled(plain, dt, k)
        alt = np.array(ranks, dtype=dt)
        s = np.asarray(hg.saliency(t, alt, g))
        ctx.op()
        ctx.eq(s.tolist(), [ranks[c] for c in lc], what + " saliency")
        ctx.ok(s.dtype == alt.dtype, what + " type of the saliency")
        V = np.stack((alt, alt * 2 + 1), axis=1)
        ctx.eq(np.asarray(hg.saliency(t, V, g)).tolist(), [[ranks[c], 2 * ranks[c] + 1] for c in lc], what + " vectorial saliency")
        if all(ranks[i] == 0 for i in range(nl)):
            q, qa = hg.quasi_flat_zone_hierarchy(g, s)
            want = {frozenset([v]): 0 for v in range(nl)}
            rs = gen.leaf_sets(p)
            for i in range(n - 1, nl - 1, -1):
                if len(rs[i]) > 1 and (i == n - 1 or ranks[i] < ranks[p[i]]):
                    want[frozenset(rs[i])] = ranks[i]
            ctx.ok(regions(q, qa, nl, ctx, what) == want, "%s hierarchy of its saliency map is %r %r" % (what, ints(q.parents()), qa))
            c, ca = hg.canonize_hierarchy(t, alt)
            ctx.ok(regions(c, ca, nl, ctx, what) == want, "%s canonize_hierarchy is %r %r" % (what, ints(c.parents()), ca))
            ctx.ok(hg.test_tree_isomorphism(c, q) and hg.test_tree_isomorphism(q, c), what + " isomorphism")
    ctx.outcome(tuple(s.tolist()))
    # sub-sampled graphs: a spanning tree chosen inside each region is enough to come back
    for k in (n - 1, n + 1):
        if k:
            pass


def rag(case, ctx):
    """A hierarchy on a region adjacency graph gives a saliency on the original graph (or on the rag)."""
    h, w, lab, ws = case
    E = gen.grid_edges(h, w)
    lab = gen.canon_labels(lab)
    ctx.state((h, w, lab, tuple(ws)))
    g = hg.get_4_adjacency_graph((h, w))
    G = edges_of(g)
    r = hg.make_region_adjacency_graph_from_labelisation(g, np.array(lab).reshape(h, w))
    what = "grid %dx%d labels %r" % (h, w, lab)
    vm = ints(hg.CptRegionAdjacencyGraph.get_vertex_map(r))
    R = edges_of(r)
    wr = [ws[i % len(ws)] for i in range(len(R))]
    if not R:
        return
    t, a = hg.quasi_flat_zone_hierarchy(r, np.array(wr))
    u = minmax(r.num_vertices(), R, wr)
    ctx.op()
    ctx.eq(np.asarray(hg.saliency(t, a, handle_rag=False)).tolist(), u, what + " saliency on the rag")
    d = {frozenset(e): x for e, x in zip(R, u)}
    ctx.eq(np.asarray(hg.saliency(t, a)).tolist(), [0 if vm[x] == vm[y] else d[frozenset((vm[x], vm[y]))] for x, y in G], what + " saliency on the original graph")
    ctx.outcome(tuple(u))


def families():
    for h, w_ in ((3, 3), (2, 5), (1, 8), (4, 4)):
        es = gen.grid_edges(h, w_, 4)
        for q in range(6):
            r = gen.lcg(17 * q + h)
            yield [h * w_, es, [next(r) % (2 + 3 * q) for _ in es]]
    for n in (16, 33):
        for q in range(3):
            r = gen.lcg(q + n)
            es = [(i, next(r) % i if q else i - 1) for i in range(1, n)] + [(next(r) % n, next(r) % n) for _ in range(n)]
            yield [n, es, [next(r) % 7 for _ in es]]


def groups(tier):
    deep = tier != "quick"

    def all_():
        for n in range(1, 5 if not deep else 6):
            for es in gen.multigraphs(n, 3 if not deep else (5 if n < 4 else 4)):
                for w in gen.weak_orders(len(es)):
                    yield [n, es, list(w)]
        for es in gen.multigraphs(4, 6 if deep else 5, mmin=4, loops=False):
            if len(set(es)) == len(es) and gen.connected(4, es):
                for w in gen.weak_orders(len(es))[::1 if deep and len(es) < 6 or len(es) == 4 else 7]:
                    yield [4, es, list(w)]

    def hiers():
        for nl in range(1, 5 if not deep else 6):
            for p in gen.hierarchies(nl):
                for a in gen.mono_altitudes(p, [0, 1, 2, 3], leaf0=0):
                    yield [p, a]
        for p in gen.trees(6 if deep else 5):
            yield [p, [1 if i < gen.num_leaves(p) else i for i in range(len(p))]]
            yield [p, [(5 * i + 2) % 7 for i in range(len(p))]]

    def rags():
        for h, w in ((2, 2), (1, 4), (2, 3)) if not deep else ((2, 2), (1, 5), (2, 3), (3, 2)):
            for lab in gen.set_partitions(h * w):
                g = gen.components(h * w, [e for e in gen.grid_edges(h, w) if lab[e[0]] == lab[e[1]]])
                if gen.canon_labels(g) == tuple(lab):
                    yield [h, w, lab, [3, 1, 2]]
                    yield [h, w, lab, [1, 2, 2, 3]]
    return [Group("all", all_, run, "all multigraphs (loops, parallel edges, unconnected) of at most %s with all weak orders of weights" % ("5 vertices, 5 (n<=3) or 4 edges" if deep else "4 vertices and 3 edges")),
            Group("hier", hiers, hier, "all hierarchies of at most %d leaves with all increasing altitudes in 0..3; all trees with arbitrary altitudes" % (5 if deep else 4)),
            Group("rag", rags, rag, "all connected partitions of small grids"),
            Group("families", families, run, "grids and scattered graphs of 8 to 33 vertices")]
