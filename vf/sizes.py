"""Inputs beyond the limits of small integer types (2^7, 2^8, 2^15, 2^16 elements), for families of trees and graphs; one runner per property, with
references linear in the size. Regions are compared through their signatures: the exclusive or of fixed 64 bit words of their leaves."""
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group
from vf.util import mk_tree

SMALL = (130, 260, 1030)
BIG = (66000,)
TREES = ("star", "chain", "caterpillar", "balanced", "scattered")
GRAPHS = ("path", "star", "grid", "ring")


def tree_of(fam, n):
    if fam == "star":
        p = gen.star_tree(n)
    elif fam == "chain":
        p = gen.chain_tree(n)
    elif fam == "caterpillar":
        p = gen.caterpillar_tree(n // 2 + 1)
    elif fam == "balanced":
        p = gen.balanced_tree(n // 2 + 1)
    else:
        p = gen.scattered_tree(n, n // 2 + 1, 1)
    return np.asarray(p, dtype=np.int64)


def graph_of(fam, n):
    """Number of vertices, sources, targets."""
    if fam == "grid":
        h = int(n ** 0.5)
        w = -(-n // h)
        i = np.arange(h * w).reshape(h, w)
        s = np.concatenate((i[:, :-1].ravel(), i[:-1].ravel()))
        t = np.concatenate((i[:, 1:].ravel(), i[1:].ravel()))
        return h * w, s, t
    q = np.random.RandomState(n).permutation(n)
    if fam == "path":
        return n, q[:-1], q[1:]
    if fam == "ring":
        return n, q, np.roll(q, 1)
    return n, np.full(n - 1, q[0]), q[1:]


def weights_of(m, kind, k=1):
    r = np.random.RandomState(m + k)
    if kind == "distinct":
        return r.permutation(m).astype("float64") / 4
    if kind == "int":
        return r.permutation(m).astype("int32") - m // 2
    return r.randint(0, 300, m).astype("uint16")           # many ties


def mk(n, s, t):
    g = hg.UndirectedGraph(n)
    g.add_edges(s, t)
    return g


def words(L):
    return np.random.RandomState(7).randint(1, 2 ** 62, L).tolist()


def num_leaves(p):
    c = np.bincount(p[:-1], minlength=len(p))
    return int((c == 0).sum()) if len(p) > 1 else 1


def signatures(p):
    L = num_leaves(p)
    h = words(L) + [0] * (len(p) - L)
    q = p.tolist()
    for i in range(len(q) - 1):
        h[q[i]] ^= h[i]
    return h


def depths(p):
    q = p.tolist()
    d = [0] * len(q)
    for i in range(len(q) - 2, -1, -1):
        d[i] = d[q[i]] + 1
    return np.array(d)


class Lca:
    def __init__(self, p):
        self.d = depths(p)
        self.up = [p]
        while (1 << len(self.up)) <= self.d.max():
            self.up.append(self.up[-1][self.up[-1]])

    def __call__(self, a, b):
        a, b = np.array(a), np.array(b)
        sw = self.d[a] < self.d[b]
        a[sw], b[sw] = b[sw], a[sw]
        diff = self.d[a] - self.d[b]
        for k, u in enumerate(self.up):
            a = np.where(diff >> k & 1, u[a], a)
        for u in reversed(self.up):
            x, y = u[a], u[b]
            ne = x != y
            a, b = np.where(ne, x, a), np.where(ne, y, b)
        return np.where(a == b, a, self.up[0][a])


class Find:
    def __init__(self, n):
        self.p = list(range(n))

    def __call__(self, x):
        p = self.p
        while p[x] != x:
            p[x] = p[p[x]]
            x = p[x]
        return x


def zones(n, s, t, w):
    """The quasi-flat zones which are not single vertices [(weight, signature)] and the sorted weights of a minimum spanning tree."""
    f, h = Find(n), words(n)
    order = np.argsort(w, kind="stable").tolist()
    s, t, wl = s.tolist(), t.tolist(), w.tolist()
    res, mst = [], []
    i = 0
    while i < len(order):
        j, touched = i, []
        while j < len(order) and wl[order[j]] == wl[order[i]]:
            a, b = f(s[order[j]]), f(t[order[j]])
            if a != b:
                f.p[b] = a
                h[a] ^= h[b]
                touched.append(a)
                mst.append(wl[order[j]])
            j += 1
        res += [(wl[order[i]], h[r]) for r in {f(a) for a in touched}]
        i = j
    return sorted(res), mst


def level_components(n, s, t, v, sign):
    """The components of the level sets [(level, signature)]: upper ones for sign = -1."""
    f, h = Find(n), words(n)
    nb = [[] for _ in range(n)]
    for a, b in zip(s.tolist(), t.tolist()):
        nb[a].append(b)
        nb[b].append(a)
    order = np.argsort(sign * v.astype("int64"), kind="stable").tolist()
    vl = v.tolist()
    on = [False] * n
    res = []
    i = 0
    while i < n:
        j = i
        while j < n and vl[order[j]] == vl[order[i]]:
            x = order[j]
            on[x] = True
            for y in nb[x]:
                if on[y]:
                    a, b = f(x), f(y)
                    if a != b:
                        f.p[b] = a
                        h[a] ^= h[b]
            j += 1
        res += [(vl[order[i]], h[r]) for r in {f(x) for x in order[i:j]}]
        i = j
    return sorted(res)


def nodes_of(tree, alt):
    """(altitude, signature) of the nodes which are not leaves."""
    L = tree.num_leaves()
    return sorted(zip(np.asarray(alt)[L:].tolist(), signatures(np.asarray(tree.parents()))[L:]))


def partition(lab):
    """Canonical form of a labelling."""
    _, first, inv = np.unique(np.asarray(lab).ravel(), return_index=True, return_inverse=True)
    return first[inv.ravel()]


# ----- one runner per property ---------------------------------------------------------------
def c01(case, ctx):
    fam, n = case
    N, s, t = graph_of(fam, n)
    what = "%s of %d vertices" % (fam, N)
    for g in (mk(N, s, t), hg.UndirectedGraph(N)):
        if g.num_edges() == 0:
            for a, b in zip(s.tolist(), t.tolist()):
                g.add_edge(a, b)
        ctx.op(len(s))
        ctx.eq([g.num_vertices(), g.num_edges()], [N, len(s)], what)
        es, et = g.edge_list()
        lo, hi = np.minimum(s, t), np.maximum(s, t)
        ctx.ok(np.array_equal(np.minimum(es, et), lo) and np.array_equal(np.maximum(es, et), hi), what + ": edge list")
        deg = np.bincount(np.concatenate((s, t)), minlength=N)
        ctx.ok(np.array_equal(g.degree(np.arange(N)), deg), what + ": degrees")
        for v in {0, 1, N // 2, N - 1, int(s[0])}:
            inc = [(int(x), int(y), i) for i, (x, y) in enumerate(zip(s, t)) if v in (x, y)]
            ctx.eq(sorted(e[2] for e in g.out_edges(v)), sorted(i for _, _, i in inc), what + ": edges of the vertex %d" % v)
            ctx.eq(sorted(g.adjacent_vertices(v)), sorted(y if x == v else x for x, y, _ in inc), what + ": neighbours of the vertex %d" % v)
        for e in {0, len(s) // 2, len(s) - 1}:
            x = g.edge_from_index(e)
            ctx.eq([sorted((int(x[0]), int(x[1]))), int(x[2])], [[int(lo[e]), int(hi[e])], e], what + ": edge %d" % e)
    g.remove_edge(len(s) - 1)
    ctx.eq([g.degree(int(s[-1])), g.degree(int(t[-1]))], [int(deg[s[-1]]) - 1, int(deg[t[-1]]) - 1], what + ": degrees after a removal")
    ctx.state((fam, n))


def c02(case, ctx):
    fam, n = case
    p = tree_of(fam, n)
    N, L = len(p), num_leaves(p)
    t = hg.Tree(p)
    what = "%s tree of %d nodes" % (fam, N)
    ctx.op(20)
    ctx.eq([t.num_vertices(), t.num_leaves(), t.num_edges(), int(t.root())], [N, L, N - 1, N - 1], what)
    ctx.ok(np.array_equal(t.parents(), p), what + ": parents")
    nc = np.bincount(p[:-1], minlength=N)
    inner = np.arange(L, N)
    ctx.ok(np.array_equal(t.num_children(inner), nc[L:]), what + ": numbers of children")
    ctx.ok(np.array_equal(t.degree(np.arange(N)), nc + (np.arange(N) < N - 1)), what + ": degrees")
    k = inner[np.unique(np.linspace(0, len(inner) - 1, 50).astype(int))]
    for v in k.tolist() + [N - 1]:
        want = np.flatnonzero(p[:-1] == v)
        ctx.ok(np.array_equal(t.children(v), want), what + ": children of %d" % v)
        ctx.eq(int(t.child(len(want) - 1, v)), int(want[-1]), what + ": last child of %d" % v)
    anc, v = [0], 0
    while v != N - 1:
        v = int(p[v])
        anc.append(v)
    ctx.eq(list(map(int, t.ancestors(0))), anc, what + ": ancestors of 0")
    ctx.ok(np.array_equal(np.array(list(t.leaves_to_root_iterator())), np.arange(N)), what + ": nodes from the leaves")
    ctx.ok(np.array_equal(np.array(list(t.root_to_leaves_iterator())), np.arange(N)[::-1]), what + ": nodes from the root")
    ctx.ok(np.array_equal(np.asarray(t.is_leaf(np.arange(N))), np.arange(N) < L), what + ": leaves")
    alt = np.arange(N) * 2
    q = np.arange(0, N, max(1, N // 400))
    lam = (q * 7919) % (2 * N)
    want = []
    for v, x in zip(q.tolist(), lam.tolist()):
        while p[v] != v and alt[p[v]] < x:
            v = int(p[v])
        want.append(v)
    if fam not in ("chain", "caterpillar") or N < 2000:
        ctx.eq(t.find_region(q, lam.astype("float64"), alt.astype("float64")).tolist(), want, what + ": regions")
    ctx.state((fam, n))


def c03(case, ctx):
    fam, n = case
    p = tree_of(fam, n)
    N = len(p)
    ref = Lca(p)
    a = np.arange(N)
    pairs = [(a, (a * 7919 + 13) % N), (a, a[::-1].copy()), (a[:-1], a[1:]), (a, p), (a, np.zeros_like(a))]
    t = hg.Tree(p)
    for what, l in [("sparse table", hg.LCA_rmq_sparse_table(t))] + [("blocks of %d" % b, hg.LCA_rmq_sparse_table_block(t, b)) for b in ((1, 3, 128, 1024, N, 3 * N) if N < 5000 else (5, 64))] + [("default", hg.make_lca_fast(t))]:
        for x, y in pairs if what != "default" else pairs[:1]:
            ctx.op()
            ctx.ok(np.array_equal(l.lca(np.ascontiguousarray(x), np.ascontiguousarray(y)), ref(x, y)), "%s tree of %d nodes, %s" % (fam, N, what))
    t.lowest_common_ancestor_preprocess()
    ctx.ok(np.array_equal(t.lowest_common_ancestor(a, pairs[0][1]), ref(a, pairs[0][1])), "%s tree of %d nodes, preprocessed tree" % (fam, N))
    ctx.state((fam, n))


def c04(case, ctx):
    shape = tuple(case)
    n = int(np.prod(shape))
    ctx.state(shape)
    lin = np.arange(n).reshape(shape)
    face = [np.eye(len(shape), dtype=int)[i] for i in range(len(shape))]

    def want(offs):
        r = []
        for o in offs:
            a = lin[tuple(slice(max(0, -x), shape[i] - max(0, x)) for i, x in enumerate(o))].ravel()
            b = lin[tuple(slice(max(0, x), shape[i] + min(0, x)) for i, x in enumerate(o))].ravel()
            r.append(np.minimum(a, b) * n + np.maximum(a, b))
        return np.sort(np.concatenate(r))

    for name, f, offs in [("4", hg.get_4_adjacency_graph, face), ("8", hg.get_8_adjacency_graph, face + [np.array((1, 1)), np.array((1, -1))])] if len(shape) == 2 else [("6", hg.get_6_adjacency_graph, face)]:
        g = f(shape)
        s, t = g.edge_list()
        ctx.op()
        ctx.eq(g.num_vertices(), n, "%s adjacency of shape %r: vertices" % (name, shape))
        ctx.ok(np.array_equal(np.sort(np.minimum(s, t) * n + np.maximum(s, t)), want(offs)), "%s adjacency graph of shape %r: edges" % (name, shape))
        e = getattr(hg, "EmbeddingGrid%dd" % len(shape))(shape)
        c = e.lin2grid(np.arange(n))
        ctx.ok(np.array_equal(c, np.stack(np.unravel_index(np.arange(n), shape), -1)), "coordinates of the shape %r" % (shape,))
        ctx.ok(np.array_equal(e.grid2lin(c), np.arange(n)), "linear coordinates of the shape %r" % (shape,))
    big = tuple(70000 + x for x in range(len(shape)))
    e = getattr(hg, "EmbeddingGrid%dd" % len(shape))(big)
    last = np.array([x - 1 for x in big])
    i = int(np.ravel_multi_index(tuple(last), big))
    ctx.eq([int(e.size()), int(e.grid2lin(last)), [int(x) for x in e.lin2grid(i)]], [i + 1, i, last.tolist()], "embedding of shape %r" % (big,))


def c06(case, ctx):
    fam, n = case
    p = tree_of(fam, n)
    N, L = len(p), num_leaves(p)
    t = hg.Tree(p)
    what = "%s tree of %d nodes" % (fam, N)
    r = np.random.RandomState(n)
    leaf = r.randint(-9, 10, L).astype("float64")
    full = r.randint(-9, 10, N).astype("float64")
    q = p.tolist()
    A = hg.Accumulators
    for name, op in (("sum", lambda a, b: a + b), ("min", min), ("max", max)):
        seq = leaf.tolist() + [None] * (N - L)
        par = [None] * N
        add = {"sum": 0.0, "max": None, "min": None}[name]
        for i in range(N - 1):
            seq[q[i]] = seq[i] if seq[q[i]] is None else op(seq[q[i]], seq[i])
            x = float(full[i])
            par[q[i]] = x if par[q[i]] is None else op(par[q[i]], x)
        ctx.op(2)
        ctx.ok(np.array_equal(hg.accumulate_sequential(t, leaf, getattr(A, name)), np.array(seq)), what + ": sequential " + name)
        got = hg.accumulate_parallel(t, full, getattr(A, name))
        ctx.ok(np.array_equal(got[L:], np.array(par[L:])), what + ": parallel " + name)
    cnt = np.bincount(p[:-1], minlength=N)
    ctx.ok(np.array_equal(hg.accumulate_parallel(t, full, A.counter), cnt), what + ": counter")
    s = np.zeros(N)
    np.add.at(s, p[:-1], full[:-1])
    ctx.ok(np.allclose(hg.accumulate_parallel(t, full, A.mean)[L:], s[L:] / cnt[L:]), what + ": mean")
    ctx.ok(np.allclose(hg.accumulate_and_add_sequential(t, full, leaf, A.max), and_add(q, full, leaf, N, L)), what + ": max and add")
    cond = r.rand(N) < 0.6
    pr, ps, pa = full.copy(), full.tolist(), full.tolist()
    pr = np.where(cond, full[p], full)
    cl = cond.tolist()
    for i in range(N - 2, -1, -1):
        if cl[i]:
            ps[i] = ps[q[i]]
        pa[i] = pa[i] + pa[q[i]]
    ctx.ok(np.array_equal(hg.propagate_parallel(t, full), full[p]), what + ": parallel propagation")
    ctx.ok(np.array_equal(hg.propagate_parallel(t, full, cond), pr), what + ": conditional parallel propagation")
    ctx.ok(np.array_equal(hg.propagate_sequential(t, full, cond), np.array(ps)), what + ": sequential propagation")
    ctx.ok(np.array_equal(hg.propagate_sequential_and_accumulate(t, full, A.sum), np.array(pa)), what + ": propagation and sum")
    ctx.state((fam, n))


def and_add(q, full, leaf, N, L):
    res = leaf.tolist() + [None] * (N - L)
    for i in range(N):
        if i >= L:
            res[i] = res[i] + float(full[i])
        if i < N - 1:
            res[q[i]] = res[i] if res[q[i]] is None else max(res[q[i]], res[i])
    return np.array(res)


def c07(case, ctx):
    fam, n = case
    N, s, t = graph_of(fam, n)
    g = mk(N, s, t)
    what = "%s of %d vertices" % (fam, N)
    w = np.random.RandomState(n).randint(0, 200, len(s)).astype("float64")
    v = np.random.RandomState(n).randint(0, 200, N).astype("float64")
    A = hg.Accumulators
    a = np.concatenate((s, t))
    for name, uf, init in (("sum", np.add, 0.0), ("max", np.maximum, -np.inf), ("min", np.minimum, np.inf)):
        x, y = np.full(N, init), np.full(N, init)
        uf.at(x, a, np.concatenate((w, w)))
        uf.at(y, a, v[np.concatenate((t, s))])
        ctx.op(2)
        ctx.ok(np.array_equal(hg.accumulate_graph_edges(g, w, getattr(A, name)), x), what + ": %s of edge weights" % name)
        ctx.ok(np.array_equal(hg.accumulate_graph_vertices(g, v, getattr(A, name)), y), what + ": %s of vertex weights" % name)
    i = (np.arange(N) * 7919) % (N - 1) - 1
    x = np.zeros(N - 2)
    np.add.at(x, i[i >= 0], v[i >= 0])
    ctx.ok(np.array_equal(hg.accumulate_at(i, v, A.sum), x), what + ": sum by index")
    ctx.ok(np.array_equal(hg.accumulate_at(np.zeros(N, dtype=np.int64), v, A.counter), [N]), what + ": number of values of one index")
    ctx.state((fam, n))


def c08(case, ctx):
    fam, n, kind = case
    N, s, t = graph_of(fam, n)
    w = weights_of(len(s), kind)
    g = mk(N, s, t)
    what = "%s of %d vertices, %s weights" % (fam, N, kind)
    z, mst = zones(N, s, t, w)
    ctx.op(3)
    tree, alt = hg.bpt_canonical(g, w)
    p = np.asarray(tree.parents())
    ctx.eq([tree.num_leaves(), tree.num_vertices()], [N, 2 * N - 1], what + ": size of the tree")
    ctx.ok(np.array_equal(alt[N:], np.array(mst)) and not alt[:N].any(), what + ": altitudes")
    if kind != "ties":
        ctx.ok(nodes_of(tree, alt) == z, what + ": regions")
    else:
        keep = np.append(alt[:-1] != alt[p[:-1]], True)
        keep[:N] = False
        sig = np.array(signatures(p))
        ctx.ok(sorted(zip(alt[keep].tolist(), sig[keep].tolist())) == z, what + ": components of the levels")
    em = np.asarray(tree.mst_edge_map)
    ctx.ok(np.array_equal(w[em], alt[N:]), what + ": weights of the edges of the nodes")
    ctx.ok(np.array_equal(Lca(p)(s[em], t[em]), np.arange(N, 2 * N - 1)), what + ": edges of the nodes")
    m = hg.minimum_spanning_tree(g, w)
    em = np.asarray(m.mst_edge_map)
    ctx.eq([m.num_vertices(), m.num_edges()], [N, N - 1], what + ": size of the spanning tree")
    ctx.ok(sorted(w[em].tolist()) == mst, what + ": weights of the minimum spanning tree")
    ms, mt = m.edge_list()
    ctx.ok(np.array_equal(np.minimum(ms, mt), np.minimum(s[em], t[em])) and np.array_equal(np.maximum(ms, mt), np.maximum(s[em], t[em])), what + ": edges of the minimum spanning tree")
    ctx.state((fam, n, kind))


def c09(case, ctx):
    fam, n, kind = case
    N, s, t = graph_of(fam, n)
    w = weights_of(len(s), kind)
    g = mk(N, s, t)
    what = "%s of %d vertices, %s weights" % (fam, N, kind)
    z, _ = zones(N, s, t, w)
    ctx.op(4)
    tree, alt = hg.quasi_flat_zone_hierarchy(g, w)
    ctx.ok(nodes_of(tree, alt) == z, what + ": quasi-flat zones")
    um = np.asarray(alt)[Lca(np.asarray(tree.parents()))(s, t)]
    sm = hg.saliency(tree, alt)
    ctx.ok(np.array_equal(sm, um), what + ": saliency")
    ctx.ok(np.array_equal(hg.saliency(*hg.bpt_canonical(g, w)), um), what + ": saliency of the canonical tree")
    t2, a2 = hg.quasi_flat_zone_hierarchy(g, um)
    ctx.ok(nodes_of(t2, a2) == z, what + ": hierarchy of the saliency")
    ctx.state((fam, n, kind))


def c10(case, ctx):
    fam, n = case
    p = tree_of(fam, n)
    N, L = len(p), num_leaves(p)
    t = hg.Tree(p)
    what = "%s tree of %d nodes" % (fam, N)
    sig = np.array(signatures(p))
    ctx.op(4)
    rem = np.random.RandomState(n).rand(N) < 0.5
    rem[:L] = False
    rem[-1] = False
    t2, nm = hg.simplify_tree(t, rem.copy())
    kept = np.flatnonzero(~rem)
    anc = p.copy()
    for i in range(N - 2, -1, -1):
        if rem[anc[i]]:
            anc[i] = anc[anc[i]]
    new = np.cumsum(~rem) - 1
    ctx.ok(np.array_equal(nm, kept) and np.array_equal(t2.parents(), new[anc[kept]]), what + ": removal of half of the nodes")
    if np.bincount(p[:-1], minlength=N)[L:].min() > 1:
        b, nb = hg.tree_2_binary_tree(t)
        bp = np.asarray(b.parents())
        ctx.ok(b.num_vertices() == 2 * L - 1 and (np.bincount(bp[:-1], minlength=len(bp))[L:] == 2).all(), what + ": binary tree")
        ctx.ok(set(sig.tolist()) <= set(signatures(bp)), what + ": regions of the binary tree")
        nb = np.asarray(nb)
        bs = np.array(signatures(bp))
        first = np.append(nb[:-1] != nb[bp[:-1]], True)            # the top node of each group
        ctx.ok(np.array_equal(bs[first], sig[nb[first]]), what + ": node map of the binary tree")
    ctx.ok(hg.test_tree_isomorphism(t, hg.Tree(p)), what + ": isomorphic to itself")
    if L < N - 1:
        alt = np.random.RandomState(n + 1).randint(0, 50, N).astype("float64")
        alt[:L] = 0
        q = p.tolist()
        al = alt.tolist()
        for i in range(L, N - 1):
            if al[q[i]] < al[i]:
                al[q[i]] = al[i]
        alt = np.array(al)
        t3, a3, m3 = hg.sort_hierarchy_with_altitudes(t, alt)
        ctx.ok((np.diff(a3[L:]) >= 0).all() and np.array_equal(a3, alt[m3]), what + ": sorted altitudes")
        ctx.ok(np.array_equal(np.array(signatures(np.asarray(t3.parents()))), sig[m3]), what + ": regions of the sorted tree")
    ctx.state((fam, n))


def c11(case, ctx):
    from scipy.cluster.hierarchy import linkage
    from scipy.spatial.distance import pdist
    n = case[0]
    X = np.random.RandomState(n).rand(n, 3)
    i, j = np.triu_indices(n, 1)
    g = mk(n, i, j)
    d = pdist(X)
    for name, hf in (("single", hg.binary_partition_tree_single_linkage), ("complete", hg.binary_partition_tree_complete_linkage), ("average", hg.binary_partition_tree_average_linkage)):
        ctx.op()
        tree, alt = hf(g, d)
        Z = linkage(d, name)
        p = np.empty(2 * n - 1, dtype=np.int64)
        p[-1] = 2 * n - 2
        for k, row in enumerate(Z):
            p[int(row[0])] = p[int(row[1])] = n + k
        what = "complete graph of %d points, %s linkage" % (n, name)
        ctx.ok(np.allclose(np.sort(alt[n:]), Z[:, 2]), what + ": altitudes")
        ctx.eq(sorted(signatures(np.asarray(tree.parents()))), sorted(signatures(p)), what + ": regions")
    tree, alt = hg.binary_partition_tree_ward_linkage(g, X)
    Z = linkage(d, "ward")
    p = np.empty(2 * n - 1, dtype=np.int64)
    p[-1] = 2 * n - 2
    for k, row in enumerate(Z):
        p[int(row[0])] = p[int(row[1])] = n + k
    ctx.eq(sorted(signatures(np.asarray(tree.parents()))), sorted(signatures(p)), "complete graph of %d points, Ward linkage: regions" % n)
    ctx.ok(np.allclose(np.sort(alt[n:]), Z[:, 2] ** 2 / 2), "complete graph of %d points, Ward linkage: altitudes" % n)
    ctx.state(n)


def c12(case, ctx):
    fam, n, kind = case
    N, s, t = graph_of(fam, n)
    v = weights_of(N, kind)
    v = v if kind == "ties" else v * 4 if kind == "distinct" else v
    g = mk(N, s, t)
    what = "%s of %d vertices, %s values" % (fam, N, kind)
    for name, f, sign in (("max", hg.component_tree_max_tree, -1), ("min", hg.component_tree_min_tree, 1)):
        ctx.op()
        tree, alt = f(g, v)
        ctx.ok(nodes_of(tree, alt) == level_components(N, s, t, v, sign), what + ": nodes of the %s tree" % name)
        ctx.ok(np.array_equal(hg.reconstruct_leaf_data(tree, alt), v) and np.array_equal(alt[:N], v), what + ": reconstruction from the %s tree" % name)
    ctx.state((fam, n, kind))


def c12_tos(case, ctx):
    shape = tuple(case)
    n = int(np.prod(shape))
    im = np.random.RandomState(n).randint(0, 60, shape)
    im[: shape[0] // 2] //= 6
    for dt in ("uint8", "int32", "float64"):
        for pad in ("none", "mean", "zero"):
            ctx.op(2)
            I = im.astype(dt)
            t, a = hg.component_tree_tree_of_shapes_image2d(I, padding=pad)
            what = "tree of shapes of an image of shape %r (%s, padding %s)" % (shape, dt, pad)
            ctx.ok(t.num_leaves() == n and np.array_equal(hg.reconstruct_leaf_data(t, a).reshape(shape), I), what + ": reconstruction")
            sig = np.array(signatures(np.asarray(t.parents())))
            ctx.ok(len(set(sig[n:].tolist())) == len(sig) - n, what + ": a region appears twice")
            if pad == "none":
                J = (59 - im).astype(dt)
                t2, a2 = hg.component_tree_tree_of_shapes_image2d(J, padding=pad)
                ctx.ok(sorted(sig.tolist()) == sorted(signatures(np.asarray(t2.parents()))), what + ": regions of the inverted image")
    ctx.state(shape)


def c13(case, ctx):
    fam, n, kind = case
    N, s, t = graph_of(fam, n)
    w = weights_of(len(s), kind)
    g = mk(N, s, t)
    what = "%s of %d vertices, %s weights" % (fam, N, kind)
    # all the weights differ: each vertex flows along its smallest edge
    low, arg = np.full(N, np.inf), np.zeros(N, dtype=np.int64)
    for e in np.argsort(-w.astype("float64")).tolist():
        for a in (s[e], t[e]):
            arg[a] = e
    f = Find(N)
    for e in arg.tolist():
        a, b = f(int(s[e])), f(int(t[e]))
        f.p[a] = b
    want = np.array([f(i) for i in range(N)])
    ctx.op(2)
    lab = np.asarray(hg.labelisation_watershed(g, w))
    ctx.ok(np.array_equal(partition(lab), partition(want)), what + ": watershed")
    ctx.ok(lab.min() == 1 and lab.max() == len(np.unique(lab)), what + ": labels of the watershed")
    seeds = np.zeros(N, dtype=np.int64)
    at = np.arange(0, N, max(3, N // 40000 + 3))
    seeds[at] = np.arange(len(at)) % 300 + 1 if kind == "int" else np.arange(len(at)) + 1
    f = Find(N)
    lb = seeds.tolist()
    for e in np.argsort(w, kind="stable").tolist():
        a, b = f(int(s[e])), f(int(t[e]))
        if a != b and not (lb[a] and lb[b]):
            f.p[a] = b
            lb[b] = lb[a] or lb[b]
    want = np.array([lb[f(i)] for i in range(N)])
    ctx.ok(np.array_equal(hg.labelisation_seeded_watershed(g, w, seeds), want), what + ": seeded watershed")
    ctx.state((fam, n, kind))


def c14(case, ctx):
    fam, n = case
    N, s, t = graph_of(fam, n)
    g = mk(N, s, t)
    what = "%s of %d vertices" % (fam, N)
    r = np.random.RandomState(n)
    for k in (2, 3, 40):
        lab = r.randint(0, k, N)
        lab[r.rand(N) < 0.3] = 0
        cut = lab[s] != lab[t]
        ctx.op(3)
        ctx.ok(np.array_equal(np.asarray(hg.labelisation_2_graph_cut(g, lab)) != 0, cut), what + ": cut of a labelling")
        f = Find(N)
        for a, b in zip(s[~cut].tolist(), t[~cut].tolist()):
            f.p[f(a)] = f(b)
        comp = np.array([f(i) for i in range(N)])
        l2 = hg.graph_cut_2_labelisation(g, cut.astype("uint8"))
        ctx.ok(np.array_equal(partition(l2), partition(comp)), what + ": components of a cut")
        for name, rag in (("labelling", hg.make_region_adjacency_graph_from_labelisation(g, lab)), ("cut", hg.make_region_adjacency_graph_from_graph_cut(g, cut.astype("uint8")))):
            vm, em = np.asarray(rag.vertex_map), np.asarray(rag.edge_map)
            nr = len(np.unique(comp))
            ctx.ok(rag.num_vertices() == nr and np.array_equal(partition(vm), partition(comp)), what + ": vertices of the region adjacency graph of the " + name)
            a, b = vm[s], vm[t]
            key = np.minimum(a, b) * nr + np.maximum(a, b)
            ctx.ok(np.array_equal(em >= 0, a != b) and (em[a == b] == -1).all(), what + ": inner edges of the region adjacency graph of the " + name)
            rs, rt = rag.edge_list()
            rk = np.minimum(rs, rt) * nr + np.maximum(rs, rt)
            ctx.ok(len(np.unique(rk)) == len(rk) and np.array_equal(np.sort(rk), np.unique(key[a != b])) and np.array_equal(rk[em[a != b]], key[a != b]), what + ": edges of the region adjacency graph of the " + name)
            v = r.randint(0, 9, N).astype("float64")
            w = r.randint(0, 9, len(s)).astype("float64")
            ctx.ok(np.array_equal(hg.rag_accumulate_on_vertices(rag, hg.Accumulators.sum, v), np.bincount(vm, v, nr)), what + ": sums of the vertices")
            if rag.num_edges():
                ctx.ok(np.array_equal(hg.rag_accumulate_on_edges(rag, hg.Accumulators.sum, w), np.bincount(em[a != b], w[a != b], rag.num_edges())), what + ": sums of the edges")
            rv = r.randint(0, 9, nr)
            ctx.ok(np.array_equal(hg.rag_back_project_vertex_weights(rag, rv), rv[vm]), what + ": back projection")
    ctx.state((fam, n))


def c15(case, ctx):
    fam, n = case
    p = tree_of(fam, n)
    N, L = len(p), num_leaves(p)
    t = hg.Tree(p)
    alt = np.arange(N, dtype="float64")
    alt[:L] = 0
    alt[L:] = (np.arange(L, N) - L) // 3 + 1                  # groups of 3 nodes with the same altitude
    what = "%s tree of %d nodes" % (fam, N)
    ctx.op(3)
    ex = hg.HorizontalCutExplorer(t, alt)
    top = alt[p]
    # a node is in the threshold at x iff alt <= x < altitude of the parent
    start = np.searchsorted(np.unique(alt), alt)
    u = np.unique(alt)
    diff = np.zeros(len(u) + 1, dtype=np.int64)
    end = np.searchsorted(u, top)
    end[-1] = len(u)
    np.add.at(diff, start, 1)
    np.add.at(diff, end, -1)
    nb = np.cumsum(diff)[:-1]
    ctx.ok(np.array_equal(np.asarray(ex.num_regions_cuts()), nb[::-1]), what + ": numbers of regions of the cuts")
    ctx.ok(np.array_equal(np.asarray(ex.altitude_cuts()), u[::-1]), what + ": altitudes of the cuts")
    for i in {0, 1, len(u) // 2, len(u) - 1}:
        x = u[::-1][i]
        node = np.flatnonzero((alt <= x) & ((top > x) | (np.arange(N) == N - 1)))
        c = ex.horizontal_cut_from_index(i)
        ctx.ok(np.array_equal(np.sort(np.asarray(c.nodes())), node), what + ": nodes of the cut %d" % i)
        own = np.where((top <= x) & (np.arange(N) < N - 1), -1, np.arange(N))
        for v in range(N - 2, -1, -1):
            if own[v] < 0:
                own[v] = own[p[v]]
        ctx.ok(np.array_equal(partition(c.labelisation_leaves(t)), partition(own[:L])), what + ": labelling of the cut %d" % i)
        ctx.ok(len(ex.horizontal_cut_from_num_regions(len(node)).nodes()) == len(node), what + ": cut of %d regions" % len(node))
        ctx.ok(np.array_equal(partition(hg.labelisation_horizontal_cut_from_threshold(t, alt, x)), partition(own[:L])), what + ": threshold at %g" % x)
    ctx.state((fam, n))


def c16(case, ctx):
    fam, n = case
    p = tree_of(fam, n)
    N, L = len(p), num_leaves(p)
    t = hg.Tree(p)
    what = "%s tree of %d nodes" % (fam, N)
    q = p.tolist()
    area = [1] * L + [0] * (N - L)
    for i in range(N - 1):
        area[q[i]] += area[i]
    # energies about proportional to the areas, so that optimal cuts have nodes at all depths
    E = np.array(area) * (40.0 + np.random.RandomState(n).randint(0, 8, N))
    for name, comb in (("sum", lambda a, b: a + b), ("max", max)):
        best, s = E.tolist(), [None] * N
        for i in range(N):
            if i >= L:
                best[i] = min(best[i], s[i])
            if i < N - 1:
                s[q[i]] = best[i] if s[q[i]] is None else comb(s[q[i]], best[i])
        ctx.op()
        lab = np.asarray(hg.labelisation_optimal_cut_from_energy(t, E, getattr(hg.Accumulators, name)))
        # the node of a label is the smallest one (or one of a chain) with the area of the label that holds its leaves
        cnt = np.bincount(lab)
        _, first = np.unique(lab, return_index=True)
        used, total = 0, []
        for x in first.tolist():
            v, k, e = x, cnt[lab[x]], []
            while True:
                if area[v] == k:
                    e.append(float(E[v]))
                if area[v] > k or q[v] == v:
                    break
                v = q[v]
            ctx.ok(e != [], what + ": a label of the optimal cut is not a region")
            total.append(min(e))
        got = sum(total) if name == "sum" else max(total)
        ctx.ok(got == best[-1], what + ": energy %r of the optimal cut (%s), expected %r" % (got, name, best[-1]))
    ctx.state((fam, n))


def c17(case, ctx):
    fam, n = case
    p = tree_of(fam, n)
    N = len(p)
    t = hg.Tree(p)
    a = np.random.RandomState(n).randint(0, 1000, N).astype("float64")
    q, mx, mn = p.tolist(), a.tolist(), a.tolist()
    for i in range(N - 1):
        mx[q[i]] = max(mx[q[i]], mx[i])
    for i in range(N - 2, -1, -1):
        mn[i] = min(mn[i], mn[q[i]])
    what = "%s tree of %d nodes" % (fam, N)
    ctx.op(3)
    ctx.ok(np.array_equal(hg.tree_monotonic_regression(t, a, "max"), np.array(mx)), what + ": max")
    ctx.ok(np.array_equal(hg.tree_monotonic_regression(t, a, "min"), np.array(mn)), what + ": min")
    ls = hg.tree_monotonic_regression(t, np.array(mx), "least_square")
    ctx.ok(np.allclose(ls, mx), what + ": least squares of increasing altitudes")
    ls = hg.tree_monotonic_regression(t, a, "least_square")
    ctx.ok((ls <= ls[p] + 1e-9).all() and abs(ls.sum() - a.sum()) < 1e-6 * a.sum(), what + ": least squares")
    ctx.state((fam, n))


def c19(case, ctx):
    n = case[0]
    q = np.random.RandomState(n).permutation(n)
    s, t = q, np.roll(q, 1)
    ok, col = hg.is_bipartite_graph(mk(n, s, t))
    ctx.op(3)
    ctx.eq(bool(ok), n % 2 == 0, "cycle of %d vertices" % n)
    ok, col = hg.is_bipartite_graph(mk(n, s[1:], t[1:]))
    col = np.asarray(col)
    ctx.ok(bool(ok) and (col[s[1:]] != col[t[1:]]).all(), "path of %d vertices" % n)
    if n < 5000 and n % 2 == 0:
        w = np.random.RandomState(n).randint(0, 1000, n - 1)
        m = np.asarray(hg.bipartite_graph_matching(mk(n, q[:-1], q[1:]), w))
        ctx.ok(np.array_equal(np.sort(m), np.arange(0, n - 1, 2)), "matching of a path of %d vertices" % n)
    ctx.state(n)


def c20(case, ctx):
    fam, n = case
    p = tree_of(fam, n)
    N, L = len(p), num_leaves(p)
    t = hg.Tree(p)
    what = "%s tree of %d nodes" % (fam, N)
    q = p.tolist()
    alt = np.arange(N, dtype="float64")
    alt[:L] = np.arange(L) % 7 / 8
    for i in range(L, N):
        alt[i] = i - L + 1
    area = [1] * L + [0] * (N - L)
    top = [0] * N
    low = np.where(np.arange(N) < L, alt[p], alt).tolist()
    for i in range(N - 1):
        area[q[i]] += area[i]
        top[q[i]] = max(top[q[i]], top[i] + 1)
        low[q[i]] = min(low[q[i]], low[i])
    ctx.op(8)
    ctx.ok(np.array_equal(hg.attribute_area(t), area), what + ": areas")
    ctx.ok(np.array_equal(hg.attribute_depth(t), depths(p)), what + ": depths")
    ctx.ok(np.array_equal(hg.attribute_topological_height(t), top), what + ": topological heights")
    vol = [0.0] * N
    al = alt.tolist()
    for i in range(N):
        vol[i] += area[i] * abs(al[i] - al[q[i]]) if i >= L else 0
        if i < N - 1:
            vol[q[i]] += vol[i]
    ctx.ok(np.allclose(hg.attribute_volume(t, alt), vol), what + ": volumes")
    ht = np.array([al[q[i]] - low[i] for i in range(N)])
    ctx.ok(np.allclose(hg.attribute_height(t, alt)[L:], ht[L:]), what + ": heights")
    last, num = [-1] * N, [0] * N
    cn = np.zeros(N, dtype=np.int64)
    for i in range(N - 1):
        cn[i] = num[q[i]]
        num[q[i]] += 1
    ctx.ok(np.array_equal(hg.attribute_child_number(t)[:-1], cn[:-1]), what + ": child numbers")
    start = np.append(0, np.cumsum(num))
    order = np.argsort(p[:-1], kind="stable")
    k = start[p[:-1]] + (cn[:-1] + 1) % np.array(num)[p[:-1]]
    ctx.ok(np.array_equal(hg.attribute_sibling(t)[:-1], order[k]), what + ": siblings")
    ctx.ok(np.array_equal(hg.attribute_lca_map(t, leaf_graph=mk(L, np.zeros(L - 1, dtype=np.int64), np.arange(1, L))), Lca(p)(np.zeros(L - 1, dtype=np.int64), np.arange(1, L))) if L > 1 else True, what + ": lowest common ancestors")
    ctx.state((fam, n))


def c21(case, ctx):
    shape = tuple(case)
    n = int(np.prod(shape))
    g = hg.get_4_adjacency_graph(shape)
    s, t = g.edge_list()
    w = weights_of(len(s), "ties").astype("float64")
    tree, alt = hg.quasi_flat_zone_hierarchy(g, w)
    p = np.asarray(tree.parents())
    q, N, L = p.tolist(), len(p), n
    what = "grid of shape %r" % (shape,)
    lca = Lca(p)(s, t)
    fl = np.bincount(lca, minlength=N)
    fw = np.bincount(lca, w, N)
    per = [4.0] * L + [0.0] * (N - L)
    for i in range(N):
        per[i] -= 2.0 * fl[i]
        if i < N - 1:
            per[q[i]] += per[i]
    v = np.random.RandomState(n).randint(0, 255, shape).astype("uint8")
    sm = v.ravel().astype("float64").tolist() + [0.0] * (N - L)
    ar = [1] * L + [0] * (N - L)
    for i in range(N - 1):
        sm[q[i]] += sm[i]
        ar[q[i]] += ar[i]
    ctx.op(6)
    ctx.ok(np.array_equal(hg.attribute_frontier_length(tree), fl), what + ": frontier lengths")
    ctx.ok(np.allclose(hg.attribute_frontier_strength(tree, w)[L:], fw[L:] / fl[L:]), what + ": frontier strengths")
    ctx.ok(np.array_equal(hg.attribute_contour_length(tree), per), what + ": contour lengths")
    ctx.ok(np.allclose(hg.attribute_mean_vertex_weights(tree, v), np.array(sm) / ar), what + ": means")
    ctx.ok(np.allclose(hg.attribute_compactness(tree, normalize=False), np.array(ar) / np.array(per) ** 2), what + ": compactness")
    ctx.ok(np.array_equal(hg.attribute_vertex_coordinates(g).reshape(-1, 2), np.stack(np.unravel_index(np.arange(n), shape), -1)), what + ": coordinates")
    ctx.state(shape)


def c22(case, ctx):
    fam, n = case
    p = tree_of(fam, n)
    L, N = num_leaves(p), len(p)
    t = hg.Tree(p)
    what = "%s tree of %d nodes" % (fam, N)
    lab = np.random.RandomState(n).randint(0, 7, L)
    i, j = np.triu_indices(L, 1)
    l = Lca(p)(i, j)
    h = np.zeros((N, 7))
    h[np.arange(L), lab] = 1
    q = p.tolist()
    for k in range(N - 1):
        h[q[k]] += h[k]
    pur = h / h.sum(1, keepdims=True)
    eq = lab[i] == lab[j]
    ctx.op(2)
    ctx.ok(abs(float(hg.dendrogram_purity(t, lab)) - pur[l[eq], lab[i][eq]].mean()) < 1e-9, what + ": dendrogram purity")
    sel = (i * 7919 + j * 31) % 5 == 0
    sel[np.flatnonzero(i == 0)] = True
    g = mk(L, i[sel], j[sel])
    w = 1.0 + (i[sel] + j[sel]) % 5
    hg.CptHierarchy.link(t, g)
    want = (h.sum(1)[l[sel]] / w).sum()
    ctx.ok(abs(float(hg.dasgupta_cost(t, w, g)) - want) < 1e-9 * want, what + ": Dasgupta cost")
    ctx.state((fam, n))


def c23(case, ctx):
    shape = tuple(case)
    g = hg.get_4_adjacency_graph(shape)
    s, t = g.edge_list()
    w = np.random.RandomState(s.size).randint(1, 60000, s.size).astype("int32")
    H, W = shape
    for border in (False, True):
        ctx.op(2)
        kh = hg.graph_4_adjacency_2_khalimsky(g, w, add_extra_border=border)
        o = 1 if border else 0
        y = (s // W + t // W) + o
        x = (s % W + t % W) + o
        ctx.ok(kh.shape == ((2 * H + 1, 2 * W + 1) if border else (2 * H - 1, 2 * W - 1)) and np.array_equal(kh[y, x], w), "shape %r, border %r: Khalimsky map" % (shape, border))
        g2, w2 = hg.khalimsky_2_graph_4_adjacency(kh, extra_border=border)
        ctx.ok(np.array_equal(w2, w) and np.array_equal(g2.edge_list()[0], s), "shape %r, border %r: Khalimsky map and back" % (shape, border))
    lab = np.random.RandomState(3).randint(0, 2, H * W)
    for m in (lab[s] != lab[t], np.ones(s.size, bool)):
        c = hg.fit_contour_2d(g, shape, m.astype("uint8"))
        got = sorted(int(e[0]) if hasattr(e, "__len__") else int(e) for poly in c for seg in poly for e in seg)
        ctx.ok(got == np.flatnonzero(m).tolist(), "shape %r: edges of the contours" % (shape,))
    ctx.state(shape)


def c24(case, ctx):
    import os
    from checks.c24 import path
    fam, n = case
    f = path("size")
    try:
        if fam in TREES:
            p = tree_of(fam, n)
            N = len(p)
            a = {"a": np.arange(N) * 1.5, "b": np.arange(N)[::-1] * 2.0}
            hg.save_tree(f, hg.Tree(p), a)
            t, b = hg.read_tree(f)
            ctx.ok(np.array_equal(t.parents(), p) and sorted(b) == sorted(a) and all(np.array_equal(a[k], b[k]) for k in a), "saved %s tree of %d nodes" % (fam, N))
        else:
            N, s, t = graph_of(fam, n)
            v, w = np.arange(N) % 1000 * 1.0, np.arange(len(s)) % 777 * 1.0
            hg.save_graph_pink(f, mk(N, s, t), v, w, (1, N))
            g, v2, w2 = hg.read_graph_pink(f)
            a, b = g.edge_list()
            ctx.ok(g.num_vertices() == N and np.array_equal(np.minimum(a, b), np.minimum(s, t)) and np.array_equal(np.maximum(a, b), np.maximum(s, t)) and np.array_equal(np.ravel(v2), v) and np.array_equal(w2, w),
                   "saved %s of %d vertices" % (fam, N))
    finally:
        if os.path.exists(f):
            os.remove(f)
    ctx.op(2)
    ctx.state((fam, n))


def sorted_copy(a):
    b = a.copy()
    hg.sort(b)
    return b


def c26(case, ctx):
    n = case[0]
    r = np.random.RandomState(n)
    for dt, a in (("uint8", r.randint(0, 256, n)), ("int32", r.randint(-300, 300, n)), ("float64", r.rand(n)), ("uint16", r.permutation(n) % 65536), ("int64", np.arange(n)[::-1])):
        a = a.astype(dt)
        ctx.op(2)
        ctx.ok(np.array_equal(hg.arg_sort(a, True), np.argsort(a, kind="stable")), "stable order of %d values of type %s" % (n, dt))
        ctx.ok(np.array_equal(sorted_copy(a), np.sort(a)), "sort of %d values of type %s" % (n, dt))
        o = hg.arg_sort(a, False)
        ctx.ok(np.array_equal(a[o], np.sort(a)) and np.array_equal(np.sort(o), np.arange(n)), "order of %d values of type %s" % (n, dt))
    for fam in GRAPHS:
        N, s, t = graph_of(fam, n)
        g = mk(N, s, t)
        w = 1.0 + r.permutation(len(s))
        M = hg.undirected_graph_2_adjacency_matrix(g, w, sparse=True).tocsr()
        ctx.ok(M.nnz == 2 * len(s) and np.array_equal(np.asarray(M[s, t]).ravel(), w) and np.array_equal(np.asarray(M[t, s]).ravel(), w), "sparse matrix of a %s of %d vertices" % (fam, N))
        g2, w2 = hg.adjacency_matrix_2_undirected_graph(M)
        a, b = g2.edge_list()
        k1, k2 = np.minimum(s, t) * N + np.maximum(s, t), np.minimum(a, b) * N + np.maximum(a, b)
        o1, o2 = np.argsort(k1), np.argsort(k2)
        ctx.ok(np.array_equal(k1[o1], k2[o2]) and np.array_equal(w[o1], w2[o2]), "graph of the matrix of a %s of %d vertices" % (fam, N))
        v = r.randint(0, 200, N).astype("float64")
        ctx.ok(np.array_equal(hg.weight_graph(g, v, hg.WeightFunction.L1), np.abs(v[s] - v[t])), "weights of a %s of %d vertices" % (fam, N))
        ei = np.arange(len(s))[::-3].copy()
        sg = hg.subgraph(g, ei)
        a, b = sg.edge_list()
        ctx.ok(sg.num_vertices() == N and np.array_equal(np.minimum(a, b), np.minimum(s, t)[ei]) and np.array_equal(np.maximum(a, b), np.maximum(s, t)[ei]), "sub-graph of a %s of %d vertices" % (fam, N))
        vs = r.permutation(N)[: N // 2]
        ig = hg.vertex_induced_subgraph(g, vs)
        pos = np.full(N, -1)
        pos[vs] = np.arange(len(vs))
        x, y = pos[s], pos[t]
        keep = (x >= 0) & (y >= 0)
        a, b = ig.edge_list()
        M2 = len(vs)
        ctx.ok(ig.num_vertices() == M2 and np.array_equal(np.sort(np.minimum(a, b) * M2 + np.maximum(a, b)), np.sort((np.minimum(x, y) * M2 + np.maximum(x, y))[keep])), "induced sub-graph of a %s of %d vertices" % (fam, N))
    ctx.state(n)


def c27(case, ctx):
    fam, n = case
    p = tree_of(fam, n)
    N, L = len(p), num_leaves(p)
    t = hg.Tree(p)
    r = np.random.RandomState(n)
    alt = r.randint(0, 1000, N).astype("float64")
    dead = r.rand(N) < 0.6
    dead[-1] = False
    own = p.copy()
    for i in range(N - 2, -1, -1):
        own[i] = own[p[i]] if dead[i] else i
    own[-1] = N - 1
    ctx.op(2)
    ctx.ok(np.array_equal(hg.reconstruct_leaf_data(t, alt, dead), alt[own[:L]]), "%s tree of %d nodes: reconstruction" % (fam, N))
    m1, m2 = r.rand(L) < 0.02, r.rand(L) < 0.02
    m1[0], m2[-1] = True, True
    q = p.tolist()
    has = [m1.tolist() + [False] * (N - L), m2.tolist() + [False] * (N - L)]
    for h in has:
        for i in range(N - 1):
            h[q[i]] = h[q[i]] or h[i]
    h1, h2 = np.array(has[0]), np.array(has[1])
    good = h1 & ~h2                                    # nodes with object markers and no background marker
    up = good.copy()
    for i in range(N - 2, -1, -1):
        up[i] = up[i] or up[p[i]]
    got = hg.binary_labelisation_from_markers(t, m1.astype("uint8"), m2.astype("uint8"))
    ctx.ok(np.array_equal(np.asarray(got) != 0, up[:L]), "%s tree of %d nodes: labels of the markers" % (fam, N))
    ctx.state((fam, n))


def _trees(fams=TREES, sizes=SMALL + BIG):
    return lambda: ([f, n] for n in sizes for f in fams)


def _graphs(fams=GRAPHS, sizes=SMALL + BIG, kinds=None):
    return lambda: ([f, n] + ([k] if k else []) for n in sizes for f in fams for k in (kinds or (None,)))


K3 = ("distinct", "int", "ties")
T5, G4 = "5 families of trees of 130 to 66000 nodes", "4 families of graphs of 130 to 66000 vertices"
SHAPES = lambda: ([8, 17], [130, 131], [1, 33000], [33000, 1], [257, 258], [66000, 1], [1, 66000])
TABLE = {
    "C01": [("sizes", _graphs(), c01, G4)],
    "C02": [("sizes", _trees(), c02, T5)],
    "C03": [("sizes", _trees(), c03, T5)],
    "C04": [("sizes", lambda: list(SHAPES()) + [[41, 41, 41], [2, 1, 33000], [3, 130, 257]], c04, "shapes of up to 100000 points")],
    "C06": [("sizes", _trees(), c06, T5)],
    "C07": [("sizes", _graphs(), c07, G4)],
    "C08": [("sizes", _graphs(kinds=K3), c08, G4)],
    "C09": [("sizes", _graphs(kinds=K3), c09, G4)],
    "C10": [("sizes", _trees(), c10, T5)],
    "C11": [("sizes", lambda: ([n] for n in (30, 60, 130, 260)), c11, "complete graphs of 30 to 260 points")],
    "C12": [("sizes", _graphs(kinds=("distinct", "int", "ties")), c12, G4), ("sizes of images", lambda: [[9, 8], [40, 33], [3, 300]], c12_tos, "images of up to 40 x 33")],
    "C13": [("sizes", _graphs(kinds=("distinct", "int")), c13, G4)],
    "C14": [("sizes", _graphs(), c14, G4)],
    "C15": [("sizes", _trees(TREES[:1] + TREES[2:]), c15, T5)],
    "C16": [("sizes", _trees(), c16, T5)],
    "C17": [("sizes", _trees(), c17, T5)],
    "C19": [("sizes", lambda: ([n] for n in (130, 255, 256, 257, 1030, 32769, 65536, 65537, 66000)), c19, "cycles and paths of up to 66000 vertices")],
    "C20": [("sizes", _trees(), c20, T5)],
    "C21": [("sizes", lambda: ([8, 17], [130, 131], [257, 258], [300, 2]), c21, "grids of up to 66000 pixels")],
    "C22": [("sizes", _trees(TREES[:1] + TREES[2:], sizes=(130, 260, 600)), c22, "trees of 130 to 600 nodes")],
    "C23": [("sizes", lambda: ([8, 17], [130, 131], [3, 300], [300, 2]), c23, "grids of up to 66000 pixels")],
    "C24": [("sizes", lambda: ([f, n] for n in SMALL + BIG for f in TREES + GRAPHS), c24, T5 + ", " + G4)],
    "C27": [("sizes", _trees(), c27, T5)],
    "C26": [("sizes", lambda: ([n] for n in (130, 260, 1030, 32770, 65537, 70000)), c26, "130 to 70000 elements")],
}


def groups(pid):
    return [Group(a, b, c, d, limit=120) for a, b, c, d in TABLE.get(pid, ())]
