"""All small weighted graphs, seed placements and minima orderings through the watershed cuts and watershed hierarchies, against the drop of water principle, min-max distances and extinction values on a minimum spanning tree."""
import itertools
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, ints, edges_of

ID = "C13"
ASSUMPTIONS = ["An isolated vertex is a basin of its own; a vertex connected to no seed keeps the background label.",
               "When edges of equal weight allow several minimum spanning trees, the hierarchy of any of them is accepted.",
               "Watershed hierarchies are defined on connected graphs."]
INF = float("inf")
TYPES = ["float64", "int32", "uint8", "int8", "float32", "uint64", "int64", "uint16"]


def minima(n, edges, w):
    """Vertex sets of the regional minima, an isolated vertex being one."""
    out = []
    f = [min([x for (a, b), x in zip(edges, w) if v in (a, b)], default=None) for v in range(n)]
    for k in set(f):
        if k is None:
            out += [frozenset([v]) for v in range(n) if f[v] is None]
            continue
        lab = gen.components(n, [e for e, x in zip(edges, w) if x == k])
        for c in set(lab):
            s = frozenset(v for v in range(n) if lab[v] == c)
            inc = [x for (a, b), x in zip(edges, w) if a in s or b in s]
            if inc and min(inc) == k and any(x == k for (a, b), x in zip(edges, w) if a in s and b in s):
                out.append(s)
    return f, out


def cut(case, ctx):
    n, edges, w, k = case
    edges = [tuple(e) for e in edges]
    ctx.state((n, tuple(edges), tuple(w)))
    g = mk_graph(n, edges)
    f, ms = minima(n, edges, w)
    dt = TYPES[k % len(TYPES)]
    if max(w, default=0) > 127 and "8" in dt:
        dt = "int32"
    vals = {"int8": [-128, -3, 0, 1, 126, 127, 127], "uint8": [0, 1, 7, 100, 254, 255, 255], "float64": [-np.inf, -2.5, 0, 1e-3, 3, np.inf, np.inf]}.get(dt)
    nv = max(w, default=0) + 1
    if dt == "float64" and (k // len(TYPES)) % 2:
        vals = [x * 2.0 ** -60 for x in (-3, -2, -1, 0, 1, 2, 3)]
    W = np.array([vals[x if k % 3 else x - nv + 6] if vals and nv <= 6 else x for x in w], dtype=dt)
    what = "watershed of %d vertices, edges %r, weights %r (%s):" % (n, edges, W.tolist(), dt)
    ctx.op()
    lab = ints(hg.labelisation_watershed(g, W))
    ctx.eq(sorted(set(lab)), list(range(1, len(ms) + 1)), what + " labels")
    got = {}
    for m in ms:
        s = {lab[v] for v in m}
        ctx.ok(len(s) == 1, what + " minimum %r has labels %r" % (sorted(m), s))
        got[s.pop()] = m
    ctx.ok(len(got) == len(ms), what + " two minima have the same label: %r" % lab)
    # descending paths inside each region
    done = set().union(*ms)
    grow = True
    while grow:
        grow = False
        for (a, b), x in zip(edges, w):
            for u, v in ((a, b), (b, a)):
                if u not in done and v in done and lab[u] == lab[v] and x == f[u]:
                    done.add(u)
                    grow = True
    ctx.ok(len(done) == n, what + " labels %r: no path of steepest descent from %r to the minimum of its region" % (lab, sorted(set(range(n)) - done)))
    ctx.outcome(tuple(lab))


def cut_all(case, ctx):
    """All the orders of the weights of a graph."""
    n, es, k = case
    for i, w in enumerate(gen.weak_orders(len(es))):
        cut((n, es, w, k + i), ctx)


def dist(n, edges, w):
    d = [[-1 if i == j else INF for j in range(n)] for i in range(n)]
    for (a, b), x in zip(edges, w):
        if a != b:
            d[a][b] = d[b][a] = min(d[a][b], x)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                d[i][j] = min(d[i][j], max(d[i][k], d[k][j]))
    return d


def seeded_one(ctx, g, n, edges, w, seeds, d, q, k):
    ctx.state((n, tuple(edges), tuple(w), tuple(seeds)))
    bg, names = [(0, (0, 1, 2)), (-1, (-1, 0, 7)), (5, (5, -3, 0)), (0, (0, 200, 1))][(q + k) % 4]
    S = np.array([names[s] for s in seeds], dtype=["int64", "int32", "int16"][q % 3] if bg else ["uint8", "int64", "uint64", "int16"][q % 4])
    W = np.array(w, dtype=TYPES[(q + k) % 8])
    what = "seeded watershed of %d vertices, edges %r, weights %r, seeds %r, background %d:" % (n, edges, w, S.tolist(), bg)
    ctx.op()
    lab = ints(hg.labelisation_seeded_watershed(g, W, S) if bg == 0 and q % 2 else hg.labelisation_seeded_watershed(g, W, S, bg))
    for v in range(n):
        near = [d[v][u] for u in range(n) if seeds[u]]
        m = min(near, default=INF)
        ok = {names[seeds[u]] for u in range(n) if seeds[u] and d[v][u] == m} if m < INF else {bg}
        if lab[v] not in ok:
            raise Violation("%s %r, vertex %d is closest to %r" % (what, lab, v, sorted(ok)))
    zones = gen.components(n, [e for e in edges if lab[e[0]] == lab[e[1]]])
    for v in range(n):
        if lab[v] != bg and not any(zones[u] == zones[v] and names[seeds[u]] == lab[v] for u in range(n)):
            raise Violation("%s %r, the zone of vertex %d contains no seed" % (what, lab, v))
    # spanned by a minimum spanning forest rooted in the seeds: each vertex is joined to a seed of its zone along a min-max path inside the zone
    dz = dist(n, *zip(*[(e, x) for e, x in zip(edges, w) if lab[e[0]] == lab[e[1]]])) if any(lab[a] == lab[b] for a, b in edges) else dist(n, [], [])
    for v in range(n):
        m = min([d[v][u] for u in range(n) if seeds[u]], default=INF)
        if m < INF and min(dz[v][u] for u in range(n) if seeds[u] and names[seeds[u]] == lab[v]) != m:
            raise Violation("%s %r, vertex %d is joined to no seed of its region by a path of altitude %r" % (what, lab, v, m))
    ctx.compared += 1
    ctx.outcome(tuple(lab))


def seeded(case, ctx):
    n, edges, w, k = case
    edges = [tuple(e) for e in edges]
    g = mk_graph(n, edges)
    d = dist(n, edges, w)
    for q, seeds in enumerate(itertools.product(range(3), repeat=n)):
        if any(s == 2 for s in seeds) and 1 not in seeds or (n > 3 and (q + k) % 3):
            continue
        seeded_one(ctx, g, n, edges, w, seeds, d, q, k)
    ctx.raises(lambda: hg.labelisation_seeded_watershed(g, np.array(w, dtype="float64"), np.zeros(n)), "real valued seeds")
    ctx.raises(lambda: hg.labelisation_seeded_watershed(g, np.array(list(w) + [0.0]), np.zeros(n, dtype=int)), "too many weights")
    ctx.raises(lambda: hg.labelisation_seeded_watershed(g, np.array(w, dtype="float64"), np.zeros(n + 1, dtype=int)), "too many seeds")


def seeded_large(case, ctx):
    n, edges, w, k = case
    edges = [tuple(e) for e in edges]
    g = mk_graph(n, edges)
    d = dist(n, edges, w)
    r = gen.lcg(k)
    for q in range(8):
        seeds = [(1 + next(r) % 2) if next(r) % (2 + 3 * (q % 4)) == 0 else 0 for _ in range(n)]
        seeded_one(ctx, g, n, edges, w, seeds, d, q, k)


# ---- hierarchies -------------------------------------------------------------------------------
def kruskal(n, edges, order):
    lab = list(range(n))
    out = []
    for e in order:
        a, b = lab[edges[e][0]], lab[edges[e][1]]
        if a != b:
            out.append(e)
            lab = [a if x == b else x for x in lab]
    return out


class Zones:
    """The tree of quasi-flat zones (connected components of the edges of weight at most k), by increasing weight."""

    def __init__(self, n, edges, w):
        self.n = n
        self.lv = sorted(set(w))
        self.reg = {}       # region -> (altitude, parent altitude)
        self.kids = {}
        prev = {frozenset([v]) for v in range(n)}
        for k in self.lv:
            lab = gen.components(n, [e for e, x in zip(edges, w) if x <= k])
            cur = {frozenset(v for v in range(n) if lab[v] == c) for c in set(lab)}
            for s in cur - prev:
                self.reg[s] = [k, k]
                self.kids[s] = [t for t in prev if t < s]
                for t in self.kids[s]:
                    if t in self.reg:
                        self.reg[t][1] = k
            prev = cur

    def area(self, s, area):
        return sum(area[v] for v in s)

    def volume(self, s, area):
        if s not in self.reg:
            return 0
        a, p = self.reg[s]
        return (p - a) * self.area(s, area) + sum(self.volume(t, area) for t in self.kids[s])

    def lowest(self, s):
        return min(self.reg[t][0] for t in self.reg if t <= s)

    def dynamics(self):
        """Extinction by height of the minima, then of the regions."""
        mins = [s for s in self.reg if not any(t < s for t in self.reg)]
        mins.sort(key=lambda s: self.reg[s][0])
        ext = {}
        for i, s in enumerate(mins):
            up = [t for t in self.reg if s <= t and any(m <= t for m in mins[:i])]
            top = min(up, key=len) if up else None
            ext[s] = (self.reg[top][0] if up else self.lv[-1]) - self.reg[s][0]
        return {s: max(ext[m] for m in mins if m <= s) for s in self.reg}

    def inner(self, s):
        return sum(1 for t in self.reg if t <= s and any(u in self.reg for u in self.kids[t]))


def hier_oracle(n, edges, w, mst, reg_attr):
    """Weights of the edges of a minimum spanning tree: the smaller of the values of the regions merged,
    a union of regions merged at the same level having the largest of their values."""
    own = {v: frozenset([v]) for v in range(n)}
    val = {frozenset([v]): 0 for v in range(n)}
    out = []
    for i, e in enumerate(mst):
        a, b = own[edges[e][0]], own[edges[e][1]]
        out.append(min(val[a], val[b]))
        u = a | b
        val[u] = reg_attr[u] if u in reg_attr else max(val[a], val[b])
        for v in u:
            own[v] = u
    return out


def saliency_of(n, edges, mst, ew):
    d = dist(n, [edges[e] for e in mst], ew)
    return [d[a][b] if a != b else 0 for a, b in edges]


def allowed(n, edges, w, reg_attr):
    """Saliency maps of all the minimum spanning trees, the one of the order of the edges first."""
    lv = sorted(set(w))
    idx = [[e for e in range(len(edges)) if w[e] == k] for k in lv]
    for perm in itertools.product(*[itertools.permutations(i) for i in idx]):
        mst = kruskal(n, edges, [e for p in perm for e in p])
        yield saliency_of(n, edges, mst, hier_oracle(n, edges, w, mst, reg_attr))


def tree_saliency(t, alt, edges):
    p = ints(t.parents())
    return [0 if a == b else float(alt[gen.lca(p, a, b)]) for a, b in edges]


def compare(ctx, n, edges, w, reg_attr, fn, what, cache, g):
    t, alt = fn(True)
    A = np.asarray(alt).tolist()
    got = tree_saliency(t, A, edges)
    ctx.compared += 1
    for i, s in enumerate(allowed(n, edges, w, reg_attr)):
        if [float(x) for x in s] == got:
            break
        if i == 0:
            first = s
        if i > 20000:
            return
    else:
        raise Violation("%s saliency %r, expected %r" % (what, got, first))
    p = ints(t.parents())
    L = t.num_leaves()
    ctx.ok(L == n and A[:n] == [0] * n and hg.CptHierarchy.get_leaf_graph(t) is g, what + " leaves")
    ctx.ok(all(A[i] < A[p[i]] for i in range(n, len(p) - 1)) if len(p) > 1 else True, what + " canonized tree %r %r" % (p, A))
    b, ba = fn(False)
    B = np.asarray(ba).tolist()
    ctx.eq(tree_saliency(b, B, edges), got, what + " saliency of the binary tree")
    bp = ints(b.parents())
    ctx.eq(len(bp), 2 * n - 1, what + " size of the binary tree")
    m = ints(hg.CptBinaryHierarchy.get_mst_edge_map(b))
    ls, ch = gen.leaf_sets(bp), gen.children(bp)
    for i in range(n, 2 * n - 1):
        x, y = edges[m[i - n]]
        c1, c2 = ch[i]
        if not (x in ls[c1] and y in ls[c2] or x in ls[c2] and y in ls[c1]):
            raise Violation("%s edge %r associated to node %d of %r does not link its children" % (what, (x, y), i, bp))
    mst = hg.CptBinaryHierarchy.get_mst(b)
    ctx.eq([tuple(sorted(e)) for e in edges_of(mst)], [tuple(sorted(edges[e])) for e in m], what + " edges of the minimum spanning tree")
    ctx.eq(sorted(w[e] for e in m), sorted(w[e] for e in kruskal(n, edges, sorted(range(len(edges)), key=lambda e: w[e]))), what + " weights of the minimum spanning tree")
    if edges:
        s = hg.saliency(t, alt)
        ctx.eq([float(x) for x in s.tolist()], got, what + " saliency function")
        q = hg.quasi_flat_zone_hierarchy(g, s)
        ctx.eq(tree_saliency(*[q[0], q[1].tolist()], edges), got, what + " flat zones of the saliency")
    ctx.outcome(tuple(got))


def hierarchies(case, ctx):
    n, edges, w, k = case
    edges = [tuple(e) for e in edges]
    ctx.state((n, tuple(edges), tuple(w)))
    g = mk_graph(n, edges)
    w = gen.scaled(w, "float64", k // 8) if TYPES[k % 8] == "float64" else w
    z = Zones(n, edges, w)
    W = np.array(w, dtype=TYPES[k % 8])
    what = "%%s: %d vertices, edges %r, weights %r (%s):" % (n, edges, W.tolist(), W.dtype)
    unit = [1] * n
    area = [1 + (v * 5 + k) % 3 for v in range(n)]
    dyn = z.dynamics()
    inner = {s: z.inner(s) + 1 for s in z.reg}
    first = {s: 1 + min(s) for s in z.reg}
    jobs = [("area", {s: len(s) for s in z.reg}, lambda c: hg.watershed_hierarchy_by_area(g, W, canonize_tree=c)),
            ("volume", {s: z.volume(s, unit) for s in z.reg}, lambda c: hg.watershed_hierarchy_by_volume(g, W, canonize_tree=c)),
            ("dynamics", dyn, lambda c: hg.watershed_hierarchy_by_dynamics(g, W, canonize_tree=c)),
            ("number of parents", inner, lambda c: hg.watershed_hierarchy_by_number_of_parents(g, W, canonize_tree=c)),
            ("weighted area", {s: z.area(s, area) for s in z.reg}, lambda c: hg.watershed_hierarchy_by_area(g, W, np.array(area), canonize_tree=c)),
            ("weighted volume", {s: z.volume(s, area) for s in z.reg}, lambda c: hg.watershed_hierarchy_by_volume(g, W, np.array(area, dtype="float64"), canonize_tree=c)),
            ("attribute", {s: 2 * len(s) for s in z.reg}, lambda c: hg.watershed_hierarchy_by_attribute(g, W, lambda t, a: 2 * hg.attribute_area(t), c))]
    for name, attr, fn in jobs:
        ctx.op(2)
        compare(ctx, n, edges, w, attr, fn, what % name, None, g)
    ctx.raises(lambda: hg.watershed_hierarchy_by_area(g, np.zeros(len(edges) + 1)), what % "too many weights")


def ordering(case, ctx):
    n, edges, w, k = case
    edges = [tuple(e) for e in edges]
    g = mk_graph(n, edges)
    z = Zones(n, edges, w)
    mins = [s for s in z.reg if not any(t < s for t in z.reg)]
    W = np.array(w, dtype=TYPES[k % 8])
    perms = list(itertools.permutations(range(1, len(mins) + 1)))
    for q, pm in enumerate(perms):
        for mode in range(3):
            r = [0] * n
            for s, x in zip(mins, pm):
                vs = sorted(s)
                for v in (vs if mode == 0 else vs[-1:] if mode == 1 else vs[:1] + vs[2:]):
                    r[v] = x
            ctx.state((n, tuple(edges), tuple(w), tuple(r)))
            R = np.array(r, dtype=["int64", "uint8", "uint64", "int32"][(q + mode + k) % 4])
            what = "minima ordering: %d vertices, edges %r, weights %r, ranks %r:" % (n, edges, w, r)
            attr = {s: max(x for m, x in zip(mins, pm) if m <= s) for s in z.reg}
            ctx.op(2)
            compare(ctx, n, edges, w, attr, lambda c: hg.watershed_hierarchy_by_minima_ordering(g, W, R, canonize_tree=c), what, None, g)
            for dt in ("float64", "int32"):
                alts = np.array([0] + [5 * i + 2 for i in range(1, len(mins) + 1)], dtype=dt)
                at = {s: alts[x].item() for s, x in attr.items()}
                ctx.op(2)
                compare(ctx, n, edges, w, at, lambda c: hg.watershed_hierarchy_by_minima_ordering(g, W, R, alts, canonize_tree=c), what + " altitudes:", None, g)


def groups(tier):
    deep = tier != "quick"

    def cuts():
        k = 0
        for n, mm in ((1, 2), (2, 3), (3, 4 if deep else 3)):
            for es in gen.multigraphs(n, mm):
                for w in gen.weak_orders(len(es)):
                    k += 1
                    yield [n, es, w, k]
        for es in gen.simple_graphs(4):
            if len(es) <= (6 if deep else 4):
                for w in gen.weak_orders(len(es)):
                    k += 1
                    yield [4, es, w, k]
        for n, es in ((5, [(0, 1), (1, 2), (2, 3), (3, 4)]), (5, [(2, 1), (4, 0), (0, 2), (3, 1)]), (5, [(0, 1), (0, 2), (0, 3), (0, 4), (1, 2)]), (6, gen.grid_edges(2, 3)), (6, [(i, (i + 1) % 6) for i in range(6)])):
            for w in itertools.product(range(3 if deep or n == 5 else 2), repeat=len(es)):
                k += 1
                yield [n, es, w, k]

    def trees():
        k = 0
        for m in (4, 5) if deep else (4,):
            for es in itertools.combinations(gen.pairs(5), m):
                if gen.connected(5, es):
                    for e in ((es, es[::-1], es[2:] + es[:2]) if m == 4 else (es, es[::-1])):
                        k += 1
                        yield [5, e, k]
        star = [(0, 1), (1, 2), (1, 3), (3, 4), (4, 5)]
        for p in itertools.permutations(range(6)):
            if deep or p[0] in (0, 5):
                yield [6, [tuple(sorted((p[a], p[b]))) for a, b in star], sum(x * 6 ** i for i, x in enumerate(p))]

    def seeds():
        k = 0
        for n, mm in ((1, 1), (2, 2), (3, 3)):
            for es in gen.multigraphs(n, mm):
                for w in gen.weak_orders(len(es)):
                    k += 1
                    yield [n, es, w, k]
        for es in gen.simple_graphs(4):
            if len(es) in (3, 4, 5, 6):
                for i, w in enumerate(itertools.product(range(2), repeat=len(es)) if not deep else itertools.product(range(3), repeat=len(es))):
                    if (len(es) < 4 or i % 7 == len(es) - 4) and (deep or i % 2 == 0):
                        k += 1
                        yield [4, es, w, k]

    def connected(step):
        k = 0
        for n, mm in ((1, 0), (2, 2), (3, 3 if not deep else 4)):
            for es in gen.connected_multigraphs(n, mm):
                for w in gen.weak_orders(len(es)):
                    k += 1
                    yield [n, es, w, k]
        for es in gen.simple_graphs(4):
            if gen.connected(4, es) and len(es) <= (5 if deep else 4):
                for i, w in enumerate(gen.weak_orders(len(es))):
                    if deep and len(es) < 5 or (i + k) % step == 0:
                        k += 1
                        yield [4, es, w, k]
                    else:
                        k += 1

    def hier():
        yield from connected(5)
        yield from wide(range(0, 3 ** 5, 1 if deep else 4))

    def wide(ids):
        for es in ([(0, 1), (2, 3), (4, 5), (1, 2), (3, 4)], [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)], [(4, 5), (0, 1), (1, 4), (2, 3), (5, 2)]):
            for i in ids:
                yield [6, es, [i // 3 ** j % 3 for j in range(5)], i]
        for es in ([(0, 1), (2, 3), (4, 5), (6, 7), (1, 2), (5, 6), (3, 4)],):
            for i in ids:
                x = 7 * i
                yield [8, es, [x // 3 ** j % 3 for j in range(7)], i]

    def large():
        """Grids and scattered graphs of 16 to 1600 vertices."""
        k = 0
        for h, w_ in ((4, 4), (5, 6), (7, 7)) + (((9, 9),) if deep else ()):
            for adj in (4, 8):
                es = gen.grid_edges(h, w_, adj)
                for q in range(24 if deep else 6):
                    k += 1
                    r = gen.lcg(31 * q + h)
                    yield [h * w_, es, [next(r) % (2, 3, 5, 9, 20, 1000)[q % 6] for _ in es], k]
        for n in (20, 45):
            for q in range(12 if deep else 4):
                k += 1
                r = gen.lcg(q + n)
                es = [(next(r) % n, next(r) % n) for _ in range(n + n // 2)]
                yield [n, es, [next(r) % (3 + 4 * q) for _ in es], k]
        yield [701, [(i, i + 1) for i in range(700)], [i % 2 for i in range(700)], 0]

    def large_hier():
        """All weights different: a single minimum spanning tree."""
        k = 0
        for h, w_ in ((3, 4), (4, 5)) + (((6, 6),) if deep else ()):
            for adj in (4, 8):
                es = gen.grid_edges(h, w_, adj)
                for q in range(10 if deep else 2):
                    k += 1
                    r = gen.lcg(13 * q + h + adj)
                    yield [h * w_, es, sorted(range(len(es)), key=lambda i: (next(r), i)), k]
        for n in (10, 17, 30):
            for q in range(6 if deep else 2):
                k += 1
                r = gen.lcg(q + n)
                es = [(next(r) % i, i) for i in range(1, n)] + [(next(r) % n, next(r) % n) for _ in range(n // 2 * (q % 2))]
                yield [n, es, sorted(range(len(es)), key=lambda i: (next(r), i)), k]

    def orders():
        yield from connected(7)
        yield from wide(range(0, 3 ** 5, 1 if deep else 6))
    return [Group("watershed cut", cuts, cut, "all multigraphs of 3 vertices and %d edges, all graphs of 4 vertices and %d edges with all weak orders, 5 graphs of 5 and 6 vertices" % ((4, 6) if deep else (3, 4))),
            Group("watershed cut of trees", trees, cut_all, "all the trees of 5 vertices%s in %d edge orders, a tree of 6 vertices in all its numberings, all the weak orders of the weights" % ((" (and connected graphs of 5 edges)", 3) if deep else ("", 3)), limit=120),
            Group("seeded watershed", seeds, seeded, "all multigraphs of 3 vertices and 3 edges, graphs of 4 vertices, all placements of two seed labels, 4 background labels"),
            Group("hierarchies", hier, hierarchies, "connected multigraphs of 3 vertices (all weak orders), graphs of 4 vertices, paths of 6 and 8 vertices; 7 attributes, binary and canonized"),
            Group("larger cuts", large, cut, "watershed cuts of grids and scattered graphs of 16 to 701 vertices"),
            Group("larger seeded", lambda: (c for c in large() if c[0] < 40 and max(c[2]) < 100), seeded_large, "seeded watersheds of grids and scattered graphs of 16 to 30 vertices, 8 placements of the seeds each"),
            Group("larger hierarchies", large_hier, hierarchies, "grids and scattered graphs of 10 to %d vertices, all weights different" % (36 if deep else 30), limit=30),
            Group("minima orderings", orders, ordering, "the same graphs, all orderings of the minima, three ways of marking them, altitudes")]
