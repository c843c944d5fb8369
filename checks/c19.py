"""All small multigraphs through the bipartite test (graph and edge list forms) and all small weighted bipartite multigraphs through the
matching, against the parity of cycles and the exhaustive list of matchings."""
import itertools
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, ints

ID = "C19"
ASSUMPTIONS = ["Matching weights are integers (other types are converted with a warning) whose spread times the number of vertices is below 2^40."]


def two_coloring(n, edges):
    adj = [[] for _ in range(n)]
    for a, b in edges:
        adj[a].append(b)
        adj[b].append(a)
    col = [None] * n
    for s in range(n):
        if col[s] is None:
            col[s] = 0
            st = [s]
            while st:
                v = st.pop()
                for x in adj[v]:
                    if col[x] is None:
                        col[x] = 1 - col[v]
                        st.append(x)
                    elif col[x] == col[v]:
                        return None
    return col


def forms(n, edges):
    s, t = [a for a, _ in edges], [b for _, b in edges]
    yield "graph", mk_graph(n, edges)
    yield "arrays", (np.array(s, dtype="int64"), np.array(t, dtype="int64"), n)
    if edges:
        yield "lists", (s, t, n)


def bipartite(case, ctx):
    n, edges = case[0], [tuple(e) for e in case[1]]
    ctx.state((n, tuple(edges)))
    want = two_coloring(n, edges)
    for nm, g in forms(n, edges):
        what = "%d vertices, edges %r (%s):" % (n, edges, nm)
        ctx.op(2)
        r, c = hg.is_bipartite_graph(g)
        ctx.eq(bool(r), want is not None, what + " is_bipartite_graph")
        ctx.eq(bool(hg.is_bipartite_graph(g, False)), want is not None, what + " is_bipartite_graph without coloring")
        if want is None:
            ctx.eq(np.asarray(c).size, 0, what + " coloring of a graph which is not bipartite")
            if nm != "lists":
                ctx.raises(lambda: hg.bipartite_graph_matching(g, np.ones(len(edges), dtype="int64")), what + " matching")
        else:
            c = ints(c)
            ctx.ok(len(c) == n and all(x in (0, 1) for x in c) and all(c[a] != c[b] for a, b in edges), what + " coloring %r" % (c,))
            ctx.outcome(tuple(c))
    if edges:
        s, t = np.array([a for a, _ in edges]), np.array([b for _, b in edges])
        for bad in ((s, t, n - 1 - min(n - 1, n - 1 - max(max(s), max(t)))), (s, t[:-1], n), (s - n, t, n)):
            if max(max(bad[0]), max(bad[1], default=0)) >= bad[2] or min(bad[0]) < 0 or len(bad[0]) != len(bad[1]):
                ctx.raises(lambda: hg.is_bipartite_graph(bad), "edge list %r" % (bad,))


def best_matching(n, edges, w):
    """(size, smallest weight) of the maximum matchings."""
    best = (0, 0)

    def rec(i, used, k, c):
        nonlocal best
        if k > best[0] or (k == best[0] and c < best[1]):
            best = (k, c)
        for j in range(i, len(edges)):
            a, b = edges[j]
            if not used >> a & 1 and not used >> b & 1:
                rec(j + 1, used | 1 << a | 1 << b, k + 1, c + w[j])
    rec(0, 0, 0, 0)
    return best


def matching(case, ctx):
    n, edges, weights, k = case[0], [tuple(e) for e in case[1]], case[2], case[3]
    for w in weights:
        k += 1
        ctx.state((n, tuple(edges), tuple(w)))
        fm = list(forms(n, edges))
        nm, g = fm[k % len(fm)]
        dt = ("int64", "int32", "float64", "int16")[k % 4] if max(map(abs, w), default=0) < 10000 else "int64"
        what = "%d vertices, edges %r (%s), weights %r (%s):" % (n, edges, nm, w, dt)
        W = np.array(w, dtype=dt) if k % 5 or not w else list(w)
        keep = np.array(W)
        ctx.op()
        m = ints(hg.bipartite_graph_matching(g, W))
        ctx.eq(np.array(W), keep, what + " the weights were modified")
        ctx.ok(len(set(m)) == len(m) and all(0 <= e < len(edges) for e in m), what + " edges %r" % (m,))
        ends = [v for e in m for v in edges[e]]
        ctx.ok(len(set(ends)) == len(ends), what + " %r is not a matching" % (m,))
        ctx.eq((len(m), sum(w[e] for e in m)), best_matching(n, edges, w), what + " size and weight of the matching %r" % (m,))
        ctx.outcome(tuple(sorted(m)))
    g = mk_graph(n, edges)
    for q in (len(edges) + 1, len(edges) - 1):
        if q >= 0:
            ctx.raises(lambda: hg.bipartite_graph_matching(g, np.zeros(q, dtype="int64")), "%d weights for %d edges" % (q, len(edges)))


def assignment(case, ctx):
    """Complete bipartite graphs: all the permutations."""
    n, seed = case
    r = gen.lcg(seed)
    rng = (4, 100, 10 ** 6)[seed % 3]
    c = [[next(r) % rng - (rng // 2 if seed % 2 else 0) for _ in range(n)] for _ in range(n)]
    ctx.state((n, seed))
    edges = [(i, n + j) if (i + j + seed) % 2 else (n + j, i) for i in range(n) for j in range(n)]
    w = [c[i][j] for i in range(n) for j in range(n)]
    g = mk_graph(2 * n, edges)
    ctx.op()
    m = ints(hg.bipartite_graph_matching(g, np.array(w)))
    best = {0: 0}
    for i in range(n):
        nb = {}
        for mask, v in best.items():
            for j in range(n):
                if not mask >> j & 1:
                    x = v + c[i][j]
                    q = mask | 1 << j
                    if q not in nb or x < nb[q]:
                        nb[q] = x
        best = nb
    what = "complete bipartite graph of %d + %d vertices, weights %r:" % (n, n, c)
    ctx.eq((len(m), len({v for e in m for v in edges[e]})), (n, 2 * n), what + " edges of the matching")
    ctx.eq(sum(w[e] for e in m), best[(1 << n) - 1], what + " weight of the matching")


def groups(tier):
    deep = tier != "quick"

    def bip():
        for n in range(0, 4):
            for es in gen.multigraphs(n, 4 if n > 1 else 2, ordered=True) if n < 3 or deep else gen.multigraphs(n, 3, ordered=True):
                yield [n, [(b, a) if (i + a) % 2 else (a, b) for i, (a, b) in enumerate(es)]]
        for n in (4, 5):
            for k, es in enumerate(gen.simple_graphs(n)):
                for o in range(4 if n == 4 else 2):
                    r = gen.lcg(k * 7 + o)
                    es2 = sorted(((b, a) if next(r) % 2 else (a, b) for a, b in es), key=lambda e: (next(r) % 1000, e))
                    if two_coloring(n, es) is not None or (k + o) % 3 == 0:
                        yield [n, es2]
        for q in range(1500 if deep else 200):
            r = gen.lcg(q)
            n = 6 + q % 10
            col = [next(r) % 2 for _ in range(n)]
            es = []
            for _ in range(n + next(r) % n):
                a, b = next(r) % n, next(r) % n
                if col[a] != col[b] or next(r) % (5 * n) == 0:
                    es.append((a, b))
            yield [n, es]
        # even and odd cycles, paths in all orders of a few kinds
        for n in range(2, 13):
            cyc = [(i, (i + 1) % n) for i in range(n)]
            for s in range(1, n):
                yield [n, [cyc[i * s % n] for i in range(n)] if np.gcd(s, n) == 1 else cyc[s:] + cyc[:s]]
                yield [n, [cyc[i * s % n] for i in range(n - 1)] if np.gcd(s, n) == 1 else cyc[:s]]

    def mat():
        k = 0
        for n in range(1, 5):
            for es in gen.multigraphs(n, 4 if n < 4 else 3, loops=False):
                if two_coloring(n, es) is None:
                    continue
                vals = [-2, 0, 1, 3] if len(es) < 4 else [0, 1]
                k += 1
                yield [n, [(b, a) if (i + k) % 2 else (a, b) for i, (a, b) in enumerate(es)], list(itertools.product(vals, repeat=len(es))), k]
        for q, es in enumerate(gen.simple_graphs(5)):
            if two_coloring(5, es) is not None and len(es) > 2:
                r = gen.lcg(q)
                yield [5, es, [[next(r) % 4 - (j % 2) * 2 for _ in es] for j in range(8 if deep else 3)] + [[0] * len(es), [-1] * len(es)], q]
        for a, b in ((3, 3), (2, 4), (1, 5)):
            ps = [(i, a + j) for i in range(a) for j in range(b)]
            for mask in range(1, 1 << len(ps)):
                if deep or a < 3 or mask % 3 == 0:
                    es = [ps[i] for i in range(len(ps)) if mask >> i & 1]
                    r = gen.lcg(mask)
                    yield [6, es, [[next(r) % 5 for _ in es], [next(r) % 3 - 1 for _ in es]] + ([[5 if i else 20000 for i, _ in enumerate(es)]] if mask % 4 == 0 else []), mask]
        for q in range(600 if deep else 80):
            r = gen.lcg(q)
            a, b = 2 + q % 4, 3 + q % 5
            es = [(i, a + j) for i in range(a) for j in range(b) if next(r) % 3]
            yield [a + b, es, [[next(r) % 50 - 10 for _ in es], [next(r) % 2 for _ in es], [next(r) % 10 ** 6 for _ in es]], q]

    def asg():
        for n in range(1, 9):
            for q in range(60 if deep else 12):
                yield [n, q]
    return [Group("bipartite test", bip, bipartite, "all edge lists (in all orders) of at most 4 edges on 3 vertices (3 edges on 3 vertices in the quick tier), all simple graphs of 4 and 5 vertices in a few orders, cycles and paths, larger graphs"),
            Group("matching", mat, matching, "all bipartite multigraphs of at most 4 vertices and 4 edges with all weights in {-2,0,1,3} ({0,1} for 4 edges); bipartite graphs of 5 and 6 vertices", limit=20),
            Group("assignment", asg, assignment, "complete bipartite graphs up to 8+8", limit=20)]
