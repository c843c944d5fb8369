"""C11: merge sequences of agglomerative binary partition trees checked step by step against the linkage definition: all small graphs, all weights, all linkages, all answers of a custom linkage callback."""
import itertools, math
import numpy as np
import higra as hg
from vf.core import Group, Violation
from vf import gen
from vf.util import ints, mk_graph

ID = "C11"
ASSUMPTIONS = ["complete, average, exponential and custom linkages are defined on graphs without parallel edges (on multigraphs only the validity of the merge sequence is checked); self loops link nothing",
               "comparisons of real valued linkages within 1e-9 (1e-5 in single precision): ties may be merged in any order"]
TOL = 1e-9


def sequence(tree, n, edges, ctx, what, graph=None):
    """The merges (region1, region2, node), each between adjacent regions."""
    p = ints(tree.parents())
    ctx.op()
    if len(p) != 2 * n - 1 or tree.num_leaves() != n:
        raise Violation("%s: tree %r" % (what, p))
    ch = gen.children(p)
    reg = gen.leaf_sets(p)
    out = []
    for i in range(n, 2 * n - 1):
        if len(ch[i]) != 2:
            raise Violation("%s: node %d has children %r" % (what, i, ch[i]))
        a, b = ch[i]
        if not any((x in reg[a] and y in reg[b]) or (x in reg[b] and y in reg[a]) for x, y in edges):
            raise Violation("%s: node %d merges %r and %r, which are not adjacent" % (what, i, sorted(reg[a]), sorted(reg[b])))
        out.append((frozenset(reg[a]), frozenset(reg[b]), i))
    if graph is not None:
        ctx.ok(hg.CptHierarchy.get_leaf_graph(tree) is graph and tree.category() == hg.TreeCategory.PartitionTree, what + " leaf graph and category")
    return out


def greedy(res, n, edges, d, ctx, what, graph=None, correction=False, tol=TOL):
    """Each merge has minimal linkage d(X, Y) among the adjacent pairs, and that altitude."""
    tree, alt = res
    alt = np.asarray(alt).tolist()
    seq = sequence(tree, n, edges, ctx, what, graph)
    ctx.eq(alt[:n], [0] * n, what + " altitudes of the leaves")
    parts = {frozenset([v]) for v in range(n)}
    owner = {v: frozenset([v]) for v in range(n)}
    raw = [0] * (2 * n - 1)
    ch = gen.children(ints(tree.parents()))
    for a, b, i in seq:
        if a not in parts or b not in parts:
            raise Violation("%s: node %d merges regions that do not exist any more" % (what, i))
        best = min(d(x, y) for x, y in {tuple(sorted((owner[s], owner[t]), key=sorted)) for s, t in edges if owner[s] != owner[t]})
        v = d(*sorted((a, b), key=sorted))
        ctx.compared += 1
        if v > best + tol * max(1, abs(best)):
            raise Violation("%s: node %d merges %r and %r at distance %r, the closest pair is at %r" % (what, i, sorted(a), sorted(b), v, best))
        raw[i] = max([v] + [raw[c] for c in ch[i]]) if correction else v
        if abs(alt[i] - raw[i]) > tol * max(1, abs(raw[i])):
            raise Violation("%s: node %d has altitude %r, expected %r" % (what, i, alt[i], raw[i]))
        parts -= {a, b}
        parts.add(a | b)
        for x in a | b:
            owner[x] = a | b
    ctx.outcome((tuple(ints(tree.parents())), tuple(round(x, 6) for x in alt)))


def cross(edges, x, y):
    return [e for e, (s, t) in enumerate(edges) if (s in x and t in y) or (s in y and t in x)]


def linkages(case, ctx):
    n, edges, w, w2 = case[0], [tuple(e) for e in case[1]], list(case[2]), list(case[3])
    ctx.state((n, tuple(edges), tuple(w), tuple(w2)))
    what = "graph of %d vertices, edges %r, weights %r:" % (n, edges, w)
    g = mk_graph(n, edges)
    m = len(edges)
    F = lambda v, dt="float64": np.array(v, dtype=dt)
    conn = gen.connected(n, edges)
    calls = [("complete linkage", lambda: hg.binary_partition_tree_complete_linkage(g, F(w)), lambda x, y: max(w[e] for e in cross(edges, x, y)), TOL),
             ("complete linkage (int)", lambda: hg.binary_partition_tree_complete_linkage(g, F(w, "int64")), lambda x, y: max(w[e] for e in cross(edges, x, y)), TOL),
             ("complete linkage (negative, float32)", lambda: hg.binary_partition_tree_complete_linkage(g, F([x - 2 for x in w], "float32")), lambda x, y: max(w[e] - 2 for e in cross(edges, x, y)), 1e-5),
             ("average linkage", lambda: hg.binary_partition_tree_average_linkage(g, F(w)), lambda x, y: np.mean([w[e] for e in cross(edges, x, y)]), TOL),
             ("average linkage (int)", lambda: hg.binary_partition_tree_average_linkage(g, F(w, "int32")), lambda x, y: np.mean([w[e] for e in cross(edges, x, y)]), TOL),
             ("weighted average linkage %r" % w2, lambda: hg.binary_partition_tree_average_linkage(g, F(w), F(w2)),
              lambda x, y: sum(w[e] * w2[e] for e in cross(edges, x, y)) / sum(w2[e] for e in cross(edges, x, y)), TOL),
             ("weighted average linkage (float32) %r" % w2, lambda: hg.binary_partition_tree_average_linkage(g, F(w, "float32"), F(w2, "int32")),
              lambda x, y: sum(w[e] * w2[e] for e in cross(edges, x, y)) / sum(w2[e] for e in cross(edges, x, y)), 1e-5),
             ("single linkage", lambda: hg.binary_partition_tree_single_linkage(g, F(w)), lambda x, y: min(w[e] for e in cross(edges, x, y)), TOL)]
    for al in (0.5, -1, 2):
        def ex(x, y, al=al, u=None):
            c = cross(edges, x, y)
            u = u or [1] * m
            return sum(u[e] * math.exp(al * w[e]) * w[e] for e in c) / sum(u[e] * math.exp(al * w[e]) for e in c)
        calls.append(("exponential linkage %r" % al, lambda al=al: hg.binary_partition_tree_exponential_linkage(g, F(w), al), ex, TOL))
        calls.append(("weighted exponential linkage %r %r" % (al, w2), lambda al=al: hg.binary_partition_tree_exponential_linkage(g, F(w), al, F(w2)), lambda x, y, ex=ex: ex(x, y, u=w2), TOL))
    calls.append(("exponential linkage 0", lambda: hg.binary_partition_tree_exponential_linkage(g, F(w), 0, F(w2)), calls[5][2], TOL))
    calls.append(("exponential linkage inf", lambda: hg.binary_partition_tree_exponential_linkage(g, F(w), float("inf")), calls[0][2], TOL))
    calls.append(("exponential linkage -inf", lambda: hg.binary_partition_tree_exponential_linkage(g, F(w), float("-inf")), calls[7][2], TOL))
    simple = len({frozenset(e) for e in edges if e[0] != e[1]}) == sum(e[0] != e[1] for e in edges)
    for name, f, d, tol in calls:
        if not conn:
            ctx.raises(f, what + " " + name)
        elif simple or name == "single linkage":
            greedy(f(), n, edges, d, ctx, what + " " + name, g, tol=tol)
        else:
            sequence(f()[0], n, edges, ctx, what + " " + name, g)


def ward(case, ctx):
    n, edges, X, S = case[0], [tuple(e) for e in case[1]], case[2], case[3]
    ctx.state((n, tuple(edges), repr(X), repr(S)))
    what = "graph of %d vertices, edges %r, centroids %r, sizes %r:" % (n, edges, X, S)
    g = mk_graph(n, edges)
    s = S or [1] * n

    def d(x, y):
        def cen(r):
            z = sum(s[v] for v in r)
            return z, [sum(s[v] * X[v][k] for v in r) / z for k in range(len(X[0]))]
        (a, p), (b, q) = cen(x), cen(y)
        return a * b / (a + b) * sum((i - j) ** 2 for i, j in zip(p, q))
    for dt in ("float64", "int32", "float32"):
        A = np.array(X, dtype=dt)
        B = None if S is None else np.array(S, dtype="float64" if dt == "float32" else dt)
        tol = TOL if dt != "float32" else 1e-5
        if not gen.connected(n, edges):
            ctx.raises(lambda: hg.binary_partition_tree_ward_linkage(g, A, B), what + " ward")
            continue
        greedy(hg.binary_partition_tree_ward_linkage(g, A, B), n, edges, d, ctx, what + " ward " + dt, g, True, tol)
        greedy(hg.binary_partition_tree_ward_linkage(g, A, B, "max"), n, edges, d, ctx, what + " ward max " + dt, g, True, tol)
        greedy(hg.binary_partition_tree_ward_linkage(g, A, B, altitude_correction="none"), n, edges, d, ctx, what + " ward none " + dt, g, False, tol)
    ctx.raises(lambda: hg.binary_partition_tree_ward_linkage(g, np.array(X, dtype=float), None, "median"), what + " unknown correction")
    ctx.raises(lambda: hg.binary_partition_tree_ward_linkage(g, np.array(X, dtype=float)[:, 0]), what + " 1d centroids")
    ctx.raises(lambda: hg.binary_partition_tree_ward_linkage(g, np.array(X, dtype=float), np.ones(n + 1)), what + " sizes of the wrong length")


class Script:
    """A linkage callback whose answers are chosen by the explorer; it checks what it is told and keeps the reference state."""

    def __init__(self, n, edges, w, answers, what, dt):
        self.n, self.what, self.dt = n, what, dt
        self.cur = {frozenset(e): (x, {i}) for i, (e, x) in enumerate(zip(edges, w))}   # pair of regions -> weight, edge indices
        self.name = {v: v for v in range(n)}
        self.answers, self.asked = list(answers), 0
        self.merges = []

    def fail(self, msg):
        raise AssertionError("%s: %s" % (self.what, msg))

    def merge(self, a, b, new):
        k = frozenset((a, b))
        if k not in self.cur:
            self.fail("merges %d and %d which are not adjacent in %r" % (a, b, self.cur))
        w, es = self.cur.pop(k)
        best = min([x for x, _ in self.cur.values()] + [w])
        if w > best:
            self.fail("merges %d and %d at %r, the minimum is %r" % (a, b, w, best))
        self.merges.append((a, b, new, w))
        nb = {}
        for k in [k for k in self.cur if a in k or b in k]:
            o = next(iter(k - {a, b}))
            nb.setdefault(o, []).append(self.cur.pop(k))
        return es, nb

    def __call__(self, graph, fusion_edge_index, new_region, r1, r2, new_neighbours):
        if new_region != self.n + len(self.merges):
            self.fail("new region %d after %d merges" % (new_region, len(self.merges)))
        es, nb = self.merge(r1, r2, new_region)
        if fusion_edge_index not in es:
            self.fail("fusion edge %d, expected one of %r" % (fusion_edge_index, es))
        seen = set()
        for x in new_neighbours:
            o = x.neighbour_vertex()
            if o in seen or o not in nb:
                self.fail("neighbour %d of the new region (expected %r, seen %r)" % (o, sorted(nb), seen))
            seen.add(o)
            if x.num_edges() != len(nb[o]):
                self.fail("num_edges %d, expected %d" % (x.num_edges(), len(nb[o])))
            got = [x.first_edge_index()] + ([x.second_edge_index()] if x.num_edges() > 1 else [])
            sets = [s for _, s in nb[o]]
            if not any(all(g in s for g, s in zip(got, q)) for q in itertools.permutations(sets)):
                self.fail("edges %r towards %d, expected one of each of %r" % (got, o, sets))
            if x.new_edge_index() not in set.union(*sets):
                self.fail("new edge index %d" % x.new_edge_index())
            v = self.answers[self.asked % len(self.answers)]
            self.asked += 1
            x.set_new_edge_weight(v)
            self.cur[frozenset((o, new_region))] = (v, {x.new_edge_index()})
        if seen != set(nb):
            self.fail("neighbours %r, expected %r" % (seen, sorted(nb)))


def custom(case, ctx):
    n, edges, w = case[0], [tuple(e) for e in case[1]], list(case[2])
    g = mk_graph(n, edges)
    # number of questions asked at most: one per (merge, neighbour)
    q = sum(max(0, n - 2 - k) for k in range(n))
    todo = itertools.product((0, 1, 2), repeat=min(q, 4)) if len(case) == 3 else [case[3]]
    for ans in todo:
        for dt in ("float64",) if len(ans) else ("float64", "float32", "int64"):
            ctx.state((n, tuple(edges), tuple(w), ans))
            what = "graph of %d vertices, edges %r, weights %r, callback answers %r" % (n, edges, w, ans)
            s = Script(n, edges, w, ans or (0,), what, dt)
            try:
                t, a = hg.binary_partition_tree(g, s, np.array(w, dtype=dt))
            except AssertionError as e:
                raise Violation(str(e))
            seq = sequence(t, n, edges, ctx, what, g)
            p = ints(t.parents())
            if len(s.merges) < n - 1:
                # the last merge has no neighbour left: the callback is not called
                k = [x for x in range(2 * n - 2) if p[x] == 2 * n - 2]
                s.merge(k[0], k[1], 2 * n - 2)
            ctx.eq([sorted(x for x in range(2 * n - 1) if p[x] == m and x != m) for _, _, m, _ in s.merges], [sorted(m[:2]) for m in s.merges], what + " tree of the merges")
            ctx.eq(np.asarray(a).tolist(), [0] * n + [m[3] for m in s.merges], what + " altitudes")
            ctx.outcome(tuple(p))


def boom(case, ctx):
    """An exception of the callback comes out and nothing else happens."""
    class E(Exception):
        pass

    calls = []

    def f(*a):
        calls.append(a)
        if len(calls) > case:
            raise E("stop")
        for n in a[-1]:
            n.set_new_edge_weight(1)
    g = mk_graph(5, gen.grid_edges(1, 5) + [(0, 2)])
    ctx.state(case)
    ctx.op()
    try:
        t, _ = hg.binary_partition_tree(g, f, np.arange(5.0))
        ctx.ok(case >= 3, "the exception of the callback was lost (call %d)" % case)
        ctx.eq(len(ints(t.parents())), 9, "tree")
    except E:
        ctx.ok(case < 3, "exception raised %d" % case)
    ctx.eq(g.num_edges(), 5, "the graph was modified")
    ctx.outcome(len(calls))


def groups(tier):
    deep = tier != "quick"

    def small():
        for n in range(1, 5):
            for es in gen.simple_graphs(n):
                ws = gen.weak_orders(len(es)) if len(es) <= (4 if not deep else 5) else gen.weak_orders(5)[::7 if deep else 29]
                for k, w in enumerate(ws):
                    if len(es) > 4 and not deep and k % 5:
                        continue
                    w = (list(w) + [1, 0])[:len(es)]
                    yield [n, [(b, a) if i % 2 else (a, b) for i, (a, b) in enumerate(es)], w, [1 + (2 * i + k) % 4 for i in range(len(es))]]

    def multi():
        for n in (1, 2, 3):
            for es in gen.multigraphs(n, 4 if deep or n < 3 else 3):
                for w in gen.weak_orders(len(es)):
                    yield [n, es, list(w), [1 + i % 3 for i in range(len(es))]]
        for es in ([(0, 1), (0, 1), (0, 1), (1, 2), (2, 3), (0, 3), (0, 3)], [(0, 0), (0, 1), (1, 2), (1, 2), (2, 3), (3, 3), (0, 2)]):
            for k in range(40):
                r = gen.lcg(k)
                yield [4, es, [next(r) % 4 for _ in es], [1] * len(es)]

    def big():
        for h, w_, adj in ((3, 3, 4), (3, 3, 8), (2, 5, 4), (4, 5, 4), (1, 12, 4)):
            es = gen.grid_edges(h, w_, adj)
            for q in range(8 if not deep else 60):
                r = gen.lcg(q + 91 * h)
                yield [h * w_, es, [next(r) % min(3 + 4 * q, 90) for _ in es], [1 + next(r) % 5 for _ in es]]
        for n in (6, 9):
            es = list(itertools.combinations(range(n), 2))
            for q in range(8 if not deep else 60):
                r = gen.lcg(q + n)
                yield [n, es, [next(r) % min(5 + 40 * q, 90) for _ in es], [1 + next(r) % 5 for _ in es]]

    def wards():
        for n in range(1, 5):
            for es in gen.simple_graphs(n):
                if not gen.connected(n, es) and n > 3:
                    continue
                for k, x in enumerate(itertools.product((0, 1, 3), repeat=n)):
                    if n < 4 or deep or k % 4 == 0:
                        yield [n, es, [[v, (v * v) % 3] for v in x] if k % 2 else [[v] for v in x], None if k % 3 == 0 else [1 + (k + v) % 3 for v in range(n)]]
        for es in gen.multigraphs(3, 4, mmin=3):
            if gen.connected(3, es):
                yield [3, es, [[0], [1], [3]], [2, 1, 1]]
                yield [3, es, [[1], [1], [0]], None]
        for h, w_, adj in ((3, 3, 4), (4, 4, 8), (2, 5, 4)):
            for q in range(6):
                r = gen.lcg(q)
                yield [h * w_, gen.grid_edges(h, w_, adj), [[next(r) % 7, next(r) % 5] for _ in range(h * w_)], [1 + next(r) % 4 for _ in range(h * w_)] if q % 2 else None]

    def customs():
        for n in range(1, 5):
            for es in gen.simple_graphs(n):
                if gen.connected(n, es):
                    ws = gen.weak_orders(len(es)) if len(es) < 4 or deep and len(es) < 5 else [w + (0, 2)[:len(es) - 4] for w in gen.weak_orders(4)[::5 if not deep else 2]]
                    for w in ws:
                        yield [n, es, list(w)[:len(es)]]
        for n in (5, 6):
            es = list(itertools.combinations(range(n), 2))
            for q in range(20 if not deep else 200):
                r = gen.lcg(q + n)
                sel = [e for e in es if e[1] == e[0] + 1 or next(r) % 3]
                yield [n, sel, [next(r) % 5 for _ in sel], tuple(next(r) % 5 for _ in range(11))]
    return [Group("linkages", small, linkages, "all simple graphs of at most 4 vertices (unconnected included) with all weak orders of weights (at most %d edges, samples of the orders of larger ones)" % (5 if deep else 4)),
            Group("multigraphs", multi, linkages, "all multigraphs of at most 3 vertices and %d edges" % (4 if deep else 3)),
            Group("ward", wards, ward, "all simple graphs of at most 4 vertices with all centroids in {0,1,3}"),
            Group("custom", customs, custom, "all connected graphs of at most 4 vertices, all sequences of answers in {0,1,2} of the linkage callback"),
            Group("exceptions", lambda: range(5), boom, "callback failing at each call"),
            Group("large", big, linkages, "grids and complete graphs of 6 to 20 vertices")]
