"""C01: breadth-first search of all mutation histories of the graph classes against a multigraph model."""
import pickle
import numpy as np
import higra as hg
from vf.core import Group, Violation

ID = "C01"
ASSUMPTIONS = ["at most 4 vertices and the stated number of operations per history",
               "two histories are merged only when every view of the real object (adjacency order included) is identical"]


class Model:
    """Edge list; None for a removed edge."""

    def __init__(self, n=0):
        self.n, self.e = n, []

    def key(self):
        return (self.n, tuple(self.e))


CLS = {"vec": hg.UndirectedGraph, "set": hg.UndirectedGraphOptimizedDelete}


def apply(g, m, op, ctx):
    """Applies op to the real graph and to the model; checks the returned value."""
    k = op[0]
    ctx.op()
    try:
        if k == "v":
            ctx.eq(int(g.add_vertex()), m.n, "add_vertex result")
            m.n += 1
        elif k == "V":
            g.add_vertices(op[1])
            m.n += op[1]
        elif k == "e":
            u, v = op[1], op[2]
            if u < 0 or v < 0 or u >= m.n or v >= m.n:
                ctx.raises(lambda: g.add_edge(u, v), "add_edge(%d, %d)" % (u, v))
                return
            r = g.add_edge(u, v)
            ctx.eq((sorted((int(r[0]), int(r[1]))), int(r[2])), (sorted((u, v)), len(m.e)), "add_edge result")
            ctx.eq((int(g.source(r)), int(g.target(r)), int(g.index(r))), tuple(int(x) for x in r), "source/target/index")
            m.e.append((min(u, v), max(u, v)))
        elif k == "E":
            ss, tt = np.asarray(op[1], dtype=op[3]), np.asarray(op[2], dtype=op[3])
            if any(x < 0 or x >= m.n for x in list(op[1]) + list(op[2])) or len(ss) != len(tt):
                ctx.raises(lambda: g.add_edges(ss, tt), "add_edges(%r, %r)" % (op[1], op[2]))
                return
            g.add_edges(ss, tt)
            m.e += [(min(a, b), max(a, b)) for a, b in zip(op[1], op[2])]
        elif k == "r":
            if op[1] < 0 or op[1] >= len(m.e):
                ctx.raises(lambda: g.remove_edge(op[1]), "remove_edge(%d)" % op[1])
                return
            if m.e[op[1]] is None:
                # removing a removed edge: refused, or no effect
                try:
                    g.remove_edge(op[1])
                except Exception:
                    pass
                return
            g.remove_edge(op[1])
            m.e[op[1]] = None
        elif k == "s":
            i, u, v = op[1:]
            if i < 0 or i >= len(m.e) or u < 0 or v < 0 or u >= m.n or v >= m.n:
                ctx.raises(lambda: g.set_edge(i, u, v), "set_edge%r" % (op[1:],))
                return
            g.set_edge(i, u, v)
            m.e[i] = (min(u, v), max(u, v))
        elif k == "p":
            return
    except Violation as v:
        raise Violation("%s: %s" % (op, v))


def observe(g):
    """Every view of the real object."""
    n, ne = int(g.num_vertices()), int(g.num_edges())
    o = [n, ne, [int(v) for v in g.vertices()]]
    o.append([tuple(int(x) for x in e) for e in g.edges()])
    o.append([tuple(int(x) for x in g.edge_from_index(i)) for i in range(ne)])
    o.append([[tuple(int(x) for x in e) for e in g.out_edges(v)] for v in range(n)])
    o.append([[tuple(int(x) for x in e) for e in g.in_edges(v)] for v in range(n)])
    o.append([[int(x) for x in g.adjacent_vertices(v)] for v in range(n)])
    o.append([(int(g.degree(v)), int(g.in_degree(v)), int(g.out_degree(v))) for v in range(n)])
    s, t = (g.sources(), g.targets()) if hasattr(g, "sources") else (g._sources(), g._targets())
    o.append(([int(x) for x in s], [int(x) for x in t]))
    if n:
        for dt in (np.int32, np.uint64):
            a = np.arange(n, dtype=dt)
            o.append(([int(x) for x in g.degree(a)], [int(x) for x in g.in_degree(a)], [int(x) for x in g.out_degree(a)]))
        a = a.reshape(n, 1)
        r = [np.asarray(f(a)) for f in (g.degree, g.in_degree, g.out_degree)]
        o.append([x.ravel().tolist() if x.shape == a.shape else [x.shape] * n for x in r])
    return o


def check(g, m, ctx, what):
    ctx.op()
    o = observe(g)
    E = [(-1, -1) if e is None else e for e in m.e]
    U = lambda e: tuple(sorted(e[:2])) + tuple(e[2:])
    ctx.eq((o[0], o[1]), (m.n, len(E)), what + ": counts")
    ctx.eq(o[2], list(range(m.n)), what + ": vertices()")
    want = [e + (i,) for i, e in enumerate(E)]
    ctx.eq([U(e) for e in o[3]], want, what + ": edges()")
    ctx.eq([U(e) for e in o[4]], want, what + ": edge_from_index")
    ctx.eq([U(e) for e in zip(*o[9])], E, what + ": sources/targets")
    ctx.eq(list(zip(*o[9])), [e[:2] for e in o[3]], what + ": sources/targets and edges()")
    for v in range(m.n):
        inc = sorted((v, e[1] if e[0] == v else e[0], i) for i, e in enumerate(E) if v in e)
        ctx.eq(sorted(o[5][v]), inc, what + ": out_edges(%d)" % v)
        ctx.eq(sorted((b, a, i) for a, b, i in o[6][v]), inc, what + ": in_edges(%d)" % v)
        ctx.eq(sorted(o[7][v]), sorted(x[1] for x in inc), what + ": adjacent_vertices(%d)" % v)
        d = len(inc)
        ctx.eq(o[8][v], (d, d, d), what + ": degrees of %d" % v)
        for q in o[10:]:
            ctx.eq([q[0][v], q[1][v], q[2][v]], [d, d, d], what + ": array degrees of %d" % v)
    for f in (g.degree, g.in_degree, g.out_degree, lambda v: list(g.out_edges(v)), lambda v: list(g.in_edges(v)),
              lambda v: list(g.adjacent_vertices(v))):
        ctx.raises(lambda: f(m.n), what + ": out of range vertex")
        ctx.raises(lambda: f(-1), what + ": negative vertex")
    ctx.raises(lambda: g.edge_from_index(len(E)), what + ": out of range edge")
    ctx.raises(lambda: g.edge_from_index(-1), what + ": negative edge")
    return o


def replay_history(kind, hist, ctx):
    g, m = CLS[kind](), Model()
    for op in hist:
        apply(g, m, op, ctx)
        if op[0] == "p":
            g = pickle.loads(pickle.dumps(g))
    return g, m


def enabled(m, kind, nmax, emax):
    ops = []
    if m.n < nmax:
        ops.append(("v",))
    if m.n + 2 <= nmax:
        ops.append(("V", 2))
    ops.append(("V", 0))
    for u in range(m.n):
        for v in range(m.n):
            if len(m.e) < emax:
                ops.append(("e", u, v))
    ops.append(("e", 0, m.n))
    ops.append(("e", -1, 0))
    if m.n and len(m.e) + 2 <= emax:
        a, b = m.n - 1, 0
        ops.append(("E", (a, b), (b, b), "int32"))
        ops.append(("E", (a, a), (b, a), "uint64"))
        ops.append(("E", (b,), (a,), "int64"))
        ops.append(("E", (b, m.n), (a, b), "int64"))
        ops.append(("E", (b, -1), (a, b), "int64"))
    for i in range(len(m.e)):
        ops.append(("r", i))
        for u in range(m.n):
            for v in range(m.n):
                ops.append(("s", i, u, v))
    ops.append(("r", len(m.e)))
    ops.append(("r", -1))
    if m.e:
        ops.append(("s", 0, m.n, 0))
        ops.append(("s", 0, 0, -1))
        ops.append(("s", len(m.e), 0, 0))
    if kind == "vec":
        ops.append(("p",))
    return ops


def bfs(case, ctx):
    """Breadth-first search below a first operation."""
    kind, first, depth, nmax, emax = case
    g, m = replay_history(kind, first, ctx)
    check(g, m, ctx, "after %r" % (first,))
    seen = {repr(observe(g))}
    frontier = [list(first)]
    for d in range(depth):
        nxt = []
        for hist in frontier:
            _, m0 = replay_history(kind, hist, ctx)
            for op in enabled(m0, kind, nmax, emax):
                h = hist + [op]
                g, m = replay_history(kind, h, ctx)
                o = check(g, m, ctx, "after %r" % (h,))
                k = repr(o)
                if k not in seen:
                    seen.add(k)
                    ctx.state((kind, k))
                    ctx.outcome(k)
                    nxt.append(h)
        frontier = nxt
    ctx.sample({"kind": kind, "history": hist + [op]})


def bfs_cases(depth, nmax, emax):
    def gen():
        for kind in ("vec", "set"):
            for init in ([("v",)], [("V", 2)], [("V", 2), ("e", 0, 1)], [("V", 2), ("e", 1, 0)], [("V", 2), ("e", 0, 0)], [("V", 2), ("e", 1, 1)],
                         [("V", 3), ("e", 0, 2), ("e", 1, 2)], [("V", 3), ("e", 2, 1), ("e", 1, 2)],
                         [("V", 3), ("e", 1, 1), ("e", 1, 1)], [("V", 3), ("e", 1, 0), ("r", 0)],
                         [("V", 3), ("e", 1, 0), ("e", 1, 2), ("r", 0)], [("V", 3), ("e", 1, 1), ("e", 1, 2), ("r", 0)],
                         [("V", 3), ("e", 1, 2), ("e", 1, 2), ("e", 1, 2)], [("V", 4), ("e", 3, 2), ("e", 1, 0), ("e", 2, 0)],
                         [("V", 3), ("e", 0, 0), ("e", 0, 1), ("s", 0, 0, 2)], [("V", 3), ("e", 0, 1), ("e", 0, 1), ("s", 1, 2, 2)]):
                yield [kind, init, depth, nmax, emax]
    return gen


def line_case(case, ctx):
    """Fixed long histories on larger graphs: all edges of a complete graph, then deletions in a stride order."""
    kind, n, stride, res = case
    g = CLS[kind](n, 3, 2) if res else CLS[kind](n)
    m = Model(n)
    for u in range(n):
        for v in range(n):
            apply(g, m, ("e", u, v), ctx)
    check(g, m, ctx, "complete")
    ne = len(m.e)
    for k in range(ne):
        i = (k * stride) % ne
        if m.e[i] is None:
            continue
        apply(g, m, ("s", i, (m.e[i][0] + 1) % n, m.e[i][1]) if k % 3 == 0 else ("r", i), ctx)
        if k % 5 == 0:
            check(g, m, ctx, "step %d" % k)
    check(g, m, ctx, "end")
    ctx.state(m.key())
    if kind == "vec":
        g.foo = 3
        hg.set_attribute(g, "a", np.arange(3))
        c = pickle.loads(pickle.dumps(g))
        check(c, m, ctx, "pickled")
        ctx.eq((c.foo, hg.get_attribute(c, "a").tolist()), (3, [0, 1, 2]), "pickled attributes")


def line_cases():
    for kind in ("vec", "set"):
        for n in (3, 5, 7):
            for stride in (1, 2, 7, 11):
                for res in (0, 1):
                    yield [kind, n, stride, res]


def groups(tier):
    if tier == "quick":
        return [Group("histories", bfs_cases(2, 4, 4), bfs, "depth 2 below 16 initial histories, <=4 vertices, <=4 edges", limit=120),
                Group("long", line_cases, line_case, "complete graphs up to 7 vertices")]
    return [Group("histories", bfs_cases(3, 4, 4), bfs, "depth 3 below 16 initial histories, <=4 vertices, <=4 edges", limit=9000),
            Group("long", line_cases, line_case, "complete graphs up to 7 vertices")]
