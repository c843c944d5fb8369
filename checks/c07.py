"""C07: graph, indexed and contour accumulation against direct aggregation: all small multigraphs, index arrays and hierarchies."""
import itertools
import numpy as np
import higra as hg
from vf.core import Group, Violation
from vf import gen, acc
from vf.util import ints, mk_tree, mk_graph

ID = "C07"
ASSUMPTIONS = ["multigraphs of at most 4 vertices and 4 edges, hierarchies of at most 4 leaves (6 nodes); no overflow of the value type",
               "a self loop is one incident edge and makes its vertex adjacent to itself once",
               "first/last/argmin/argmax are not specified for contours (no order among the crossed regions); argmin/argmax only for scalar data (of unsigned types: when no group is empty); first/last of no value are unspecified"]


def compare(got, want, dt, ctx, what):
    got = np.asarray(got)
    ctx.op()
    ctx.compared += 1
    if got.dtype != np.dtype(dt) or got.shape != (len(want),):
        raise Violation("%s: result of type %s and shape %s" % (what, got.dtype, got.shape))
    for i, (g, w) in enumerate(zip(got.tolist(), want)):
        if w is None:
            continue
        w = acc.num(w)
        if g != w and not (isinstance(w, float) and abs(w) < np.inf and abs(g - w) <= (1e-9 if dt == "float64" else 1e-5) * max(1, abs(w))):
            raise Violation("%s: element %d is %r, expected %r (all: %r)" % (what, i, g, w, got.tolist()))


def many(f, lists, x, ctx, what, dts=("float64",), names=acc.NAMES, size=None):
    """f(array, accumulator) accumulates for each element the values of x at the given positions."""
    for dt in dts:
        u = np.dtype(dt).kind == "u"
        v = [abs(a) + 1 for a in x] if u else x
        for name in names:
            if u and name[:3] == "arg" and not all(lists) or name == "prod" and dt in ("int8", "uint8"):
                continue
            if name in ("min", "max", "argmin", "argmax"):
                # the extreme values of the type
                lo, hi = (float(np.finfo(dt).min), float(np.finfo(dt).max)) if len(x) % 2 and np.dtype(dt).kind == "f" else acc.limits(dt)
                if all(lists):
                    for z in ([lo if a % 2 else hi for a in x], [hi] * len(x), [lo] * len(x)):
                        compare(f(np.array(z, dtype=dt), acc.acc(name)), [acc.value(name, [z[k] for k in l], dt) for l in lists], dt, ctx, "%s %s %s data %r" % (what, name, dt, z))
            compare(f(np.array(v, dtype=dt), acc.acc(name)), [acc.value(name, [v[k] for k in l], dt) for l in lists], dt, ctx, "%s %s %s data %r" % (what, name, dt, v))
    for shape in ((1,), (3,), (2, 2)):
        k = int(np.prod(shape))
        cols = [[(a * (j + 1) + j * i) % 5 - (j % 2) for i, a in enumerate(x)] for j in range(k)]
        X = np.ascontiguousarray(np.array(cols, dtype=np.float64).T).reshape((len(x),) + shape)
        for name in names:
            if name[:3] == "arg":
                continue
            r = np.asarray(f(X, acc.acc(name)))
            w = "%s %s vectorial data %r" % (what, name, X.tolist())
            if name == "counter":
                compare(r, [len(l) for l in lists], "float64", ctx, w)
                continue
            ctx.eq(r.shape, (len(lists),) + shape, w + " shape")
            r = r.reshape(len(lists), k)
            for j in range(k):
                compare(r[:, j], [acc.value(name, [cols[j][q] for q in l], "float64") for l in lists], "float64", ctx, w)


def graph(case, ctx):
    n, edges, removed = case[0], [tuple(e) for e in case[1]], case[2]
    ctx.state((n, tuple(edges), removed))
    m = len(edges)
    g = mk_graph(n, edges)
    if removed is not None:
        g.remove_edge(removed)
    live = [i for i in range(m) if i != removed]
    inc = [[e for e in live if v in edges[e]] for v in range(n)]
    adj = [[(edges[e][0] + edges[e][1] - v) for e in inc[v]] for v in range(n)]
    what = "graph of %d vertices, edges %r%s" % (n, edges, "" if removed is None else " without edge %d" % removed)
    # the order of the incident edges is the one the graph reports (checked as a set here, first/last follow it)
    for v in range(n):
        oe = [int(e[2]) for e in g.out_edges(v)]
        ctx.eq(sorted(oe), inc[v], what + " out edges of %d" % v)
        inc[v] = oe
        adj[v] = [(edges[e][0] + edges[e][1] - v) for e in oe]
    dts = ("float64", "int32", "uint8")
    for x in ([(3 * i) % 5 - 1 for i in range(m)], list(range(m, 0, -1))):
        if m:
            many(lambda a, acc_: hg.accumulate_graph_edges(g, a, acc_), inc, x, ctx, "accumulate_graph_edges %s:" % what, dts)
    for x in ([(3 * i) % 5 - 1 for i in range(n)], list(range(n, 0, -1))):
        many(lambda a, acc_: hg.accumulate_graph_vertices(g, a, acc_), adj, x, ctx, "accumulate_graph_vertices %s:" % what, dts)
    ctx.outcome((tuple(map(tuple, inc)), tuple(map(tuple, adj))))
    for k in {m - 1, m + 1} - {-1, 0}:
        ctx.raises(lambda: hg.accumulate_graph_edges(g, np.zeros(k), hg.Accumulators.sum), "accumulate_graph_edges with %d values, %s" % (k, what))
    for k in {n - 1, n + 1} - {0}:
        ctx.raises(lambda: hg.accumulate_graph_vertices(g, np.zeros(k), hg.Accumulators.sum), "accumulate_graph_vertices with %d values, %s" % (k, what))


def at(case, ctx):
    idx = list(case)
    ctx.state(tuple(idx))
    size = max(idx) + 1
    lists = [[k for k, v in enumerate(idx) if v == i] for i in range(size)]
    x = [(3 * i + 1) % 5 - 1 for i in range(len(idx))]
    for it in ("int64", "int32", "int8", "float64"):
        a = np.array(idx, dtype=it)
        dts = acc.TYPES if it == "int64" and len(idx) < 4 else ("float64",)
        if size:
            many(lambda w, acc_: hg.accumulate_at(a, w, acc_), lists, x, ctx, "accumulate_at %s indices %r" % (it, idx), dts)
        else:
            ctx.eq(np.asarray(hg.accumulate_at(a, np.array(x, dtype=np.float64), hg.Accumulators.sum)).size, 0, "accumulate_at without any valid index")
    ctx.outcome(tuple(map(tuple, lists)))
    for k in (len(idx) - 1, len(idx) + 1):
        if k > 0:
            ctx.raises(lambda: hg.accumulate_at(np.array(idx), np.zeros(k), hg.Accumulators.sum), "accumulate_at with %d values for %d indices" % (k, len(idx)))
    if len(idx) < 4:
        for b in (-2, -100):
            ctx.raises(lambda: hg.accumulate_at(np.array(idx + [b]), np.zeros(len(idx) + 1), hg.Accumulators.sum), "accumulate_at with index %d" % b)


def contour(case, ctx):
    p = tuple(case[0])
    n, nl = len(p), gen.num_leaves(p)
    reg = gen.leaf_sets(p)
    t = mk_tree(p)
    edges = [tuple(e) for e in case[1]]
    ctx.state((p, tuple(edges)))
    g = mk_graph(nl, edges)
    crossed = [[k for k in range(n) if (a in reg[k]) != (b in reg[k])] for a, b in edges]
    names = ("min", "max", "mean", "counter", "sum", "prod")
    for x in ([(3 * i) % 7 - 1 for i in range(n)], [2 + i for i in range(n)]):
        many(lambda a, acc_: hg.accumulate_on_contours(t, a, acc_, g), crossed, x, ctx, "accumulate_on_contours of %r edges %r" % (p, edges), names=names)
        hg.CptHierarchy.link(t, g)
        compare(hg.accumulate_on_contours(t, np.array(x, dtype=np.float64), hg.Accumulators.sum), [sum(x[k] for k in l) for l in crossed], "float64", ctx,
                "accumulate_on_contours (linked) of %r edges %r" % (p, edges))
    ctx.outcome(tuple(map(tuple, crossed)))
    for k in (n - 1, n + 1):
        if k > 0:
            ctx.raises(lambda: hg.accumulate_on_contours(t, np.zeros(k), hg.Accumulators.sum, g), "accumulate_on_contours with %d values for %r" % (k, p))


def larger(case, ctx):
    """Grids, stars, complete graphs, long lists of indices, large trees."""
    kind, k = case
    ctx.state((kind, k))
    names = ("min", "max", "mean", "counter", "sum", "first", "last", "argmin", "argmax")
    if kind == "graph":
        n, edges = [(25, gen.grid_edges(5, 5, 8)), (24, gen.grid_edges(3, 8)), (33, [(i, 0) for i in range(1, 33)]), (12, list(itertools.combinations(range(12), 2))),
                    (20, [((7 * i) % 20, (11 * i + i // 5) % 20) for i in range(70)]), (301, [(0, i) for i in range(1, 301)])][k]
        g = mk_graph(n, edges)
        inc = [[int(e[2]) for e in g.out_edges(v)] for v in range(n)]
        for v in range(n):
            ctx.eq(sorted(inc[v]), [e for e in range(len(edges)) if v in edges[e]], "graph %r out edges of %d" % (edges, v))
        adj = [[edges[e][0] + edges[e][1] - v for e in inc[v]] for v in range(n)]
        what = "graph of %d vertices, edges %r" % (n, edges)
        many(lambda a, acc_: hg.accumulate_graph_edges(g, a, acc_), inc, [(11 * i + 3) % (len(edges) + 2) for i in range(len(edges))], ctx, "accumulate_graph_edges %s:" % what, ("float64", "int32"), names)
        many(lambda a, acc_: hg.accumulate_graph_vertices(g, a, acc_), adj, [(11 * i + 3) % (n + 2) for i in range(n)], ctx, "accumulate_graph_vertices %s:" % what, ("float64", "int32"), names)
    elif kind == "at":
        m = 20 + 37 * k if k < 6 else 900
        idx = [(i * i + 3 * i // 2) % (5 + 6 * k if k < 6 else 3) - (i % 7 == 3 and k % 2) * 0 for i in range(m)]
        idx = [-1 if i % 7 == 3 and k % 2 else v for i, v in enumerate(idx)]
        lists = [[j for j, v in enumerate(idx) if v == i] for i in range(max(idx) + 1)]
        a = np.array(idx, dtype="int64")
        many(lambda w, acc_: hg.accumulate_at(a, w, acc_), lists, [(13 * i + 5) % (m + 3) for i in range(m)], ctx, "accumulate_at indices %r" % (idx,), ("float64", "int32"), names)
    else:
        p = tuple(k)
        n, nl = len(p), gen.num_leaves(p)
        reg = gen.leaf_sets(p)
        edges = [(i, (5 * i + 3) % nl) for i in range(nl)] + [(i, i + 1) for i in range(nl - 1)]
        t, g = mk_tree(p), mk_graph(nl, edges)
        crossed = [[v for v in range(n) if (a in reg[v]) != (b in reg[v])] for a, b in edges]
        many(lambda a, acc_: hg.accumulate_on_contours(t, a, acc_, g), crossed, [(7 * i + 3) % (n + 1) for i in range(n)], ctx, "accumulate_on_contours of %r edges %r" % (p, edges), ("float64", "int32"),
             ("min", "max", "mean", "counter", "sum"))
    ctx.outcome((kind, k))


def groups(tier):
    deep = tier != "quick"

    def graphs():
        for n in range(1, 4 if not deep else 5):
            for es in gen.multigraphs(n, 3 if not deep else 4):
                yield [n, es, None]
                if es:
                    yield [n, es, len(es) // 2]
        for n, es in ((4, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 1)]), (5, [(0, 1), (0, 2), (0, 3), (0, 4), (4, 0)]), (2, [(1, 0), (0, 1), (1, 1), (1, 1)])):
            yield [n, es, None]
            yield [n, es, 0]

    def ats():
        for k in range(1, 5 if not deep else 7):
            yield from (list(i) for i in itertools.product((-1, 0, 1, 2), repeat=k))

    def contours():
        for p in gen.trees(6 if not deep else 7):
            nl = gen.num_leaves(p)
            full = [e for e in itertools.combinations(range(nl), 2)]
            yield [p, full + [(b, a) for a, b in full[:2]] + [(0, 0)]]
            for e in itertools.product(range(nl), repeat=2):
                yield [p, [e]]
    return [Group("graph", graphs, graph, "all multigraphs (self loops, parallel edges, one removed edge) of at most %d vertices and %d edges" % ((4, 4) if deep else (3, 3))),
            Group("at", ats, at, "all index arrays over -1..2 of at most %d entries" % (6 if deep else 4)),
            Group("larger", lambda: [["graph", k] for k in range(6)] + [["at", k] for k in range(7)] + [["contour", list(p)] for p in list(gen.large_trees((10, 17, 33, 64))) + [gen.caterpillar_tree(300)] if gen.num_leaves(p) > 1], larger, "grids, stars, complete graphs, lists of up to 205 indices, trees of 10 to 64 nodes"),
            Group("contour", contours, contour, "all trees of at most %d nodes with the complete graph on their leaves and every single edge" % (7 if deep else 6))]
