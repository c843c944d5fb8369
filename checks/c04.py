"""C04: grid graphs and embeddings against the geometric definition: all small shapes up to 5 dimensions, all masks / neighbour lists."""
import itertools, pickle
import numpy as np
import higra as hg
from vf.core import Group
from vf.util import ints, edges_of

ID = "C04"
ASSUMPTIONS = ["sides of at most 6 (1-d), 5 (2-d), 3 (3-d to 5-d)",
               "explicit graphs are compared for symmetric neighbour lists without the null vector (an undirected graph has no other meaning); implicit graphs for all lists"]

EMB = {1: "EmbeddingGrid1d", 2: "EmbeddingGrid2d", 3: "EmbeddingGrid3d", 4: "EmbeddingGrid4d", 5: "EmbeddingGrid5d"}
REG = {1: "RegularGraph1d", 2: "RegularGraph2d", 3: "RegularGraph3d", 4: "RegularGraph4d", 5: "RegularGraph5d"}


def lin(shape, c):
    r = 0
    for s, x in zip(shape, c):
        r = r * s + x
    return r


def points(shape):
    return list(itertools.product(*[range(s) for s in shape]))


def inside(shape, c):
    return all(0 <= x < s for x, s in zip(c, shape))


def adj_model(shape, nl):
    return [[lin(shape, q) for q in (tuple(a + b for a, b in zip(pt, d)) for d in nl) if inside(shape, q)] for pt in points(shape)]


# --- graphs ----------------------------------------------------------------------------------
def check_graph(g, shape, nl, ctx, what):
    n = int(np.prod(shape))
    want = adj_model(shape, nl)
    ctx.eq(g.num_vertices(), n, what + " vertices")
    ctx.eq(ints(list(g.vertices())), list(range(n)), what + " vertices")
    for v in range(n):
        ctx.op()
        w = sorted(want[v])
        ctx.eq(sorted(int(x) for x in g.adjacent_vertices(v)), w, "%s adjacent_vertices(%d)" % (what, v))
        ctx.eq([g.degree(v), g.out_degree(v), g.in_degree(v)], [len(w)] * 3, "%s degree(%d)" % (what, v))
        oe = list(g.out_edges(v))
        ctx.eq(sorted((int(e[0]), int(e[1])) for e in oe), [(v, x) for x in w], "%s out_edges(%d)" % (what, v))
        ctx.eq(sorted((int(e[1]), int(e[0])) for e in g.in_edges(v)), [(v, x) for x in w], "%s in_edges(%d)" % (what, v))
    return want


def check_explicit(g, shape, want, ctx, what, degree=None):
    ctx.op()
    n = int(np.prod(shape))
    w = sorted((v, x) for v in range(n) for x in want[v] if x > v)
    ctx.eq(g.num_vertices(), n, what + " vertices")
    ctx.eq(sorted(tuple(sorted(e)) for e in edges_of(g)), w, what + " edges")
    for v in range(n):
        ctx.eq(sorted(int(x) for x in g.adjacent_vertices(v)), sorted(want[v]), "%s adjacent_vertices(%d)" % (what, v))
    ctx.eq(tuple(ints(hg.CptGridGraph.get_shape(g))), tuple(shape), what + " shape")
    if degree is not None:
        ctx.eq(hg.get_attribute(g, "no_border_vertex_out_degree"), degree, what + " degree attribute")


def symmetric(nl):
    s = set(nl)
    return tuple([0] * len(nl[0])) not in s and all(tuple(-x for x in d) in s for d in s) and len(s) == len(nl)


def graph(case, ctx):
    shape, nl = tuple(case[0]), [tuple(d) for d in case[1]]
    ctx.state((shape, tuple(nl)))
    what = "shape %r neighbours %r" % (shape, nl)
    nla = np.array(nl, dtype=np.int64).reshape(-1, len(shape))
    g = hg.get_nd_regular_implicit_graph(shape, nla)
    want = check_graph(g, shape, nl, ctx, what)
    ctx.outcome(tuple(map(tuple, want)))
    ctx.eq(ints(g.shape), list(shape), what + " shape")
    ctx.eq(np.asarray(g.neighbour_list()), nla, what + " neighbour_list()")
    ctx.eq(tuple(ints(hg.CptGridGraph.get_shape(g))), shape, what + " concept")
    ctx.eq(hg.get_attribute(g, "no_border_vertex_out_degree"), len(nl), what + " degree attribute")
    if len(nl) and symmetric(nl):
        check_explicit(hg.get_nd_regular_graph(shape, nla), shape, want, ctx, what + " explicit", len(nl))
        check_explicit(g.as_explicit_graph(), shape, want, ctx, what + " as_explicit")


def other_ways(case, ctx):
    """Same graph through every constructor, and restored from a pickle."""
    shape, nl = tuple(case[0]), [tuple(d) for d in case[1]]
    ctx.state((shape, tuple(nl)))
    what = "shape %r neighbours %r" % (shape, nl)
    d = len(shape)
    R, Em = getattr(hg, REG[d]), getattr(hg, EMB[d])
    for s in (shape, list(shape), np.array(shape), np.array(shape, dtype=np.int32), Em(np.array(shape))):
        for l in (nl, np.array(nl)):
            check_graph(R(s, l), shape, nl, ctx, what + " from %s" % type(s).__name__)
    g = R(shape, nl)
    g2 = pickle.loads(pickle.dumps(g))
    want = check_graph(g2, shape, nl, ctx, what + " unpickled")
    ctx.eq(tuple(ints(hg.CptGridGraph.get_shape(g2))), shape, what + " unpickled concept")
    for bad in ([(0,) * (d + 1)], [(0,) * (d - 1)] if d > 1 else [()]):
        ctx.raises(lambda: R(shape, bad), what + " neighbour of another dimension")
        ctx.raises(lambda: hg.get_nd_regular_graph(shape, bad), what + " neighbour of another dimension")
    for k in range(d):
        for x in (0, -1):
            bs = shape[:k] + (x,) + shape[k + 1:]
            ctx.raises(lambda: R(bs, nl), "shape %r" % (bs,))
    for f in (hg.get_nd_regular_graph, hg.get_nd_regular_implicit_graph):
        ctx.raises(lambda: f(shape, np.array(nl, dtype=np.float64)), what + " float neighbours")
        ctx.raises(lambda: f(shape, np.array(nl)[0]), what + " neighbours in an array of 1 dimension")
        ctx.raises(lambda: f(shape, np.array(nl)[None]), what + " neighbours in an array of 3 dimensions")
        ctx.raises(lambda: f(shape + (1,), nl), what + " shape with one more dimension")
        ctx.raises(lambda: f((1,) * 6, np.ones((1, 6), dtype=np.int64)), "graph of 6 dimensions")


def named(case, ctx):
    shape = tuple(case)
    ctx.state(shape)
    box = [d for d in itertools.product((-1, 0, 1), repeat=len(shape)) if any(d)]
    face = [d for d in box if sum(map(abs, d)) == 1]
    fs = [("4", face, hg.get_4_adjacency_graph, hg.get_4_adjacency_implicit_graph), ("8", box, hg.get_8_adjacency_graph, hg.get_8_adjacency_implicit_graph)] \
        if len(shape) == 2 else [("6", face, hg.get_6_adjacency_graph, hg.get_6_adjacency_implicit_graph)]
    for name, nl, fe, fi in fs:
        what = "%s adjacency graph of shape %r" % (name, shape)
        g = fi(shape)
        want = check_graph(g, shape, nl, ctx, what + " (implicit)")
        ctx.outcome((name, tuple(map(tuple, want))))
        ctx.eq(hg.get_attribute(g, "no_border_vertex_out_degree"), int(name), what)
        check_explicit(fe(shape), shape, want, ctx, what, int(name))
        check_explicit(fe(np.array(shape)), shape, want, ctx, what, int(name))
        check_explicit(fe(list(shape)), shape, want, ctx, what, int(name))
        check_explicit(g.as_explicit_graph(), shape, want, ctx, what)
        check_graph(pickle.loads(pickle.dumps(g)), shape, nl, ctx, what + " unpickled")
        check_explicit(pickle.loads(pickle.dumps(fe(shape))), shape, want, ctx, what + " unpickled", int(name))
        for bad in (shape + (2,), shape[:-1], (0,) + shape[1:], shape[:-1] + (-1,)):
            ctx.raises(lambda: fe(bad), "%s adjacency graph of shape %r" % (name, bad))
            ctx.raises(lambda: fi(bad), "%s adjacency graph of shape %r" % (name, bad))


def mask(case, ctx):
    mshape, bits, center = tuple(case[0]), case[1], case[2]
    m = np.array([(bits >> i) & 1 for i in range(int(np.prod(mshape)))]).reshape(mshape)
    ctx.state((mshape, bits, tuple(center or ())))
    c = tuple(center) if center is not None else tuple(s // 2 for s in mshape)
    want = [tuple(int(a - b) for a, b in zip(pt, c)) for pt in points(mshape) if m[pt]]
    ctx.op(3)
    for mm in (m, m.tolist(), m.astype(np.float64) * 2.5 - (m == 0), m.astype(bool)):
        r = hg.mask_2_neighbours(mm) if center is None else hg.mask_2_neighbours(mm, center)
        r = np.asarray(r)
        ctx.eq(sorted(tuple(map(int, x)) for x in r), sorted(want), "mask %r center %r" % (m.tolist(), center))
        ctx.eq(r.shape, (len(want), len(mshape)), "mask %r shape of the result" % (m.tolist(),))
    ctx.outcome(tuple(want))
    if center is None and want:
        g = hg.get_nd_regular_implicit_graph((2, 3, 2)[:len(mshape)], hg.mask_2_neighbours(m))
        check_graph(g, (2, 3, 2)[:len(mshape)], want, ctx, "graph of mask %r" % (m.tolist(),))
    ctx.raises(lambda: hg.mask_2_neighbours(m, [0] * (len(mshape) + 1)), "center of another dimension")


# --- embeddings ------------------------------------------------------------------------------
def embedding(case, ctx):
    shape = tuple(case)
    d = len(shape)
    ctx.state(shape)
    pts = points(shape)
    n = len(pts)
    Em = getattr(hg, EMB[d])
    for e in (Em(np.array(shape)), Em(list(shape)), pickle.loads(pickle.dumps(Em(np.array(shape))))):
        what = "embedding %r" % (shape,)
        ctx.eq(e.size(), n, what + " size")
        ctx.eq(e.dimension(), d, what + " dimension")
        ctx.eq(ints(e.shape()), list(shape), what + " shape")
        for i, p in enumerate(pts):
            ctx.op(3)
            ctx.eq(int(e.grid2lin(list(p))), i, "%s grid2lin(%r)" % (what, p))
            ctx.eq(tuple(ints(e.lin2grid(i))), p, "%s lin2grid(%d)" % (what, i))
        P = np.array(pts)
        for dt in ("int8", "int16", "int32", "int64"):
            ctx.eq(np.asarray(e.grid2lin(P.astype(dt))), np.arange(n), "%s grid2lin of %s" % (what, dt))
            if n <= np.iinfo(dt).max:
                ctx.eq(np.asarray(e.lin2grid(np.arange(n).astype(dt))), P, "%s lin2grid of %s" % (what, dt))
        ctx.eq(np.asarray(e.grid2lin(P.reshape(shape + (d,)))), np.arange(n).reshape(shape), what + " grid2lin of an nd array")
        ctx.eq(np.asarray(e.lin2grid(np.arange(n).reshape(shape))), P.reshape(shape + (d,)), what + " lin2grid of an nd array")
        ctx.eq(np.asarray(e.grid2lin(np.asfortranarray(P))), np.arange(n), what + " grid2lin of a fortran array")
        ctx.eq(np.asarray(e.lin2grid(np.arange(2 * n)[::2] // 2)), P, what + " lin2grid of a strided array")
        ctx.eq(np.asarray(e.grid2lin(P[::-1])), np.arange(n)[::-1], what + " grid2lin of a reversed array")
        big = list(itertools.product(*[range(-2, s + 2) for s in shape])) if d < 4 else \
            list(itertools.product(*[range(-1, s + 1) for s in shape]))
        w = [inside(shape, c) for c in big]
        ctx.eq([bool(e.contains(list(c))) for c in big], w, what + " contains")
        ctx.eq(np.asarray(e.contains(np.array(big))).tolist(), w, what + " contains (array)")
        ctx.op(len(big))
        ctx.outcome(tuple(w))
        for k in (d - 1, d + 1, d + 3):
            ctx.raises(lambda: e.grid2lin([0] * k), "%s grid2lin of %d coordinates" % (what, k))
            ctx.raises(lambda: e.contains([0] * k), "%s contains of %d coordinates" % (what, k))
            ctx.raises(lambda: e.grid2lin(np.zeros((2, k), dtype=np.int64)), "%s grid2lin of an array of %d coordinates" % (what, k))
            ctx.raises(lambda: e.contains(np.zeros((2, k), dtype=np.int64)), "%s contains of an array of %d coordinates" % (what, k))
    for k in range(d):
        for x in (0, -1, -3):
            bs = shape[:k] + (x,) + shape[k + 1:]
            ctx.raises(lambda: Em(np.array(bs)), "embedding of shape %r" % (bs,))
    ctx.raises(lambda: Em(np.array(shape + (2,))), "embedding with one more dimension")
    if d > 1:
        ctx.raises(lambda: Em(np.array(shape[:-1])), "embedding with one less dimension")


# --- enumerations ----------------------------------------------------------------------------
def shapes(d, lo, hi):
    return list(itertools.product(range(lo, hi + 1), repeat=d))


def subsets(l, kmin=0, kmax=None):
    for k in range(kmin, (len(l) if kmax is None else kmax) + 1):
        yield from itertools.combinations(l, k)


def graphs_1d():
    for n in range(1, 7):
        for nl in subsets(list(range(-3, 4))):
            yield [[n], [[x] for x in nl]]
    for n in range(1, 6):
        for nl in itertools.product((-5, -2, -1, 1, 2, 5), repeat=2):
            yield [[n], [[x] for x in nl]]


def graphs_2d(hi, m):
    def g():
        box = [d for d in itertools.product((-1, 0, 1), repeat=2) if any(d)]
        for s in shapes(2, 1, hi):
            for nl in subsets(box):
                yield [list(s), [list(d) for d in nl]]
        wide = list(itertools.product(range(-m, m + 1), repeat=2))
        half = [d for d in wide if d > (0, 0)]
        for s in [(1, 1), (1, 3), (2, 2), (2, 4), (3, 2), (4, 1), (3, 3), (5, 3), (4, 5)]:
            for d in wide:
                yield [list(s), [list(d)]]
            for a, b in itertools.combinations(half, 2):
                yield [list(s), [list(x) for x in (a, b, [-a[0], -a[1]], [-b[0], -b[1]])]]
                yield [list(s), [list(x) for x in (a, b)]]
    return g


def graphs_nd(deep):
    def g():
        for s in shapes(3, 1, 3):
            box = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
            half = [d for d in box if d > (0, 0, 0)]
            yield [list(s), [list(d) for d in box]]
            for nl in subsets([d for d in box if sum(map(abs, d)) == 1]):
                yield [list(s), [list(d) for d in nl]]
            for nl in subsets(half, 1, 3 if deep else 2):
                yield [list(s), [list(d) for d in nl] + [[-x for x in d] for d in nl]]
        for s in [(2, 1, 3), (3, 3, 3), (1, 4, 2)]:
            for d in itertools.product((-2, 0, 1, 3), repeat=3):
                yield [list(s), [list(d)]]
        for dim in (4, 5):
            ax = [tuple(sg * (k == a) for k in range(dim)) for a in range(dim) for sg in (-1, 1)]
            for s in shapes(dim, 1, 3 if deep or dim == 4 else 2):
                if dim == 4 and not deep and sum(x == 3 for x in s) > 1:
                    continue
                yield [list(s), [list(d) for d in ax]]
                for a in range(dim):
                    yield [list(s), [list(d) for d in ax[2 * a:2 * a + 2]]]
                    yield [list(s), [list(ax[2 * a]), [2 if k == a else -1 for k in range(dim)]]]
    return g


def ways():
    for s in [(3,), (1,), (2, 3), (1, 4), (2, 2, 3), (1, 2, 1), (2, 1, 2, 2), (1, 2, 1, 2, 2)]:
        d = len(s)
        yield [list(s), [[1] * d]]
        yield [list(s), [[1] * d, [-1] * d]]
        yield [list(s), [[int(k == a) * sg for k in range(d)] for a in range(d) for sg in (1, -1)]]


def masks(deep):
    def g():
        for ms in [(1,), (2,), (3,), (4,), (5,), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 1, 2), (2, 1, 2), (2, 2, 2), (1, 3, 2)] + ([(3, 4), (3, 3, 1)] if deep else []):
            for bits in range(1 << int(np.prod(ms))):
                yield [list(ms), bits, None]
                if int(np.prod(ms)) < 7:
                    for c in itertools.product(*[(-1, 0, s) for s in ms]):
                        yield [list(ms), bits, list(c)]
    return g


def embs(deep):
    def g():
        yield from ([n] for n in range(1, 9))
        yield from shapes(2, 1, 5)
        yield from shapes(3, 1, 4 if deep else 3)
        yield from shapes(4, 1, 3)
        yield from shapes(5, 1, 3 if deep else 2)
        yield from [[3, 1, 2, 4, 1], [1, 5, 1, 1, 2], [7, 13], [100, 3], [2, 50, 3]]
    return g


def groups(tier):
    deep = tier != "quick"
    return [Group("1d", graphs_1d, graph, "sides 1..6, all subsets of the offsets -3..3"),
            Group("2d", graphs_2d(4 if deep else 3, 3 if deep else 2), graph, "all shapes to %s, all 256 subsets of the 3x3 mask; 9 shapes with all pairs of wider offsets" % ("4x4" if deep else "3x3")),
            Group("nd", graphs_nd(deep), graph, "3 to 5 dimensions, sides 1..3"),
            Group("ways", ways, other_ways, "all constructors, pickling, refusals"),
            Group("named", lambda: itertools.chain(shapes(2, 1, 6 if deep else 5), shapes(3, 1, 4 if deep else 3)), named, "4, 8 and 6 adjacency graphs"),
            Group("mask", masks(deep), mask, "all masks of 17 shapes, all centers"),
            Group("embedding", embs(deep), embedding, "all shapes, all points, all coordinates up to 2 outside")]
