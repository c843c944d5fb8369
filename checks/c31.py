"""C31: All small gradient images (weights of 4-adjacency grids), edge orientations, sets of scales and images through the oriented watershed, the mean boundary hierarchies and the image filters,
against contours, regions, means, alignments and convolutions recomputed explicitly from the enumerated values."""
import itertools
import math
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import ints, edges_of

ID = "C31"
ASSUMPTIONS = ["Nonnegative finite weights; the 4 adjacency graph of the image; orientations are angles in radians.",
               "The watershed, polyline, linkage and saliency primitives composed by these functions have their own properties (C13, C23, C11, C08)."]
PI = math.pi


def grid(shape):
    return hg.get_4_adjacency_graph(tuple(shape))


def rag_of(n, edges, lab):
    """Pairs of adjacent regions and the frontier edges of each."""
    out = {}
    for i, (a, b) in enumerate(edges):
        if lab[a] != lab[b]:
            out.setdefault(frozenset((lab[a], lab[b])), []).append(i)
    return out


def reweighted(g, shape, w, o, lab):
    """Concordance of the orientation of the polylines with the given orientations."""
    edges = edges_of(g)
    cutw = np.array([1.0 if lab[a] != lab[b] else 0.0 for a, b in edges])
    c = hg.fit_contour_2d(g, tuple(shape), cutw)
    c.subdivide()
    best = [0.0] * len(edges)
    seen = set()
    polylines = [pl for pl in c]
    for pl in polylines:
        for s in pl:
            ang = math.fmod(s.angle(), PI)
            for el in s:
                e = int(el[0])
                seen.add(e)
                best[e] = max(best[e], w[e] * abs(math.cos(o[e] - PI / 2 - ang)))
    if seen != {i for i, x in enumerate(cutw) if x}:
        raise Violation("contour elements %r, frontier %r" % (sorted(seen), ints(np.nonzero(cutw)[0])))
    return best


def ows(g, shape, w, o, ctx, what, W, O):
    edges = edges_of(g)
    n = g.num_vertices()
    ctx.op()
    rag, rw = hg.oriented_watershed(g, W, tuple(shape), O) if O is not None else hg.oriented_watershed(g, W, tuple(shape))
    vm = ints(hg.CptRegionAdjacencyGraph.get_vertex_map(rag))
    em = ints(hg.CptRegionAdjacencyGraph.get_edge_map(rag))
    ctx.ok(hg.CptRegionAdjacencyGraph.get_pre_graph(rag) is g, what + " pre-graph")
    basins = ints(hg.labelisation_watershed(g, np.array(w, dtype=np.float64)))
    ctx.eq(gen.canon_labels(vm), gen.canon_labels(basins), what + " regions")
    ctx.eq(rag.num_vertices(), len(set(basins)), what + " number of regions")
    R = rag_of(n, edges, vm)
    re = edges_of(rag)
    ctx.eq(sorted(sorted(x) for x in R), sorted(sorted(x) for x in re), what + " adjacency")
    fw = w if o is None else reweighted(g, shape, w, o, basins)
    for k, pair in enumerate(re):
        f = R[frozenset(pair)]
        ctx.eq([i for i in range(len(edges)) if em[i] == k], f, what + " frontier of regions %r" % (pair,))
        m = sum(fw[i] for i in f) / len(f)
        ctx.ok(abs(m - rw[k]) <= 1e-5 * max(1, abs(m)), what + " weight of regions %r: got %r, expected %r" % (pair, float(rw[k]), m))
    return rag, rw, vm, em, R


def parse(case):
    shape, first, nv, kind, k = case
    g = grid(shape)
    m = g.num_edges()
    for j, rest in enumerate(itertools.product(range(nv), repeat=m - len(first))):
        yield j, g, tuple(shape), [float(x) for x in tuple(first) + rest], kind, k + j


ANG = (0.0, PI / 4, PI / 2, 3 * PI / 4, PI, -1.0, 0.3)


def orient(kind, edges, shape, j):
    if kind == 0:
        return None
    if kind == 1:
        return [ANG[j % len(ANG)]] * len(edges)
    if kind == 2:
        return [ANG[(i * 3 + j) % len(ANG)] for i in range(len(edges))]
    return [0.0 if abs(a - b) == 1 else PI / 2 for a, b in edges]


def arrays(w, o, j):
    dt = ("float64", "float32")[j % 2]
    W = np.array(w, dtype=dt)
    if j % 5 == 3:
        W = np.array(w).astype(("int32", "uint8", "int64")[j % 3])
    if j % 3 == 1:
        b = np.zeros(2 * len(w), dtype=W.dtype)
        b[::2] = W
        W = b[::2]
    return W, None if o is None else np.array(o, dtype=dt)


def oriented(case, ctx):
    for j, g, shape, w, kind, k in parse(case):
        o = orient(kind, edges_of(g), shape, k)
        ctx.state((shape, tuple(w), kind, tuple(o or ())))
        W, O = arrays(w, o, k)
        what = "oriented watershed of shape %r, weights %r (%s), orientations %r:" % (shape, w, W.dtype, o)
        rag, rw, vm, em, R = ows(g, shape, w, o, ctx, what, W, O)
        ctx.ok(W.tolist() == w and (O is None or np.allclose(O, o)), what + " arguments modified")
        ctx.op()
        t, alt = hg.mean_pb_hierarchy(g, W, shape, O) if O is not None else hg.mean_pb_hierarchy(g, W, shape)
        what = "mean pb hierarchy of shape %r, weights %r (%s), orientations %r:" % (shape, w, W.dtype, o)
        check_mean(ctx, what, g, rag, rw, em, t, alt)
        ctx.outcome((tuple(ints(t.parents())), tuple(vm)))


def staircase(case, ctx):
    """Long contours, which are subdivided: the region under a staircase of a square image and its complement."""
    n, first, kind, k = case
    g = grid((n, n))
    edges = edges_of(g)
    for j, rest in enumerate(itertools.combinations_with_replacement(range(first, -1, -1), n - 1)):
        hs = (first,) + rest
        lab = [1 if y < hs[x] else 0 for y in range(n) for x in range(n)]
        q = k + j
        w = [float(1 + (i * (q + 1) + q // 3) % 3) if lab[a] != lab[b] else 0.0 for i, (a, b) in enumerate(edges)]
        o = orient(kind, edges, (n, n), q)
        ctx.state((n, hs, kind, tuple(w)))
        W, O = arrays(w, o, q)
        what = "oriented watershed of shape %r, staircase %r, weights %r (%s), orientations %r:" % ((n, n), hs, w, W.dtype, o)
        rag, rw, vm, em, R = ows(g, (n, n), w, o, ctx, what, W, O)
        ctx.outcome((hs, tuple(np.round(rw, 4).tolist())))


def check_mean(ctx, what, g, rag, rw, em, t, alt):
    lg = hg.CptHierarchy.construct(t)["leaf_graph"]
    ctx.eq(edges_of(lg), edges_of(rag), what + " leaf graph")
    ctx.ok(hg.CptRegionAdjacencyGraph.validate(lg) and hg.CptRegionAdjacencyGraph.get_pre_graph(lg) is g, what + " leaf graph is not a region adjacency graph of the image")
    ctx.eq(ints(hg.CptRegionAdjacencyGraph.get_edge_map(lg)), em, what + " edge map")
    ctx.eq(t.num_leaves(), rag.num_vertices(), what + " leaves")
    if rag.num_edges() == 0:
        ctx.eq(t.num_vertices(), 1, what + " tree")
        return
    length = np.array([float(sum(1 for e in em if e == i)) for i in range(rag.num_edges())])
    # average linkage simulated on the regions: at each step one of the pairs of smallest mean frontier weight is merged
    p = ints(t.parents())
    n = t.num_leaves()
    ch = gen.children(p)
    S = {}
    for (a, b), x, l in zip(edges_of(rag), rw.tolist(), length):
        S[frozenset((a, b))] = (x * l, l)
    live = set(range(n))
    ctx.eq(len(p), 2 * n - 1, what + " binary tree")
    ctx.ok(np.all(np.asarray(alt[:n]) == 0), what + " altitudes of the leaves")
    for i in range(n, len(p)):
        a, b = ch[i]
        ctx.ok(a in live and b in live and frozenset((a, b)) in S, what + " node %d merges %d and %d which are not adjacent" % (i, a, b))
        s, l = S[frozenset((a, b))]
        best = min(x / y for x, y in S.values())
        ctx.ok(s / l <= best + 1e-5, what + " node %d merges %d and %d at %r, smallest %r" % (i, a, b, s / l, best))
        ctx.ok(abs(float(alt[i]) - s / l) <= 1e-4, what + " altitude of node %d: %r, expected %r" % (i, float(alt[i]), s / l))
        del S[frozenset((a, b))]
        live -= {a, b}
        for c in live:
            x = [S.pop(frozenset((c, y))) for y in (a, b) if frozenset((c, y)) in S]
            if x:
                S[frozenset((c, i))] = (sum(z[0] for z in x), sum(z[1] for z in x))
        live.add(i)


def multiscale(case, ctx):
    shape, ws, kind, k = case
    g = grid(shape)
    edges = edges_of(g)
    o = orient(kind, edges, shape, k)
    O = None if o is None else np.array(o)
    ctx.state((tuple(shape), str(ws), kind, k))
    Ws = [np.array(w, dtype=("float64", "float32")[(k + i) % 2]) for i, w in enumerate(ws)]
    keep = [w.copy() for w in Ws]
    what = "multiscale mean pb hierarchy of shape %r, weights %r, orientations %r:" % (tuple(shape), ws, o)
    ctx.op()
    t, alt = hg.multiscale_mean_pb_hierarchy(g, Ws[0], tuple(Ws[1:]), tuple(shape), O)
    ctx.ok(all(np.array_equal(a, b) for a, b in zip(Ws, keep)), what + " arguments modified")
    # fine scale
    total = [0.0] * len(edges)
    flab = None
    for i, w in enumerate(ws):
        th, ah = hg.mean_pb_hierarchy(g, Ws[i], tuple(shape), O)
        vm = ints(hg.CptRegionAdjacencyGraph.get_vertex_map(hg.CptHierarchy.get_leaf_graph(th)))
        p = ints(th.parents())
        if i == 0:
            flab = vm
            sup = [gen.lca(p, vm[a], vm[b]) for a, b in edges]
            for e, (a, b) in enumerate(edges):
                total[e] += float(ah[sup[e]]) if vm[a] != vm[b] else 0.0
        else:
            # projection of the fine regions on the coarse ones: the region they intersect the most
            prj = {}
            amb = False
            for r in set(flab):
                cnt = {}
                for v in range(len(flab)):
                    if flab[v] == r:
                        cnt[vm[v]] = cnt.get(vm[v], 0) + 1
                m = max(cnt.values())
                best = [c for c in cnt if cnt[c] == m]
                amb |= len(best) > 1
                prj[r] = best
            if amb:
                ctx.outcome("ambiguous projection")
                return
            for e, (a, b) in enumerate(edges):
                x, y = prj[flab[a]][0], prj[flab[b]][0]
                total[e] += float(ah[gen.lca(p, x, y)]) if x != y else 0.0
    mean = [x / len(ws) for x in total]
    lg = hg.CptHierarchy.get_leaf_graph(t)
    f = [round(x, 9) for x in mean]
    rag, rw, vm2, em, R = ows(g, shape, f, None, ctx, what, np.array(f), None)
    if ints(hg.CptRegionAdjacencyGraph.get_vertex_map(lg)) != vm2:
        # equal means may differ by a rounding error in the function: then plateaus are cut
        d = sorted(set(mean))
        if any(0 < b - a < 1e-6 for a, b in zip(d, d[1:])):
            return
        raise Violation(what + " regions %r, expected %r" % (ints(hg.CptRegionAdjacencyGraph.get_vertex_map(lg)), vm2))
    check_mean(ctx, what, g, rag, rw, em, t, alt)
    ctx.outcome(tuple(ints(t.parents())))


def conv(im, size):
    """The triangular filter by its definition: symmetric extension, kernel 1..size+1..1 in both directions."""
    h, w = len(im), len(im[0])

    def at(i, n):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    ker = [size + 1 - abs(d) for d in range(-size, size + 1)]
    q = float((size + 1) ** 2) ** 2
    return [[sum(ker[a + size] * ker[b + size] * im[at(y + a, h)][at(x + b, w)] for a in range(-size, size + 1) for b in range(-size, size + 1)) / q
             for x in range(w)] for y in range(h)]


def grad(a):
    """Central differences inside, one sided on the border; along rows then columns."""
    h, w = len(a), len(a[0])

    def d(f, i, n):
        lo, hi = max(i - 1, 0), min(i + 1, n - 1)
        return (f(hi) - f(lo)) / (hi - lo)
    return ([[d(lambda i: a[i][x], y, h) for x in range(w)] for y in range(h)],
            [[d(lambda i: a[y][i], x, w) for x in range(w)] for y in range(h)])


def filters(case, ctx):
    shape, first, nv, k = case
    h, w = shape
    for j, rest in enumerate(itertools.product(range(nv), repeat=h * w - len(first))):
        v = tuple(first) + rest
        im = np.array(v).reshape(shape)
        dt = ("float64", "uint8", "int32", "float32", "bool" if nv == 2 else "int8")[(j + k) % 5]
        I = im.astype(dt)
        if (j + k) % 3 == 0:
            I = np.asfortranarray(I)
        for size in (1, 2, 4):
            ctx.state((tuple(shape), v, size))
            what = "filter of size %d of %r (%s):" % (size, im.tolist(), dt)
            ctx.op()
            r = hg.triangular_filter(I, size)
            want = conv(im.tolist(), size)
            ctx.eq(np.asarray(r).astype(float).tolist(), want, what)
            ctx.ok(np.array_equal(I, im), what + " argument modified")
            if h > 1 and w > 1:
                what = "orientation at scale %d of %r (%s):" % (size, im.tolist(), dt)
                ctx.op()
                a = hg.gradient_orientation(I, size)
                gy, gx = grad(want)
                gxx = grad(gx)[1]
                gyy, gxy = grad(gy)
                ctx.eq(a.shape, tuple(shape), what + " shape")
                for y in range(h):
                    for x in range(w):
                        ctx.ok(0 <= a[y, x] <= PI + 1e-12, what + " angle %r" % float(a[y, x]))
                        if abs(gxy[y][x]) < 1e-9 or max(abs(gyy[y][x]), abs(gxx[y][x])) < 1e-9:
                            continue  # undefined or decided by a rounding error
                        e = math.atan2(-gyy[y][x] * (1 if gxy[y][x] > 0 else -1), gxx[y][x]) % PI
                        d = abs(float(a[y, x]) - e)
                        ctx.ok(min(d, abs(PI - d)) < 1e-6, what + " pixel (%d, %d): got %r, expected %r" % (y, x, float(a[y, x]), e))


def groups(tier):
    T = tier == "thorough"

    def g_or():
        k = 0
        for kind in range(4):
            for shape, nv, nf in (((1, 1), 1, 0), ((1, 4), 3, 0), ((3, 1), 3, 0), ((2, 2), 4, 0), ((2, 3), 3, 2), ((3, 2), 3 if T else 2, 2), ((3, 3), 2, 5), ((1, 6), 3, 1)) + ((((2, 4), 3 if kind < 2 else 2, 4),) if T else ()):
                m = grid(shape).num_edges()
                if not T and nv == 3 and m == 7 and kind in (1, 3):
                    nv = 2
                for f in itertools.product(range(nv), repeat=min(nf, m)):
                    k += 1
                    yield list(shape), list(f), nv, kind, k

    def g_st():
        k = 0
        for n in ((7, 8) if T else (6, 7)):
            for first in range(1, n + 1):
                for kind in (1, 2, 3):
                    k += 1
                    yield n, first, kind, k

    def g_ms():
        k = 0
        for shape, n in (((1, 4), 3), ((2, 2), 3), ((2, 3), 2), ((2, 3), 3), ((3, 3), 3)):
            m = grid(shape).num_edges()
            pool = list(itertools.product((0, 1, 2), repeat=m)) if m <= 4 else [tuple((q * i * i + 3 * i + q // 3) % 4 for i in range(m)) for q in range(40 if T else 14)]
            pool = pool[::2] if m == 4 and not T else pool
            for a, b in itertools.product(pool, repeat=2):
                k += 1
                yield list(shape), [a, b] + ([pool[(k * 7) % len(pool)]] if n == 3 else []), k % 4, k

    def g_f():
        k = 0
        for shape, nv, nf in (((1, 3), 4, 0), ((3, 1), 4, 0), ((2, 2), 4, 1), ((2, 3), 3, 2), ((3, 3), 3 if T else 2, 3), ((3, 4), 2, 6 if T else 99)):
            if nf == 99:
                continue
            for f in itertools.product(range(nv), repeat=nf):
                k += 1
                yield list(shape), list(f), nv, k

    return [Group("oriented watershed", g_or, oriented, "all weights of grids up to 3x3 (2 to 4 values), 4 families of orientations", limit=120),
            Group("staircases", g_st, staircase, "all the monotone staircases in images of %s, 3 families of orientations" % ("7x7 and 8x8" if T else "6x6 and 7x7"), limit=120),
            Group("multiscale", g_ms, multiscale, "all pairs of weights on grids of up to 4 edges, a pool on larger ones"),
            Group("image filters", g_f, filters, "all images up to 2x3 with 3 values and 3x3 with 2, three scales", limit=120)]
