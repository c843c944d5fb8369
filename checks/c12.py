"""Component trees of every vertex weighted graph and trees of shapes of every small image, executed on the real code, against
the components of the level sets and the saturated components of the interpolated image."""
import itertools
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, ints, edges_of

ID = "C12"
ASSUMPTIONS = ["Altitudes and images have no NaN.",
               "Trees of shapes without immersion are only required to be trees of connected regions that hold the image (the documentation leaves the shapes undefined).",
               "The exterior point is an original or padded pixel, or any point of the plain map whose interval is reduced to one value."]


def comps(points, adj):
    points, out = set(points), []
    while points:
        st = [points.pop()]
        c = set(st)
        while st:
            x = st.pop()
            for y in adj[x]:
                if y in points:
                    points.discard(y)
                    c.add(y)
                    st.append(y)
        out.append(frozenset(c))
    return out


def chains(regs, n):
    """For each point the nested regions holding it, as (size, altitude), smallest first."""
    return [sorted(((len(r), a) for r, a in regs if v in r), key=lambda t: t[0]) for v in range(n)]


def observed(tree, alt):
    p = ints(tree.parents())
    L = tree.num_leaves()
    ls = gen.leaf_sets(p)
    alt = np.asarray(alt).tolist()
    return p, L, ls, alt


def component_trees(case, ctx):
    n, edges, w = case
    edges = [tuple(e) for e in edges]
    ctx.state((n, tuple(edges), tuple(w)))
    g = mk_graph(n, edges)
    adj = [[] for _ in range(n)]
    for a, b in edges:
        adj[a].append(b)
        adj[b].append(a)
    what = "graph of %d vertices, edges %r, vertex weights %r:" % (n, edges, w)
    conn = gen.connected(n, edges)
    dts = ["int64", "float64", "uint8", "int16", "float32", "bool", "uint64", "int8", "float16"]
    for dt, shift in [(d, 0) for d in dts[:3 if n > 3 else 9]] + [("float64", -1.5), ("int8", -128), ("int64", -2), ("float64", "close")]:
        if dt == "bool" and max(w, default=0) > 1:
            continue
        W = np.array(gen.scaled(w, dt, 1)) if shift == "close" else (np.array(w) + shift).astype(dt) if shift else np.array(w, dtype=dt)
        for f, s in ((hg.component_tree_max_tree, 1), (hg.component_tree_min_tree, -1)):
            if not conn:
                ctx.raises(lambda: f(g, W), what + " " + f.__name__)
                continue
            ctx.op()
            tree, alt = f(g, W)
            t = "%s %s (%s)" % (what, f.__name__, dt)
            wl = [s * float(x) for x in W.tolist()]
            regs = {}
            for lv in sorted(set(wl)):
                for c in comps([v for v in range(n) if wl[v] >= lv], adj):
                    regs[c] = min(wl[v] for v in c)
            p, L, ls, a = observed(tree, alt)
            ctx.eq(L, n, t + " number of leaves")
            if tree.category() != hg.TreeCategory.ComponentTree or hg.CptHierarchy.get_leaf_graph(tree) is not g:
                raise Violation(t + " not a component tree of the graph")
            ctx.eq([s * float(x) for x in a[:n]], wl, t + " leaf altitudes")
            ctx.eq(sorted((sorted(ls[i]), s * float(a[i])) for i in range(n, len(p))), sorted((sorted(c), v) for c, v in regs.items()), t + " nodes")
            ctx.eq([s * float(a[p[i]]) for i in range(n)], wl, t + " altitudes of the parents of the leaves")
            for i in range(n, len(p) - 1):
                if not ls[i] < ls[p[i]]:
                    raise Violation(t + " node %d %r is not included in its parent %r" % (i, sorted(ls[i]), sorted(ls[p[i]])))
            ctx.outcome(tuple(p))


# --- trees of shapes -------------------------------------------------------------------------
def adjacency(shape):
    adj = {}
    for x in itertools.product(*map(range, shape)):
        adj[x] = []
        for d in range(len(shape)):
            for s in (-1, 1):
                y = x[:d] + (x[d] + s,) + x[d + 1:]
                if 0 <= y[d] < shape[d]:
                    adj[x].append(y)
    return adj


def plain_map(im, padding, immersion, integer):
    if padding != "none":
        v = 0
        if padding == "mean":
            border = [im[x] for x in np.ndindex(im.shape) if any(c in (0, s - 1) for c, s in zip(x, im.shape))]
            v = sum(border) / len(border)
            if integer:
                v = int(v)   # towards zero
        im = np.pad(im, 1, constant_values=v) if v == int(v) else np.pad(im.astype(float), 1, constant_values=v)
    if not immersion:
        return im, im
    lo = np.zeros([2 * s - 1 for s in im.shape])
    hi = np.zeros_like(lo)
    for x in np.ndindex(lo.shape):
        corners = [im[y] for y in itertools.product(*[(c // 2, (c + 1) // 2) for c in x])]
        lo[x], hi[x] = min(corners), max(corners)
    return lo, hi


class Mixed(Exception):
    pass


def shapes(lo, hi, ext, level=None):
    """Tree of shapes by its recursive definition: the root holds what is reached from the exterior point at its level (a point of
    the plain map takes any level of its interval), each connected component of the rest is a shape, whose level is the first one
    met when entering it.  Returns region -> (altitude, altitude of the parent)."""
    adj = adjacency(lo.shape)
    out = {}

    def rec(region, seeds, v, up):
        out[frozenset(region)] = (v, up)
        inside = {x for x in region if lo[x] <= v <= hi[x]}
        st = [x for x in seeds if x in inside]
        p = set(st)
        while st:
            x = st.pop()
            for y in adj[x]:
                if y in inside and y not in p:
                    p.add(y)
                    st.append(y)
        for c in comps(set(region) - p, adj):
            border = [x for x in c if any(y not in c for y in adj[x])]
            touch = [x for x in border if any(y in p for y in adj[x])]
            above = {lo[x] > v for x in touch}
            if len(above) != 1:
                raise Mixed()
            w = min(lo[x] for x in border) if above.pop() else max(hi[x] for x in border)
            rec(c, border, float(w), v)
    rec(set(adj), [ext], float(lo[ext]), None)
    return out


def check_tos(ctx, what, tree, alt, full, keep, size, laminar=True):
    """full: shapes of the plain map, keep: points of the plain map in the order of the leaves."""
    p, L, ls, a = observed(tree, alt)
    ctx.eq(L, len(keep), what + " number of leaves")
    g = hg.CptHierarchy.get_leaf_graph(tree)
    ctx.eq(ints(hg.CptGridGraph.get_shape(g)), list(size), what + " shape of the leaf graph")
    ctx.eq(g.num_vertices(), L, what + " leaf graph")
    idx = {x: i for i, x in enumerate(keep)}
    exp = []
    for r, (v, _) in full.items():
        q = frozenset(idx[x] for x in r if x in idx)
        if q:
            exp.append((sorted(q), v, len(r)))
    ctx.eq(sorted((sorted(ls[i]), float(a[i])) for i in range(L, len(p))), sorted((q, float(v)) for q, v, _ in exp), what + " shapes")
    for x in range(L):
        want = [v for q, v, k in sorted(exp, key=lambda e: e[2]) if x in q]
        got = [float(a[y]) for y in gen.ancestors(p, x)[1:]]
        ctx.eq(got, want, what + " altitudes above leaf %d" % x)
    ctx.outcome(tuple(p))
    return p, a


def tos(case, ctx):
    data, dts, opts = case[:3]
    im0 = np.array(data)
    ctx.state((im0.shape, tuple(im0.ravel().tolist())))
    dim = im0.ndim
    for dt in dts:
        integer = np.dtype(dt).kind in "iu"
        off = {"uint8": 120, "int8": 100, "int16": 32000, "uint16": 60000, "int32": 2 ** 30, "int64": -7, "float32": -0.5}.get(dt, 0)
        im = im0 if len(case) > 3 else im0 + off if dt != "float64" else im0 * 2.0 ** -60 if int(im0.sum()) % 2 else im0
        A = im.astype(dt)
        for padding, original, immersion in opts:
            what = "tree of shapes of %r (%s), padding %s, original_size %r, immersion %r:" % (im.tolist(), dt, padding, original, immersion)
            lo, hi = plain_map(im, padding, immersion, integer)
            if not integer:     # the mean is a value of the image type
                lo, hi = [np.array(z, dtype=dt).astype("float64") for z in (lo, hi)]
            exts = [0]
            if len(dts) == 1 and lo.size < 30:
                exts += [k for k in range(1, lo.size) if lo.ravel()[k] == hi.ravel()[k]][::5]
            for ext in exts:
                ctx.op()
                tree, alt = hg.component_tree_tree_of_shapes_image(A, padding, original, immersion, ext)
                e = np.unravel_index(ext, lo.shape)
                e = tuple(int(x) for x in e)
                b = (0 if padding == "none" else 1) * (2 if immersion else 1)
                k = 2 if immersion else 1
                pts = list(np.ndindex(lo.shape))
                keep = pts
                size = lo.shape
                if original:
                    keep = [x for x in pts if all(b <= c < s - b and (c - b) % k == 0 for c, s in zip(x, lo.shape))]
                    size = im.shape
                if immersion:
                    p, a = check_tos(ctx, what + " exterior %d:" % ext, tree, alt, shapes(lo, hi, e), keep, size)
                else:
                    p, L, ls, a = observed(tree, alt)
                    ctx.eq(L, len(keep), what + " number of leaves")
                    ctx.eq(ints(hg.CptGridGraph.get_shape(hg.CptHierarchy.get_leaf_graph(tree))), list(size), what + " shape")
                flat = im.ravel().tolist() if original else None
                if original:
                    ctx.eq([float(a[p[i]]) for i in range(len(keep))], [float(x) for x in flat], what + " exterior %d: reconstruction" % ext)
                    ctx.eq([float(x) for x in a[:len(keep)]], [float(x) for x in flat], what + " leaf altitudes")
                if ext == 0 and np.dtype(dt).kind in "if" and immersion:
                    if np.dtype(dt).kind == "i" and im.min() == np.iinfo(dt).min:
                        continue
                    t2, a2 = hg.component_tree_tree_of_shapes_image(-A, padding, original, immersion)
                    q, L2, ls2, a2 = observed(t2, a2)
                    o = sorted((sorted(x), float(y)) for x, y in zip(gen.leaf_sets(p), a))
                    ctx.eq(sorted((sorted(x), -float(y)) for x, y in zip(ls2, a2)), o, what + " contrast inversion")
                f = hg.component_tree_tree_of_shapes_image2d if dim == 2 else hg.component_tree_tree_of_shapes_image3d
                t3, a3 = f(A, padding, original, immersion, ext)
                ctx.eq((ints(t3.parents()), np.asarray(a3)), (p, np.asarray(alt)), what + " %s exterior %d" % (f.__name__, ext))
    ctx.raises(lambda: hg.component_tree_tree_of_shapes_image(im0, "other"), "unknown padding")
    if dim == 2:
        ctx.raises(lambda: hg.component_tree_tree_of_shapes_image3d(im0), "3d tree of shapes of a 2d image")
        ctx.raises(lambda: hg.component_tree_tree_of_shapes_image(im0[0]), "tree of shapes of a 1d image")
    else:
        ctx.raises(lambda: hg.component_tree_tree_of_shapes_image2d(im0), "2d tree of shapes of a 3d image")
    for k in (-1, 10 ** 6):
        ctx.raises(lambda: hg.component_tree_tree_of_shapes_image(im0.astype(float), exterior_vertex=k), "exterior vertex %d" % k)


def fused(fams, size, idx, first_alone):
    """Shapes of the depth map: length of the longest chain of shapes above each point. first_alone: see the known finding, a shape reduced to
    a point which only exists in the first band is only nested in the shapes of this band."""
    pts = list(np.ndindex(size))
    alone = {s for s in fams[0] if len(s) == 1 and not any(s in f for f in fams[1:])} if first_alone and len(pts) > 1 else set()
    depth = {}
    for s in sorted({s for f in fams for s in f}, key=len, reverse=True):
        depth[s] = 1 + max([depth[t] for t in (fams[0] if s in alone else depth) if s < t], default=-1)
    d = np.zeros(size)
    for x in pts:
        d[x] = max(depth[s] for s in depth if x in s)
    try:
        exp = [r for r, (v, up) in shapes(d, d, (0, 0)).items() if up is None or v >= up]
    except Mixed:
        return None
    return sorted(q for q in (sorted(idx[x] for x in r if x in idx) for r in exp) if q)


def multivariate(case, ctx):
    bands, opts = case
    arr = np.array(bands, dtype="float64")      # channel first
    im = np.ascontiguousarray(np.moveaxis(arr, 0, -1))
    ctx.state(repr(bands))
    for padding, original, immersion in opts:
        what = "multivariate tree of shapes of %r, padding %s, original_size %r, immersion %r:" % (bands, padding, original, immersion)
        ctx.op()
        tree = hg.component_tree_multivariate_tree_of_shapes_image2d(im, padding, original, immersion)
        p = ints(tree.parents())
        L = tree.num_leaves()
        maps = [plain_map(b, padding, immersion, False) for b in arr]
        lo = maps[0][0]
        pts = list(np.ndindex(lo.shape))
        b = (0 if padding == "none" else 1) * (2 if immersion else 1)
        k = 2 if immersion else 1
        keep = pts
        if original:
            keep = [x for x in pts if all(b <= c < s - b and (c - b) % k == 0 for c, s in zip(x, lo.shape))]
        ctx.eq(L, len(keep), what + " number of leaves")
        size = arr[0].shape if original else lo.shape
        ctx.eq(ints(hg.CptGridGraph.get_shape(hg.CptHierarchy.get_leaf_graph(tree))), list(size), what + " shape of the leaf graph")
        if not immersion:
            continue
        fams = [set(shapes(lo_, hi_, (0, 0))) for lo_, hi_ in maps]
        idx = {x: i for i, x in enumerate(keep)}
        got = sorted(sorted(r) for r in gen.leaf_sets(p)[L:])
        want = fused(fams, lo.shape, idx, False)
        if want is None:
            continue
        if got != want and got == fused(fams, lo.shape, idx, True):
            raise Violation("%s got %r, expected %r" % (what, got, want), "multivariate:shape of a single point of the first band")
        ctx.eq(got, want, what + " shapes")
        ctx.outcome(tuple(p))


ALLOPT = [(pd, o, im) for im in (True, False) for pd in ("none", "zero", "mean") for o in (True, False)]


def groups(tier):
    deep = tier != "quick"

    def cts():
        for n in range(0, 5):
            for es in gen.multigraphs(n, 3 if n < 4 else 0):
                for w in gen.weak_orders(n):
                    yield [n, es, list(w)]
        for n in (4, 5) if deep else (4,):
            for k, es in enumerate(gen.simple_graphs(n)):
                if n == 4 or gen.connected(n, es) and k % 3 == 0:
                    for w in gen.weak_orders(n):
                        yield [n, es, list(w)]
        for h, w_, adj in ((3, 3, 4), (3, 3, 8), (4, 6, 4), (1, 20, 4), (7, 7, 8)):
            for q in range(10 if not deep else 100):
                r = gen.lcg(q + 5 * h)
                yield [h * w_, gen.grid_edges(h, w_, adj), [next(r) % (2 + q) for _ in range(h * w_)]]

    def images(shapes_, vals, step=1):
        for sh in shapes_:
            n = int(np.prod(sh))
            for k, x in enumerate(itertools.product(range(vals), repeat=n)):
                if k % step == 0:
                    yield np.array(x).reshape(sh).tolist()

    def small():
        k = 0
        for im in images([(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)], 4 if deep else 3):
            k += 1
            yield [im, ["float64"], ALLOPT if deep or k % 3 == 0 or k < 12 else ALLOPT[k % 2:6:2]]
            yield [im, ["uint8", "int8", "int32", "int64", "uint16", "float32", "int16"], [("mean", True, True), ("zero", True, True), ("none", False, True)]]
        for im in images([(2, 3), (3, 2)], 3, 1 if deep else 3):
            k += 1
            yield [im, ["float64"], ALLOPT if deep or k % 2 else ALLOPT[:6:2] + ALLOPT[6:7]]
            yield [im, ["int32"] if k % 2 else ["uint8"], [("mean", True, True), ("none", False, True)]]
        for im in images([(1, 4), (4, 1), (1, 6)], 3, 1 if deep else 7):
            yield [im, ["float64", "int16"], ALLOPT[:6:2]]

    def larger():
        for q in range(60 if not deep else 600):
            r = gen.lcg(q)
            h, w = 3 + q % 3, 3 + q % 2
            v = 2 + q % 7
            im = [[next(r) % v for _ in range(w)] for _ in range(h)]
            yield [im, ["float64", "uint8"] if q % 2 else ["int32", "int8"], [("mean", True, True), ("none", q % 3 == 0, True), ("zero", True, False)]]
        if deep:
            for im in images([(3, 3)], 2):
                yield [im, ["float64"], ALLOPT[:6]]

    def wide_range():
        """Values at both ends of the range of the type."""
        for dt, lo, mid, hi in (("uint8", 0, 100, 255), ("int8", -128, -1, 127), ("int16", -2 ** 15, 3, 2 ** 15 - 1), ("uint16", 0, 1, 2 ** 16 - 1), ("int32", -2 ** 31, -5, 2 ** 31 - 1), ("float32", -2.0 ** 127, 0, 2.0 ** 127), ("int64", -2 ** 63, 5, 2 ** 63 - 1)):
            vals = [lo, mid, hi]
            many = dt[-2:] == "16" and not deep
            opts = [("mean", True, True), ("none", False, True), ("zero", True, True), ("mean", True, True), ("none", True, True), ("zero", False, True)]
            if dt == "int64":       # the mean is a real number of 53 bits
                opts = [x for x in opts if x[0] != "mean"]
            for k, im in enumerate(images([(1, 2), (2, 2)], 3)):
                if not many or k % 4 == 0:
                    yield [[[vals[x] for x in r] for r in im], [dt], opts[:3], "raw"]
            for q in range(2 if many else 10):
                r = gen.lcg(q)
                yield [[[[lo, mid, hi, mid + 1, hi - hi // 8][next(r) % 5] for _ in range(4)] for _ in range(3)], [dt], opts[-3:], "raw"]
        for q in range(3):      # many points at the same time in the queue
            r = gen.lcg(q)
            yield [[[next(r) % (2 + 5 * q) for _ in range(17)] for _ in range(16)], ["uint8", "float64"], [("mean", True, True), ("none", True, True)]]

    def vols():
        for im in images([(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1), (1, 2, 2), (2, 2, 1), (2, 1, 2), (3, 1, 1), (1, 3, 1), (1, 1, 3), (3, 1, 2), (3, 2, 1)], 2):
            yield [im, ["float64"], [o for o in ALLOPT if o[0] != "mean" or o[1]]]
        for im in images([(2, 2, 2)], 2, 1 if deep else 4):
            yield [im, ["int32"], [("none", True, True), ("none", False, True), ("mean", True, True)]]
        for q in range(16 if not deep else 200):
            r = gen.lcg(q)
            sh = [(2, 2, 3), (3, 2, 2), (3, 3, 2), (4, 1, 3), (3, 3, 3), (4, 3, 1)][q % 6]
            yield [[[[next(r) % (2 + q % 4) for _ in range(sh[2])] for _ in range(sh[1])] for _ in range(sh[0])], ["uint8"] if q % 2 else ["float64"],
                   [("mean", True, True), ("none", True, True)]]

    def multi():
        for k, im in enumerate(images([(1, 1), (1, 2), (2, 2), (3, 1)], 3)):
            yield [[im, im], [o for o in ALLOPT if deep or k % 3 == 0 or o[2]]]
        for k, (a, b) in enumerate(itertools.product(images([(2, 2)], 2), repeat=2)):
            if deep or k % 4 == 0:
                yield [[a, b], ALLOPT[:6:2]]
        for q in range(12 if not deep else 100):
            r = gen.lcg(q)
            yield [[[[next(r) % 3 for _ in range(3)] for _ in range(2 + q % 2)] for _ in range(2 + q % 3)], ALLOPT[:6:2] + ALLOPT[6::3]]
    return [Group("component trees", cts, component_trees, "all multigraphs of at most 3 vertices and 3 edges and simple graphs of 4%s vertices with all weak orders of vertex weights; grids up to 7x7" % (" and 5" if deep else "")),
            Group("tree of shapes", small, tos, "all images of at most 2x2 with %d values, 2x3 with 3 values; all options, exterior points and numeric types" % (4 if deep else 3)),
            Group("tree of shapes, larger", larger, tos, "images of 3x3 to 5x4" + (", all binary 3x3 images" if deep else "")),
            Group("tree of shapes range", wide_range, tos, "images of at most 2x2 (all) and 3x4 whose values are at both ends of the range of 6 types; images of 16x17"),
            Group("tree of shapes 3d", vols, tos, "all binary volumes of at most 2x2x1, 3x2x1 (and 2x2x2: %s); volumes up to 3x3x3" % ("all" if deep else "one in 4")),
            Group("multivariate", multi, multivariate, "all images of at most 2x2 with 3 values, twice, all pairs of binary 2x2 bands")]
