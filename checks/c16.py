"""All cuts of all small trees (bounded energies) against the optimal cut, its scale set hierarchy at every scale between breakpoints, the
Mumford-Shah energies of small images and every merge of their Mumford-Shah binary partition trees."""
import itertools
from fractions import Fraction as F
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints, edges_of

ID = "C16"
ASSUMPTIONS = ["Scale sets: energies are non negative and the regularization is sub additive (precondition of the function); the number of pieces "
               "of the energies is at most the approximation parameter where optimality is checked.",
               "Mumford-Shah trees: graphs without parallel edges nor loops, fewer than 10 vertices (the scale functions have at most 10 pieces)."]


def cuts_of(p, limit=None):
    """Every cut (set of nodes, one above each leaf) of each node."""
    ch = gen.children(p)
    out = []
    for i in range(len(p)):
        c = [(i,)]
        if ch[i]:
            c += [tuple(itertools.chain(*x)) for x in itertools.product(*[out[j] for j in ch[i]])]
        out.append(c)
    return out


def part(p, cut, ls):
    return frozenset(frozenset(ls[i]) for i in cut)


def blocks(lab):
    d = {}
    for i, x in enumerate(lab):
        d.setdefault(x, set()).add(i)
    return frozenset(map(frozenset, d.values()))


ACC = {"sum": (hg.Accumulators.sum, sum), "min": (hg.Accumulators.min, min), "max": (hg.Accumulators.max, max)}


def optimal_cut(case, ctx):
    p, vals = tuple(case[0]), case[1]
    n, L = len(p), gen.num_leaves(p)
    t = mk_tree(p, "pc"[sum(p) % 2])
    ls = gen.leaf_sets(p)
    cuts = [(c, part(p, c, ls)) for c in cuts_of(p)[n - 1]]
    for k, e in enumerate(itertools.product(vals, repeat=n)):
        ctx.state((p, e))
        dt = ("float64", "float32", "int64", "uint8", "float64")[k % 5] if min(e) >= 0 else ("float64", "int16")[k % 2]
        E = np.array(e, dtype=dt)
        for name, (acc, f) in ACC.items():
            ctx.op()
            what = "optimal cut of %r, energies %r (%s), %s:" % (p, e, dt, name)
            lab = ints(hg.labelisation_optimal_cut_from_energy(t, E, acc))
            en = [(f(e[i] for i in c), b) for c, b in cuts]
            best = min(x for x, _ in en)
            got = blocks(lab)
            mine = [x for x, b in en if b == got]
            ctx.ok(bool(mine), what + " labels %r are not a cut of the tree" % (lab,))
            ctx.eq(min(mine), best, what + " energy of the labels %r" % (lab,))
            ctx.eq(sorted(set(lab)), list(range(len(got))), what + " labels")
            ctx.outcome((len(got), name))
    g = mk_graph(L, [(i, i + 1) for i in range(L - 1)])
    hg.CptHierarchy.link(t, g)
    ctx.eq(hg.labelisation_optimal_cut_from_energy(t, np.ones(n)).shape, (L,), "shape")
    for bad in (np.ones(n + 1), np.ones(max(n - 1, 0)), np.ones((n, 2))):
        if bad.shape != (n,):
            ctx.raises(lambda: hg.labelisation_optimal_cut_from_energy(t, bad), "energies of shape %r for %r" % (bad.shape, p))


def crossings(lines, lo):
    """Scales where two of the lines (D, R) cross."""
    return {F(d2 - d1, r1 - r2) for (d1, r1), (d2, r2) in itertools.combinations(sorted(set(lines)), 2) if r1 != r2 and F(d2 - d1, r1 - r2) >= lo}


def scales(lines):
    c = sorted(crossings(lines, 0) | {F(0)})
    s = list(c) + [(a + b) / 2 for a, b in zip(c, c[1:])] + [c[-1] + 1, c[-1] + 1000]
    return s


def check_scale_set(ctx, p, D, R, new, alt, what, tol=1e-7):
    L = gen.num_leaves(p)
    ls = gen.leaf_sets(p)
    cuts = [(sum(D[i] for i in c), sum(R[i] for i in c), part(p, c, ls)) for c in cuts_of(p)[len(p) - 1]]
    q = ints(new.parents())
    alt = np.asarray(alt).tolist()
    ctx.eq(new.num_leaves(), L, what + " number of leaves")
    ctx.ok(all(a <= alt[x] for a, x in zip(alt, q)) and all(a >= 0 for a in alt), what + " altitudes %r of %r" % (alt, q))
    if len(p) > 1:
        ctx.ok(all(a == 0 for a in alt[:L]), what + " altitudes of the leaves %r" % alt[:L])
    olds = {frozenset(s) for s in ls}
    ctx.ok(all(frozenset(s) in olds for s in gen.leaf_sets(q)), what + " regions of %r" % q)
    lines = {(d, r) for d, r, _ in cuts}
    for s in scales(lines):
        lam = float(s)
        ctx.op()
        got = blocks(ints(hg.labelisation_horizontal_cut_from_threshold(new, np.array(alt), lam)))
        best = min(d + s * r for d, r in lines)
        mine = [d + s * r for d, r, b in cuts if b == got]
        ctx.ok(bool(mine), what + " cut at scale %r is not a cut of the input" % lam)
        e = float(min(mine))
        ctx.ok(e - float(best) <= tol * max(1.0, abs(float(best))), what + " cut at scale %r: %r of energy %r, the best is %r (parents %r, altitudes %r)" % (lam, sorted(map(sorted, got)), e, float(best), q, alt))


def scale_set(case, ctx):
    p, dv, rv = tuple(case[0]), case[1], case[2]
    n = len(p)
    ch = gen.children(p)
    t = mk_tree(p, "pc"[sum(p) % 2])
    k = case[3]
    for R in itertools.product(rv, repeat=n):
        if any(ch[i] and R[i] > sum(R[j] for j in ch[i]) for i in range(n)):
            continue
        for D in itertools.product(dv, repeat=n):
            k += 1
            if len(case) > 4 and k % case[4]:
                continue
            ctx.state((p, D, R))
            dt = ("float64", "int32", "float32")[k % 3]
            what = "scale set of %r, D %r, R %r (%s):" % (p, D, R, dt)
            ctx.op()
            new, alt = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, np.array(D, dtype=dt), np.array(R, dtype=dt))
            check_scale_set(ctx, p, [F(x) for x in D], [F(x) for x in R], new, alt, what)
            ctx.outcome(tuple(ints(new.parents())))
            lg = hg.CptHierarchy.get_leaf_graph(t)
            ctx.ok(hg.CptHierarchy.validate(new) == (lg is not None) and hg.CptHierarchy.get_leaf_graph(new) is lg, what + " leaf graph of the result")
            if k % 7 == 0:
                hg.CptHierarchy.link(t, mk_graph(gen.num_leaves(p), []))
                n3, a3 = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, np.array(D, dtype=dt), np.array(R, dtype="float64"), n + 1)
                ctx.eq((ints(n3.parents()), np.asarray(a3)), (ints(new.parents()), np.asarray(alt)), what + " %d pieces" % (n + 1))
    for bad in (0, -1):
        ctx.raises(lambda: hg.hierarchy_to_optimal_energy_cut_hierarchy(t, np.ones(n), np.ones(n), bad), "%d pieces" % bad)
    ctx.raises(lambda: hg.hierarchy_to_optimal_energy_cut_hierarchy(t, np.ones(n + 1), np.ones(n + 1)), "wrong number of energies")


def large_scale_set(case, ctx):
    """Trees with more nodes: optimal energies by dynamic programming at each scale."""
    p, seed = tuple(case[0]), case[1]
    n, L = len(p), gen.num_leaves(p)
    ch = gen.children(p)
    r = gen.lcg(seed)
    D, R = [0] * n, [0] * n
    for i in range(n):
        D[i] = next(r) % 5 if i < L else sum(D[j] for j in ch[i]) + next(r) % 7
        R[i] = 1 + next(r) % 4 if i < L else max(1, sum(R[j] for j in ch[i]) - next(r) % 4)
    ctx.state((p, tuple(D), tuple(R)))
    t = mk_tree(p)
    what = "scale set of %r, D %r, R %r:" % (p, D, R)
    new, alt = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, np.array(D), np.array(R), 4 * n)
    alt = np.asarray(alt)
    q = ints(new.parents())
    ls = [frozenset(s) for s in gen.leaf_sets(p)]
    node = {}
    for i in range(n):
        node.setdefault(ls[i], []).append(i)
    levels = sorted({float(a) for a in alt if np.isfinite(a)} | {0.0})
    lams = sorted({0.0} | {(a + b) / 2 for a, b in zip(levels, levels[1:])} | {levels[-1] + 1} | {x / 7 for x in range(0, 40, 3)})
    for lam in lams:
        ctx.op(2)
        E = [d + lam * x for d, x in zip(D, R)]
        best = [0.0] * n
        for i in range(n):
            best[i] = E[i] if i < L else min(E[i], sum(best[j] for j in ch[i]))
        for nm, lab in (("threshold", hg.labelisation_horizontal_cut_from_threshold(new, alt, lam)),
                        ("optimal cut", hg.labelisation_optimal_cut_from_energy(t, np.array(E)))):
            bl = blocks(ints(lab))
            ctx.ok(all(b in node for b in bl), what + " %s at %r is not a cut" % (nm, lam))
            e = sum(min(E[i] for i in node[b]) for b in bl)
            ctx.ok(abs(e - best[n - 1]) < 1e-7 * max(1, e), what + " %s at scale %r: energy %r, the best is %r" % (nm, lam, e, best[n - 1]))
    ctx.outcome(len(levels))


def copies(b, k):
    """k copies of the tree b under a new root."""
    L, n = gen.num_leaves(b), len(b)
    m = n - L
    N = k * n + 1
    def idx(c, v):
        return c * L + v if v < L else k * L + (v - L) * k + c
    p = [N - 1] * N
    for c in range(k):
        for v in range(n):
            p[idx(c, v)] = N - 1 if v == n - 1 else idx(c, b[v])
    return tuple(p), [[idx(c, v) for v in range(n)] for c in range(k)]


def envelope(lines):
    """Lower envelope of the lines (D, R) on the positive scales, from the largest scale to the smallest."""
    pts = [F(0)] + sorted({x for x in crossings(lines, 0) if x > 0})
    mids = [(a + b) / 2 for a, b in zip(pts, pts[1:])] + [pts[-1] + 1]
    return sorted({min((d + x * r, r, d) for d, r in lines)[:0:-1] for x in mids}, key=lambda l: l[1])


def approximated(p, D, R, k):
    """Scale of apparition of each node where the energies of the sums are restricted to their k pieces of largest scale."""
    ch = gen.children(p)
    env, scale = [], []
    for i in range(len(p)):
        if not ch[i]:
            env.append([(D[i], R[i])])
            scale.append(F(0))
            continue
        tot = [(F(0), F(0))]
        for c in ch[i]:
            tot = envelope({(a + d, b + r) for a, b in tot for d, r in env[c]})[:k]
        scale.append(max([F(0)] + [(D[i] - d) / (r - R[i]) for d, r in tot]))
        env.append(envelope(set(tot) | {(D[i], R[i])}))
    for i in reversed(range(len(p) - 1)):
        scale[i] = min(scale[i], scale[p[i]])
    return scale


def num_pieces(ch, D, R):
    """Largest number of linear pieces of the sums of the optimal energies of the children, over the nodes."""
    env = []
    best = 1

    def lower(lines, f=None):
        pts = sorted({x for x in crossings(lines, 0) if x > 0})
        pts = [F(0)] + pts
        mids = [(a + b) / 2 for a, b in zip(pts, pts[1:])] + [pts[-1] + 1]
        return sorted({min((d + x * r, r, d) for d, r in lines)[:0:-1] for x in mids}, key=lambda l: -l[1])
    for i in range(len(ch)):
        if not ch[i]:
            env.append([(D[i], R[i])])
            continue
        tot = [(F(0), F(0))]
        for c in ch[i]:
            tot = lower({(a + d, b + r) for a, b in tot for d, r in env[c]})
            best = max(best, len(tot))
        env.append(lower(set(tot) | {(D[i], R[i])}))
    return best


def pieces(case, ctx):
    """The model is exact as soon as its number of pieces suffices: no piece is wasted."""
    b, k, q = tuple(case[0]), case[1], case[2]
    p, maps = copies(b, k)
    n = len(p)
    ch = gen.children(p)
    r = gen.lcg(q)
    D, R = [None] * n, [None] * n
    for j in range(len(b)):
        x, y = next(r) % 4, next(r) % 3
        for mp in maps:
            i = mp[j]
            D[i] = F(x % 3 if not ch[i] else sum(D[c] for c in ch[i]) + x)
            R[i] = F(4 + y if not ch[i] else max(1, sum(R[c] for c in ch[i]) - 1 - y))
    D[n - 1] = sum(D[c] for c in ch[n - 1]) + next(r) % 9
    R[n - 1] = max(F(1), sum(R[c] for c in ch[n - 1]) - 1 - next(r) % 3)
    m = num_pieces(ch, D, R)
    ctx.state((p, tuple(D), tuple(R)))
    ctx.outcome(m)
    t = mk_tree(p)
    full = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, np.array(D, dtype="float64"), np.array(R, dtype="float64"), 8 * n)
    for e in (m, m + 1):
        ctx.op()
        new, alt = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, np.array(D, dtype="float64"), np.array(R, dtype="float64"), e)
        ctx.eq((ints(new.parents()), np.asarray(alt)), (ints(full[0].parents()), np.asarray(full[1])), "scale set of %r, D %r, R %r, %d pieces (at most %d are needed)" % (p, ints(D), ints(R), e, m))
    ls = gen.leaf_sets(p)
    for e in range(1, m if k > 1 else 1):
        sc = approximated(p, D, R, e)
        what = "scale set of %r, D %r, R %r, restricted to %d pieces:" % (p, ints(D), ints(R), e)
        new, alt = hg.hierarchy_to_optimal_energy_cut_hierarchy(t, np.array(D, dtype="float64"), np.array(R, dtype="float64"), e)
        pts = sorted(set(sc) | {F(0)})
        for x in [(a + b) / 2 for a, b in zip(pts, pts[1:])] + [pts[-1] + 1]:
            ctx.op()
            want = frozenset(frozenset(ls[i]) for i in range(n) if sc[i] <= x and (i == n - 1 or sc[p[i]] > x))
            got = blocks(ints(hg.labelisation_horizontal_cut_from_threshold(new, np.asarray(alt), float(x))))
            ctx.eq(sorted(map(sorted, got)), sorted(map(sorted, want)), what + " cut at scale %r" % float(x))


def sse(vals, region):
    """Sum of the squared distances to the mean, over channels."""
    n = len(region)
    out = F(0)
    for c in range(len(vals[0])):
        x = [F(vals[i][c]) for i in region]
        m = sum(x) / n
        out += sum((a - m) ** 2 for a in x)
    return out


def contour(edges, deg, region, size):
    return sum(deg[i] for i in region) - 2 * sum(1 for a, b in edges if a in region and b in region)


def mumford(case, ctx):
    h, w, img, channels = case
    n = h * w
    ctx.state(repr(case))
    g = hg.get_4_adjacency_graph((h, w))
    edges = edges_of(g)
    if channels == 0:
        vals = [(x,) for x in img]
        im = np.array(img, dtype=("float64", "uint8", "int32")[sum(img) % 3]).reshape((h, w) if sum(img) % 2 else (n,))
    else:
        vals = [(x, (x * 2 + i) % 3) for i, x in enumerate(img)]
        im = np.array(vals, dtype="float64").reshape((h, w, 2))
    wts = np.array([abs(vals[a][0] - vals[b][0]) for a, b in edges])
    border = [4] * n        # each pixel is a unit square
    for tree, _ in (hg.bpt_canonical(g, wts)[:2], hg.quasi_flat_zone_hierarchy(g, wts)):
        p = ints(tree.parents())
        ls = [frozenset(s) for s in gen.leaf_sets(p)]
        D = [sse(vals, s) for s in ls]
        R = [F(contour(edges, border, s, (h, w))) for s in ls]
        what = "image %r of %dx%d, tree %r:" % (vals, h, w, p)
        ctx.op(3)
        for gamma in (0, 0.5, 3):
            e = hg.attribute_piecewise_constant_Mumford_Shah_energy(tree, im, gamma)
            ctx.eq(np.asarray(e), np.array([float(d) + gamma * float(r) for d, r in zip(D, R)]), what + " energy, gamma %r" % gamma)
        new, alt = hg.hierarchy_to_optimal_MumfordShah_energy_cut_hierarchy(tree, im)
        check_scale_set(ctx, p, D, R, new, alt, what)
        ctx.ok(hg.CptHierarchy.get_leaf_graph(new) is g, what + " leaf graph")


def bpt(case, ctx):
    n, edges, vals, opt = case
    edges = [tuple(e) for e in edges]
    ctx.state(repr(case))
    g = mk_graph(n, edges)
    vals = [tuple(v) for v in vals]
    ch = len(vals[0])
    V = np.array([v[0] for v in vals], dtype="float64") if ch == 1 else np.array(vals, dtype="float64")
    kw = {}
    area, sq = [1] * n, [[F(x) * F(x) for x in v] for v in vals]
    length = [1] * len(edges)
    if opt:
        area = [1 + (i + opt) % 3 for i in range(n)]
        sq = [[F(x) * F(x) / a + (i * opt) % 2 for x in v] for i, (v, a) in enumerate(zip(vals, area))]
        length = [1 + (i * opt) % 3 for i in range(len(edges))]
        kw = dict(vertex_area=np.array(area, dtype="float64"), edge_length=np.array(length, dtype="float64"),
                  squared_vertex_values=np.array([[float(x) for x in s] for s in sq]) if ch > 1 else np.array([float(s[0]) for s in sq]))
    deg = [sum(l for l, e in zip(length, edges) if v in e) + (opt % 2) for v in range(n)]
    if opt:
        kw["vertex_perimeter"] = np.array(deg, dtype="float64")
    what = "Mumford-Shah tree of %d vertices, edges %r, values %r, option %d:" % (n, edges, vals, opt)
    ctx.op()
    tree, alt = hg.binary_partition_tree_MumfordShah_energy(g, V, **kw)
    p = ints(tree.parents())
    alt = np.asarray(alt).tolist()
    ctx.eq(len(p), 2 * n - 1, what + " number of nodes")
    ls = [frozenset(s) for s in gen.leaf_sets(p)]

    def line(s):
        a = sum(area[i] for i in s)
        d = sum(sum(sq[i][c] for i in s) - F(sum(F(vals[i][c]) for i in s)) ** 2 / a for c in range(ch))
        r = sum(deg[i] for i in s) - 2 * sum(l for l, (x, y) in zip(length, edges) if x in s and y in s)
        return d, F(r)
    lines = [line(s) for s in ls]
    cuts = [sorted({(sum(lines[j][0] for j in c), sum(lines[j][1] for j in c)) for c in cs}) for cs in cuts_of(p)]

    def scale(i, j):
        d, r = line(ls[i] | ls[j])
        return max([F(0)] + [(d - a - b) / (x + y - r) for a, x in cuts[i] for b, y in cuts[j]])
    kids = gen.children(p)
    alive = set(range(n))
    for m in range(n, 2 * n - 1):
        adj = {}
        for i, j in itertools.combinations(sorted(alive), 2):
            if any((a in ls[i] and b in ls[j]) or (a in ls[j] and b in ls[i]) for a, b in edges):
                adj[(i, j)] = scale(i, j)
        pair = tuple(sorted(kids[m]))
        ctx.ok(pair in adj, what + " node %d merges %r which are not two adjacent regions" % (m, pair))
        ctx.eq(alt[m], float(adj[pair]), what + " scale of node %d merging %r" % (m, pair))
        ctx.ok(adj[pair] <= min(adj.values()) + F(1, 10 ** 9), what + " node %d merges %r of scale %r, the smallest is %r" % (m, pair, float(adj[pair]), float(min(adj.values()))))
        alive -= set(pair)
        alive.add(m)
    ctx.eq(alt[:n], [0.0] * n, what + " altitudes of the leaves")
    ctx.outcome(tuple(p))


def groups(tier):
    deep = tier != "quick"

    def oc():
        for n in range(1, 7 if deep else 6):
            for p in gen.trees_exact(n):
                yield [p, [0, 1, 3] if n < 6 else [0, 2]]
                if n < 5:
                    yield [p, [-2, 0, 1, 4]]
        for p in gen.hierarchies(4):
            yield [p, [1, 2]]

    def ss():
        for n in range(1, 5):
            for p in gen.trees_exact(n):
                yield [p, [0, 1, 3], [1, 2] if n > 3 and not deep else [0, 1, 2], 0]
        for n in (5, 6):
            for k, p in enumerate(gen.trees_exact(n)):
                if n == 5 or not any(len(c) == 1 for c in gen.children(p)):
                    yield [p, [0, 1, 4], [1, 2, 3] if n == 5 else [1, 2], k, (17 if deep else 301) if n == 5 else (61 if deep else 1511)]

    def lss():
        for q in range(400 if deep else 60):
            L = 4 + q % 9
            yield [gen.scattered_tree(2 * L - 1 - q % 3, L, q), q]
        for q in range(4):
            yield [gen.caterpillar_tree(14), q]
            yield [gen.balanced_tree(16), q]

    def pc():
        for L in range(2, 5 if deep else 4):
            for b in gen.hierarchies(L):
                for k in (1, 2, 3):
                    for q in range(200 if deep else 25):
                        yield [b, k, q]
        for b in (gen.caterpillar_tree(5), gen.caterpillar_tree(6), gen.balanced_tree(8)):
            for k in (1, 2):
                for q in range(200 if deep else 25):
                    yield [b, k, q]

    def ms():
        for h, w in ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2)):
            for img in itertools.product((0, 1, 4), repeat=h * w):
                yield [h, w, img, 0]
                if h * w < 4 or deep or sum(img) % 5 == 0:
                    yield [h, w, img, 1]
        for k, img in enumerate(itertools.product((0, 1, 4), repeat=6)):
            if k % (3 if deep else 40) == 0:
                yield [2, 3, img, k % 2]

    def mb():
        k = 0
        for n in range(1, 5):
            for es in gen.simple_graphs(n):
                if not gen.connected(n, es):
                    continue
                for v in itertools.product((0, 1, 5), repeat=n):
                    k += 1
                    for opt in ((0, 1, 2) if n < 4 or deep else (k % 3,)):
                        yield [n, es, [[x] for x in v] if (k + opt) % 3 else [[x, (x + i) % 4] for i, x in enumerate(v)], opt]
        for k, v in enumerate(itertools.product((0, 1, 5), repeat=6)):
            if k % (4 if deep else 31) == 0:
                yield [6, gen.grid_edges(2, 3), [[x] for x in v] if k % 2 else [[x, (2 * x + i) % 5] for i, x in enumerate(v)], k % 5]
        for q in range(300 if deep else 30):
            r = gen.lcg(q)
            yield [8, gen.grid_edges(2, 4), [[next(r) % 10] for _ in range(8)], q % 4]
    return [Group("optimal cut", oc, optimal_cut, "all trees of at most %d nodes (and hierarchies of 4 leaves), all energies in a set of 2 to 4 values" % (6 if deep else 5)),
            Group("scale sets", ss, scale_set, "all trees of at most 4 nodes with all energies in {0,1,3} and {1,2} (thorough {0,1,2}); trees of 5 and 6 nodes with a fixed stride over the energies"),
            Group("larger scale sets", lss, large_scale_set, "%d trees of 7 to 31 nodes" % (408 if deep else 68)),
            Group("pieces", pc, pieces, "one to three copies of all hierarchies of at most %d leaves and of larger trees, %d energies each, at the exact number of pieces" % (4 if deep else 3, 200 if deep else 25)),
            Group("Mumford-Shah", ms, mumford, "all images of at most 2x2 pixels with 3 values, 2x3 images with a fixed stride, one or two bands"),
            Group("Mumford-Shah trees", mb, bpt, "all connected graphs of at most 4 vertices with all values among 3, 2x3 and 2x4 grids with a fixed stride")]
