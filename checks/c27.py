"""C27: All small weighted graphs, vertex values, hierarchies with altitudes, relevance masks, size and strength thresholds, marker pairs and outcomes of the random choices through the filters,
constrained connectivity hierarchies, marker labelling, leaf reconstruction and random trees, against quasi-flat zones of explicitly enumerated regions."""
import itertools
import random
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints, edges_of, tree_regions

ID = "C27"
ASSUMPTIONS = ["Constrained connectivity: connected graphs without self loops, nonnegative edge weights.",
               "A region of the quasi-flat zones is kept when its range is strictly below the level of the next region (the definition the library's own tests pin down); leaves and root are always kept.",
               "Filters: nonnegative increasing altitudes; the choice of a minimum spanning tree among equal weights is that of the given tree."]
TYPES = ("float64", "int32", "uint8", "int8", "float32", "uint64", "int64", "uint16")
# increasing values using the extremes of each type (differences stay exact in double precision)
VALUES = {"int8": (-128, -1, 1, 127), "uint8": (0, 127, 129, 255), "int16": (-32768, -3, 0, 32767), "uint16": (0, 5, 40000, 65535),
          "int32": (-2 ** 31, 0, 7, 2 ** 31 - 1), "float32": (-0.5, 0.25, 3.0, 1024.0)}


def zones(n, edges, w):
    """Quasi-flat zones: {region: level} of the regions of two vertices or more, by the definition."""
    out = {}
    for k in sorted(set(w)):
        lab = gen.components(n, [e for e, x in zip(edges, w) if x <= k])
        for c in set(lab):
            r = frozenset(v for v in range(n) if lab[v] == c)
            if len(r) > 1:
                out.setdefault(r, k)
    return out


def constrained(n, q, rng):
    full = frozenset(range(n))
    out = {}
    for r, a in q.items():
        x = rng(r)
        above = [q[s] for s in q if r < s]
        if r == full:
            out[r] = a
        elif x < min(above):
            out[r] = max(a, x)
    return out


def hierarchy(tree, alt, n, what, ctx):
    """{region: altitude} of the inner nodes; checks the shape of the result."""
    p = ints(tree.parents())
    ctx.eq(tree.num_leaves(), n, what + " leaves")
    ctx.eq(np.shape(alt), (len(p),), what + " altitudes")
    R = gen.leaf_sets(p)
    d = {}
    for i in range(n, len(p)):
        ctx.ok(frozenset(R[i]) not in d, what + " duplicated region %r" % (sorted(R[i]),))
        d[frozenset(R[i])] = float(alt[i])
    return d


def same_graph(ctx, tree, g, what):
    ctx.ok(hg.CptHierarchy.construct(tree)["leaf_graph"] is g, what + " leaf graph")


def alpha_omega(case, ctx):
    n, edges, shape, first, nv, k = case
    edges = [tuple(e) for e in edges]
    g = mk_graph(n, edges) if shape is None else hg.get_4_adjacency_graph(tuple(shape))
    if shape is not None:
        edges = edges_of(g)
    for j, rest in enumerate(itertools.product(range(nv), repeat=n - len(first))):
        v = tuple(first) + rest
        ctx.state((n, tuple(edges), v))
        dt = TYPES[(k + j) % len(TYPES)]
        if nv <= 4 and (k + j) % 3 == 0:
            dt = sorted(VALUES)[(k + j // 3) % len(VALUES)]
            vals = [VALUES[dt][x] for x in v]
        else:
            vals = list(v)
        a = np.array(vals, dtype=dt)
        a0 = a.copy()
        if shape is not None and j % 2:
            a = a.reshape(shape)
        what = "alpha-omega hierarchy of edges %r, values %r (%s):" % (edges, vals, dt)
        ctx.op()
        t, alt = hg.constrained_connectivity_hierarchy_alpha_omega(g, a)
        ctx.eq(a.ravel().tolist(), a0.tolist(), what + " vertex weights modified")
        got = hierarchy(t, alt, n, what, ctx)
        same_graph(ctx, t, g, what)
        ctx.eq(np.asarray(alt[:n]).tolist(), [0] * n, what + " altitudes of the leaves")
        want = constrained(n, zones(n, edges, [abs(vals[x] - vals[y]) for x, y in edges]), lambda r: max(vals[x] for x in r) - min(vals[x] for x in r))
        ctx.eq(dict((tuple(sorted(r)), x) for r, x in got.items()), dict((tuple(sorted(r)), float(x)) for r, x in want.items()), what + " regions")
        ctx.outcome(tuple(ints(t.parents())))


def strong(case, ctx):
    n, edges, nw, k = case
    edges = [tuple(e) for e in edges]
    g = mk_graph(n, edges)
    for j, w in enumerate(itertools.product(range(nw), repeat=len(edges))):
        ctx.state((n, tuple(edges), w))
        dt = TYPES[(k + j) % len(TYPES)]
        vals = [{0: 0, 1: 3, 2: 126, 3: 127}[x] for x in w] if (k + j) % 5 == 0 else list(w)
        W = np.array(vals, dtype=dt)
        what = "strongly constrained hierarchy of edges %r, weights %r (%s):" % (edges, vals, dt)
        ctx.op()
        t, alt = hg.constrained_connectivity_hierarchy_strong_connection(g, W)
        ctx.eq(W.tolist(), vals, what + " edge weights modified")
        got = hierarchy(t, alt, n, what, ctx)
        same_graph(ctx, t, g, what)
        want = constrained(n, zones(n, edges, vals), lambda r: max(x for (a, b), x in zip(edges, vals) if a in r and b in r))
        ctx.eq(dict((tuple(sorted(r)), x) for r, x in got.items()), dict((tuple(sorted(r)), float(x)) for r, x in want.items()), what + " regions")
        ctx.outcome(tuple(ints(t.parents())))


def definition(case, ctx):
    """The k-k-connected components of the documentation, on the image of the library's own test."""
    im = np.array(case, dtype=np.float64)
    g = hg.get_4_adjacency_graph(im.shape)
    ctx.op()
    ctx.state(str(case))
    t, alt = hg.constrained_connectivity_hierarchy_alpha_omega(g, im)
    v = im.ravel().tolist()
    q = zones(len(v), edges_of(g), [abs(v[a] - v[b]) for a, b in edges_of(g)])
    want = {}
    for k in sorted({max(a, max(v[x] for x in r) - min(v[x] for x in r)) for r, a in q.items()}):
        ok = [r for r, a in q.items() if a <= k and max(v[x] for x in r) - min(v[x] for x in r) <= k]
        for r in ok:
            if not any(r < s for s in ok):
                want.setdefault(r, k)
    R = tree_regions(t)
    got = {frozenset(R[i]): float(alt[i]) for i in range(len(v), len(R))}
    ctx.eq(dict((tuple(sorted(r)), x) for r, x in got.items()), dict((tuple(sorted(r)), x) for r, x in want.items()),
           "alpha-omega components of %r" % (case,), key="alpha-omega:image of the library's test")


def filters(case, ctx):
    n, edges, w, kind, k = case
    edges = [tuple(e) for e in edges]
    g = mk_graph(n, edges)
    dt = ("float64", "int32", "uint8", "float32")[k % 4]
    W = np.array([float(x) for x in w])
    ctx.state((n, tuple(edges), tuple(w), kind))

    def build():
        if kind == "bpt":
            return hg.bpt_canonical(g, W)
        if kind == "qfz":
            return hg.quasi_flat_zone_hierarchy(g, W)
        if kind == "watershed":
            return hg.watershed_hierarchy_by_area(g, W)
        return hg.binary_partition_tree_average_linkage(g, W)
    t, alt = build()
    if np.any(alt < 0) or np.any(alt > alt[t.parents()]):
        return
    p = ints(t.parents())
    ctx.eq(len(p) > n, True, "tree")
    alt = alt.astype(dt) if np.all(alt.astype(dt) == alt) else alt
    base = "filter of the %s hierarchy of edges %r, weights %r (%s)" % (kind, edges, list(w), alt.dtype)
    # the binary tree the filters work on
    if hg.CptBinaryHierarchy.validate(t):
        b, balt = t, alt
    else:
        b, balt = hg.bpt_canonical(g, hg.saliency(t, alt, g, handle_rag=False))
    bp = ints(b.parents())
    mst = hg.CptBinaryHierarchy.get_mst(b)
    medges = edges_of(mst)
    ctx.ok(len(medges) == n - 1 and all(0 <= x < n for e in medges for x in e), base + " spanning tree")
    BR = [frozenset(r) for r in gen.leaf_sets(bp)]
    for i, (x, y) in enumerate(medges):
        ctx.eq(gen.lca(bp, x, y), n + i, base + " node of edge %d of the spanning tree" % i)

    def expected(dead):
        mw = [0.0 if dead[n + i] else float(balt[n + i]) for i in range(n - 1)]
        return zones(n, medges, mw)

    def check(res, dead, canon, what):
        ft, falt = res
        got = hierarchy(ft, falt, n, what, ctx)
        want = expected(dead)
        if canon:
            ctx.eq(dict((tuple(sorted(r)), x) for r, x in got.items()), dict((tuple(sorted(r)), x) for r, x in want.items()), what)
        else:
            ctx.eq(ft.num_vertices(), 2 * n - 1, what + " binary")
            ctx.ok(hg.CptBinaryHierarchy.validate(ft), what + " not a binary hierarchy")
            q = ints(ft.parents())
            c = gen.children(q)
            ctx.ok(all(len(c[i]) == 2 for i in range(n, len(q))), what + " arity")
            top = {r: x for r, x in got.items()}
            # regions strictly below their parent are the quasi-flat zones, the others are inside one at the same level
            R = [frozenset(r) for r in gen.leaf_sets(q)]
            kept = {R[i]: float(falt[i]) for i in range(n, len(q)) if i == len(q) - 1 or falt[i] != falt[q[i]]}
            ctx.eq(dict((tuple(sorted(r)), x) for r, x in kept.items()), dict((tuple(sorted(r)), x) for r, x in want.items()), what + " levels %r" % (top,))
        for r in got:
            ctx.ok(any(r == s for s in BR) or gen.connected(len(r), [(sorted(r).index(x), sorted(r).index(y)) for x, y in medges if x in r and y in r]), what + " region %r" % (sorted(r),))
        ctx.ok(np.all(falt[:n] == 0), what + " leaves")
        ctx.outcome(tuple(ints(ft.parents())))

    nb = len(bp)
    leaves = [False] * n
    for j, m in enumerate(itertools.product((False, True), repeat=nb - n)):
        mask = (leaves if j % 2 else [True] * n) + list(m)
        given = (np.array(mask), np.array(mask, dtype=np.int32), np.array(mask, dtype=np.float64), list(mask), np.array(mask, dtype=np.uint8) * 2)[(j + k) % 5]
        seen = []

        def f(tr, al):
            seen.append((ints(tr.parents()), np.array(al)))
            return given
        for canon in (True, False):
            a0 = alt.copy()
            a0.flags.writeable = True
            ctx.op()
            r = hg.filter_non_relevant_node_from_tree(t, a0, f, canonize_tree=canon)
            what = "%s, deleted %r (canonize %s):" % (base, [n + i for i in range(nb - n) if m[i]], canon)
            ctx.ok(np.array_equal(a0, alt), what + " altitudes modified")
            ctx.eq(ints(t.parents()), p, what + " tree modified")
            ctx.ok(seen[-1][0] == bp and np.array_equal(seen[-1][1], balt), what + " the criterion was not given the binary tree")
            check(r, mask, canon, what)
    # size
    area = [len(r) for r in BR]
    ch = gen.children(bp)
    for s in range(0, n + 2):
        dead = [False] * n + [min(area[c] for c in ch[i]) < s for i in range(n, nb)]
        for canon in (True, False):
            a0 = alt.copy()
            ctx.op()
            r = hg.filter_small_nodes_from_tree(t, a0, s, canonize_tree=canon)
            what = "%s of size %d (canonize %s):" % (base, s, canon)
            ctx.ok(np.array_equal(a0, alt), what + " altitudes modified")
            check(r, dead, canon, what)
            if canon and kind in ("bpt", "qfz", "avg"):
                # no positive level separates a region smaller than the threshold
                got = hierarchy(r[0], r[1], n, what, ctx)
                par = ints(r[0].parents())
                R = gen.leaf_sets(par)
                for i in range(len(par) - 1):
                    if r[1][par[i]] > 0 and len(R[i]) < s:
                        raise Violation(what + " region %r has a contour" % (sorted(R[i]),))
    # strength of the frontiers
    strength = []
    ew = [float(x) for x in range(1, len(edges) + 1)] if k % 2 else [float(x) for x in w]
    for i in range(n, nb):
        x, y = BR[ch[i][0]], BR[ch[i][1]]
        cross = [z for (a, c), z in zip(edges, ew) if (a in x and c in y) or (a in y and c in x)]
        strength.append(sum(cross) / len(cross))
    for s in sorted(set(strength)) + [max(strength) + 1, -1, min(strength) + 0.5]:
        dead = [False] * n + [x < s for x in strength]
        if any(abs(x - s) < 1e-9 and x != s for x in strength):
            continue
        for canon in (True, False):
            a0 = alt.copy()
            e0 = np.array(ew)
            ctx.op()
            r = hg.filter_weak_frontier_nodes_from_tree(t, a0, e0, s, canonize_tree=canon)
            what = "%s of strength %r, edge weights %r (canonize %s):" % (base, s, ew, canon)
            ctx.ok(np.array_equal(a0, alt) and e0.tolist() == ew, what + " arguments modified")
            check(r, dead, canon, what)


def markers(case, ctx):
    p, k = case
    n = len(p)
    R = [frozenset(r) for r in gen.leaf_sets(p)]
    L = len(R[-1])
    t = mk_tree(p, "pc"[k % 2])
    g = mk_graph(L, [(i, i + 1) for i in range(L - 1)])
    if k % 3:
        hg.CptHierarchy.link(t, g)
    shape = (L,)
    if k % 3 == 2 and L % 2 == 0:
        shape = (2, L // 2)
        hg.CptGridGraph.link(g, shape)
    dts = (("bool", "bool"), ("uint8", "int32"), ("float64", "float32"), ("int8", "uint64"), ("bool", "float64"), ("int16", "uint16"))
    for j, (o, b) in enumerate(itertools.product(itertools.product((0, 1), repeat=L), repeat=2)):
        ctx.state((p, o, b))
        do, db = dts[(j + k) % len(dts)]
        scale = lambda d: 1 if d == "bool" else (-7 if d.startswith("int") else 0.5 if d.startswith("float") else 200)
        ao = (np.array(o) * scale(do)).astype(do).reshape(shape)
        ab = (np.array(b) * scale(db)).astype(db).reshape(shape)
        o0, b0 = ao.copy(), ab.copy()
        what = "markers %r (%s) and %r (%s) on %r:" % (o, do, b, db, p)
        ctx.op()
        r = hg.binary_labelisation_from_markers(t, ao, ab)
        so, sb = {i for i in range(L) if o[i]}, {i for i in range(L) if b[i]}
        res = set().union(*[x for x in R if x & so and not x & sb])
        ctx.eq(r.shape, shape, what + " shape")
        ctx.eq([bool(x) for x in r.ravel()], [i in res for i in range(L)], what)
        ctx.ok(set(ints(r)) <= {0, 1}, what + " labels %r" % (ints(r),))
        ctx.ok(np.array_equal(ao, o0) and np.array_equal(ab, b0), what + " markers modified")
        ctx.outcome(tuple(ints(r)))


def leafdata(case, ctx):
    p, k = case
    n = len(p)
    R = gen.leaf_sets(p)
    L = len(R[-1])
    cat = "pc"[k % 2]
    t = mk_tree(p, cat)
    g = mk_graph(L, [(i, i + 1) for i in range(L - 1)])
    link = (k // 2) % 3
    if link:
        hg.CptHierarchy.link(t, g)
    shape = (L,)
    if link == 2 and L % 2 == 0:
        shape = (L // 2, 2)
        hg.CptGridGraph.link(g, shape)
    for j, dead in enumerate(itertools.chain([None], itertools.product((False, True), repeat=n))):
        ctx.state((p, cat, dead))
        dt = TYPES[(j + k) % len(TYPES)]
        lo, hi = (np.iinfo(dt).min, np.iinfo(dt).max) if dt[0] in "iu" else (-1e30, 1e30)
        dims = ((), (2,), (2, 1), (1, 3))[(j // 2) % 4]
        a = np.array([(lo if i % 3 == 0 else hi if i % 3 == 1 else 5) if j % 5 == 0 else i for i in range(n)], dtype=dt)
        a = np.ascontiguousarray(np.broadcast_to(a.reshape((n,) + (1,) * len(dims)), (n,) + dims)).copy()
        for x in range(int(np.prod(dims)) if dims else 0):
            a.reshape(n, -1)[:, x] = np.roll(a.reshape(n, -1)[:, 0], x) if x else a.reshape(n, -1)[:, 0]
        d = None if dead is None else np.array(dead, dtype=("bool", "uint8", "int32", "float64")[j % 4])
        a0, d0 = a.copy(), None if d is None else d.copy()
        what = "leaf data of %r (%s), altitudes %s %s, deleted %r:" % (p, cat, dt, dims, dead)
        ctx.op()
        r = hg.reconstruct_leaf_data(t, a, d)
        want = []
        for i in range(L):
            x = i
            while x != n - 1 and ((dead is not None and dead[x]) or (cat == "c" and x < L)):
                x = p[x]
            want.append(a0[x])
        want = np.array(want).reshape(shape + dims)
        ctx.eq(r.shape, want.shape, what + " shape")
        ctx.eq(r.dtype, a.dtype, what + " dtype")
        ctx.ok(np.array_equal(r, want), "%s got %r, expected %r" % (what, r.tolist(), want.tolist()))
        ctx.ok(np.array_equal(a, a0) and (d is None or np.array_equal(d, d0)), what + " arguments modified")


class Script:
    """Replaces the random generator by a script of choices; choices after its end are the first ones."""

    def __init__(self, choices):
        self.choices, self.i, self.sizes = choices, 0, []

    def pick(self, options):
        self.sizes.append(len(options))
        c = self.choices[self.i] if self.i < len(self.choices) else 0
        self.i += 1
        return options[c]

    def randint(self, a, b):
        return self.pick(range(a, b + 1))

    def random(self):
        return self.pick((0.0, 0.25, 0.5, 0.999999))


def random_trees(case, ctx):
    n, proba = case
    stack = [()]
    while stack:
        ch = stack.pop()
        s = Script(ch)
        ri, rr = random.randint, random.random
        random.randint, random.random = s.randint, s.random
        try:
            ctx.op()
            what = "random tree of %d leaves, asymmetry %r, choices %r:" % (n, proba, ch)
            t, alt = hg.random_binary_partition_tree(n, proba)
        finally:
            random.randint, random.random = ri, rr
        for i in range(len(ch), len(s.sizes)):
            for c in range(1, s.sizes[i]):
                stack.append(ch + (0,) * (i - len(ch)) + (c,))
        ctx.state((n, proba, ch))
        p = ints(t.parents())
        ctx.eq(len(p), 2 * n - 1, what + " nodes")
        ctx.eq(t.num_leaves(), n, what + " leaves")
        c = gen.children(p)
        ctx.ok(all(len(c[i]) == 2 for i in range(n, len(p))), what + " arity")
        d = gen.depth(p)
        # regular altitudes: 0 on the leaves, 1 at the root, decreasing with the depth
        m = max(d)
        ctx.eq(np.asarray(alt).tolist(), hg.attribute_regular_altitudes(mk_tree(p)).tolist(), what + " altitudes")
        ctx.ok(n == 1 or (alt[-1] == 1 and all(alt[i] == 0 for i in range(n)) and all(abs(alt[i] - (1 - d[i] / m)) < 1e-6 for i in range(n, len(p)))), what + " altitudes %r" % (np.asarray(alt).tolist(),))
        ctx.ok(hg.CptBinaryHierarchy.validate(t), what + " not a binary hierarchy")
        mst = hg.CptBinaryHierarchy.get_mst(t)
        me = edges_of(mst)
        ctx.eq(len(me), n - 1, what + " edges of the spanning tree")
        for i, (x, y) in enumerate(me):
            ctx.eq(gen.lca(p, x, y), n + i, what + " edge %d" % i)
        if n > 1:
            t2, a2 = hg.bpt_canonical(mst, np.asarray(alt[n:]))
            h1, h2 = hg.canonize_hierarchy(t, alt), hg.canonize_hierarchy(t2, a2)
            ctx.ok(hierarchy(*h1, n, what, ctx) == hierarchy(*h2, n, what, ctx), what + " spanning tree does not represent the hierarchy")
        ctx.outcome(tuple(p))


def groups(tier):
    T = tier == "thorough"

    def g_ao():
        k = 0
        for n in range(1, 5):
            for m in range(n - 1, 5 if n == 4 else 4):
                for e in gen.connected_multigraphs(n, m, loops=False, mmin=m):
                    k += 1
                    yield n, list(e), None, [], 4, k
        for n in (5, 6) if T else (5,):
            yield n, [(i, i + 1) for i in range(n - 1)], None, [], 4, n
            yield n, [(i, (i + 1) % n) for i in range(n)], None, [], 4 if T else 3, n
        for sh, nv in (((2, 2), 5), ((2, 3), 4), ((3, 3), 3)) if T else (((2, 2), 4), ((2, 3), 3)):
            L = sh[0] * sh[1]
            for f in itertools.product(range(nv), repeat=2):
                k += 1
                yield L, [], sh, list(f), nv, k

    def g_st():
        k = 0
        for n, mm in ((1, 0), (2, 3), (3, 4), (4, 5 if T else 4)):
            for e in gen.connected_multigraphs(n, mm, loops=False, mmin=n - 1):
                k += 1
                yield n, list(e), 4 if len(e) < 5 else 3, k
        if T:
            for e in gen.connected_multigraphs(5, 5, loops=False, mmin=4):
                k += 1
                yield 5, list(e), 3 if len(e) < 5 else 2, k

    def g_filter():
        k = 0
        for n in (2, 3, 4):
            for e in gen.connected_multigraphs(n, {2: 2, 3: 4, 4: 5 if T else 4}[n], loops=False, mmin=n - 1):
                for w in gen.weak_orders(len(e)) if len(e) < (5 if T else 4) else itertools.product((0, 1), repeat=len(e)):
                    for kind in ("bpt", "qfz", "watershed", "avg"):
                        k += 1
                        if not T and n == 4 and (k + k // 4) % 4:
                            continue
                        yield n, list(e), [x + (k // 4) % 2 for x in w], kind, k
        if T:
            for e in gen.connected_multigraphs(5, 5, loops=False, mmin=4):
                k += 1
                for kind in ("bpt", "qfz", "avg"):
                    yield 5, list(e), [(3 * i + k) % 4 for i in range(len(e))], kind, k
        for e in ([(0, 1), (1, 2), (2, 3), (3, 4)], [(0, 1), (0, 2), (0, 3), (3, 4)], [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)]):
            for w in itertools.product((0, 1, 2), repeat=len(e)):
                k += 1
                yield 5, e, list(w), ("bpt", "qfz")[k % 2], k

    def g_trees(nmax, reps):
        for p in gen.trees(nmax):
            for k in range(reps):
                yield p, k
        for L in (4, 5):
            for i, p in enumerate(gen.hierarchies(L)):
                if len(p) > nmax:
                    yield p, i

    def g_random():
        for n in range(1, 6 if T else 5):
            for q in (0, 0.3, 0.5, 1):
                yield n, q

    return [Group("alpha-omega", g_ao, alpha_omega, "connected loopless multigraphs of up to 4 vertices and 4 edges, all values among 4; chains, cycles and grids up to 2x3 (3x3 thorough)"),
            Group("strong", g_st, strong, "connected loopless multigraphs of up to 4 vertices and 5 edges, all weights among 4 or 3"),
            Group("definition", lambda: iter([[[1, 2, 3], [5, 6, 5], [22, 21, 20]]]), definition, "the image of the library's test"),
            Group("filters", g_filter, filters, "all weighted connected multigraphs up to 4 vertices, 4 kinds of hierarchies (one in turn for each graph with 4 vertices in the quick tier), all masks, all sizes, all strengths"),
            Group("markers", lambda: g_trees(6 if T else 5, 6), markers, "all trees up to 6 nodes and all hierarchies of 4 and 5 leaves, all pairs of markers"),
            Group("leaf data", lambda: g_trees(7 if T else 6, 6), leafdata, "all trees up to 7 nodes and hierarchies of 4, 5 leaves, all deletions"),
            Group("random trees", g_random, random_trees, "all outcomes of the random choices (4 values of each real draw) up to 5 leaves", limit=300)]
