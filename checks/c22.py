"""All small trees with all labellings of their leaves and all small weighted graphs, against the definitions of the quality measures over pairs
of leaves, pairs of regions, and all the cuts of the tree."""
import itertools
import math
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints, edges_of

ID = "C22"
ASSUMPTIONS = ["Dendrogram purity needs two leaves with the same label; the tree sampling divergence a graph without self loop with a positive sum of weights; candidate partitions are "
               "labelled without gap, ground truths with non negative labels (as documented).",
               "Optimal cuts are defined on binary trees, horizontal cuts are assessed on trees without nodes of a single child."]


def near(ctx, got, want, what, key=None):
    ctx.compared += 1
    g, w = np.asarray(got, dtype="float64"), np.asarray(want, dtype="float64")
    if g.shape != w.shape or not np.allclose(g, w, rtol=1e-6, atol=1e-6):
        raise Violation("%s: got %r, expected %r" % (what, g.tolist(), w.tolist()), key)


def purity(case, ctx):
    p = tuple(case[0])
    L = gen.num_leaves(p)
    ls = gen.leaf_sets(p)
    lc = {(a, b): gen.lca(p, a, b) for a in range(L) for b in range(a)}
    g = mk_graph(L, [])
    for k, lab in enumerate(map(tuple, case[1])):
        same = [(a, b) for a in range(L) for b in range(a) if lab[a] == lab[b]]
        if not same:
            continue
        ctx.state((p, lab))
        dt = ("int64", "int32", "uint8", "int16", "uint64")[k % 5] if min(lab) >= 0 else ("int64", "int16")[k % 2]
        want = sum(sum(1 for v in ls[lc[q]] if lab[v] == lab[q[0]]) / len(ls[lc[q]]) for q in same) / len(same)
        t = mk_tree(p)
        ctx.op()
        got = hg.dendrogram_purity(t, np.array(lab, dtype=dt))
        near(ctx, got, want, "tree %r, labels %r (%s): dendrogram purity" % (p, lab, dt))
        ctx.outcome(round(float(got), 9))
    t = mk_tree(p)
    for bad in (np.zeros(L + 1, dtype="int64"), np.zeros((L, 1), dtype="int64"), np.zeros(L)):
        ctx.raises(lambda: hg.dendrogram_purity(t, bad), "labels of shape %r and type %s for %d leaves" % (bad.shape, bad.dtype, L))


def costs(case, ctx):
    L, edges, p, k = case[0], [tuple(e) for e in case[1]], tuple(case[2]), case[3]
    ctx.state((L, tuple(edges), p))
    n = len(p)
    ls, ch = gen.leaf_sets(p), gen.children(p)
    g = mk_graph(L, edges)
    r = gen.lcg(k)
    w = [(0, 1, 2, 5, 0.5)[next(r) % 5] for _ in edges]
    dt = ("float64", "float32", "int64", "uint8")[k % 4]
    if dt == "int64":
        w = [int(2 * x) for x in w]
    elif dt == "uint8":
        w = [int(50 * x) for x in w]
    W = np.array(w, dtype=dt)
    lc = [gen.lca(p, a, b) for a, b in edges]
    t = mk_tree(p)
    hg.CptHierarchy.link(t, g)
    what = "tree %r, graph %r, weights %r (%s):" % (p, edges, w, dt)
    ctx.op(5)
    near(ctx, hg.dasgupta_cost(t, W, mode="similarity"), sum(len(ls[i]) * x for i, x in zip(lc, w)), what + " Dasgupta cost (similarity)")
    W1 = np.array([x + 1 for x in w], dtype=dt)
    near(ctx, hg.dasgupta_cost(t, W1), sum(len(ls[i]) / (x + 1) for i, x in zip(lc, w)), what + " Dasgupta cost of the weights plus one (dissimilarity)")
    ctx.raises(lambda: hg.dasgupta_cost(t, W1, mode="foo"), what + " unknown mode")
    Z = sum(w)
    if Z > 0:
        pe = [sum(x for i, x in zip(lc, w) if i == j) / Z for j in range(n)]
        pv = [sum(x for e, x in zip(edges, w) if v in e) / Z for v in range(L)]
        pn = [sum(pv[v] for v in s) for s in ls]
        pq = [sum(pn[a] * pn[b] for a, b in itertools.combinations(ch[j], 2)) for j in range(n)]
        near(ctx, hg.attribute_tree_sampling_probability(t, g, W, "edge"), pe, what + " sampling probability (edge)")
        near(ctx, hg.attribute_tree_sampling_probability(t, g, W, "null"), pq, what + " sampling probability (null)")
        near(ctx, hg.tree_sampling_divergence(t, W), sum(a * math.log(a / b) for a, b in zip(pe, pq) if a > 0), what + " tree sampling divergence")
        ctx.raises(lambda: hg.attribute_tree_sampling_probability(t, g, W, "none"), what + " unknown model")
    ctx.outcome(tuple(lc))


def score(measure, cand, gts):
    """cand: list of sets; gts: list of sets."""
    N = sum(map(len, cand))
    if measure == "BCE":
        return sum(len(r & g) * min(len(r & g) / len(r), len(r & g) / len(g)) for r in cand for g in gts) / N
    if measure == "DHamming":
        return sum(max(len(r & g) for g in gts) for r in cand) / N
    return sum(len(r) * max(len(r & g) / len(r | g) for g in gts) for r in cand) / N


def blocks(lab):
    d = {}
    for i, x in enumerate(lab):
        d.setdefault(x, set()).add(i)
    return list(d.values())


MEASURES = ("BCE", "DHamming", "DCovering")


def partitions(case, ctx):
    cand, gts, k = tuple(case[0]), [tuple(g) for g in case[1]], case[2]
    ctx.state((cand, tuple(gts)))
    dt = ("int64", "uint8", "int32", "uint16", "int8")[k % 5]
    a = np.array(cand, dtype=dt)
    b = np.array(gts, dtype=dt) if len(gts) > 1 or k % 2 else np.array(gts[0], dtype=dt)
    N = len(cand)
    if k % 3 == 0 and N % 2 == 0:
        a = a.reshape(2, N // 2)
        b = b.reshape(b.shape[:-1] + (2, N // 2))
    for m in MEASURES:
        ctx.op()
        got = hg.assess_partition(a, b, getattr(hg.PartitionMeasure, m))
        want = sum(score(m, blocks(cand), blocks(g)) for g in gts) / len(gts)
        near(ctx, got, want, "candidate %r, ground truths %r (%s): %s" % (cand, gts, dt, m))
        ctx.outcome(round(got, 9))


def cuts(p):
    ch = gen.children(p)
    out = []
    for i in range(len(p)):
        c = [(i,)]
        if ch[i]:
            c += [tuple(itertools.chain(*x)) for x in itertools.product(*[out[j] for j in ch[i]])]
        out.append(c)
    return out[-1]


def regions(cut, ls, vm):
    return [{v for v in range(len(vm)) if vm[v] in ls[i]} for i in cut]


def fragmentation(case, ctx):
    """Optimal cuts of binary trees, on pixels or on regions (vertex map)."""
    p, vm, gt, mr = tuple(case[0]), case[1], tuple(case[2]), case[3]
    L = gen.num_leaves(p)
    rag = vm is not None
    vm = vm or list(range(L))
    N = len(vm)
    ctx.state((p, tuple(vm), gt, mr))
    ls = gen.leaf_sets(p)
    allc = [c for c in cuts(p)]
    k = sum(gt) + len(p) + sum(p)
    G = np.array(gt, dtype=("int64", "int32", "uint8", "int16")[k % 4])
    t = mk_tree(p)
    if rag:
        g = mk_graph(L, [])
        hg.CptRegionAdjacencyGraph.link(g, mk_graph(N, []), np.array(vm, dtype="int64"), np.zeros(0, dtype="int64"))
        hg.CptHierarchy.link(t, g)
    top = min(mr or 200, L)
    for m in MEASURES:
        what = "tree %r%s, ground truth %r, %s, at most %r regions:" % (p, " on regions %r" % vm if rag else "", gt, m, mr)
        best = {}
        for c in allc:
            s = score(m, regions(c, ls, vm), blocks(gt)) * N
            best[len(c)] = max(best.get(len(c), -1), s)
        ctx.op(4)
        kw = {} if mr is None else {"max_regions": mr}
        a = hg.make_assesser_fragmentation_optimal_cut(t, G, getattr(hg.OptimalCutMeasure, m), **kw)
        f = a.fragmentation_curve() if k % 2 else hg.assess_fragmentation_optimal_cut(t, G, getattr(hg.OptimalCutMeasure, m), **kw)
        ctx.eq(ints(f.num_regions()), list(range(1, top + 1)), what + " numbers of regions")
        near(ctx, np.asarray(f.scores()) * L, [best[i] for i in range(1, top + 1)], what + " scores of the optimal cuts times the number of leaves")
        ctx.eq(int(f.num_regions_ground_truth()), len(set(gt)), what + " number of regions of the ground truth")
        near(ctx, f.num_regions_normalized(), [i / len(set(gt)) for i in range(1, top + 1)], what + " normalized number of regions")
        bs = max(best[i] for i in range(1, top + 1))
        near(ctx, a.optimal_score() * L, bs, what + " optimal score times the number of leaves")
        nb = a.optimal_number_of_regions()
        ctx.ok(1 <= nb <= top and abs(best[nb] - bs) < 1e-9, what + " optimal number of regions %d" % nb)
        for q in range(top + 1):
            part = ints(a.optimal_partition(q)) if q else ints(a.optimal_partition())
            reg = blocks(part)
            cut = [i for i in range(len(p)) if set(ls[i]) in reg and (p[i] == i or ls[p[i]] not in reg)]
            ctx.eq(len(reg), q or nb, what + " regions of the optimal partition %r" % part)
            ctx.ok(all(any(set(ls[i]) == b for i in range(len(p))) for b in reg), what + " the partition %r is not a cut" % part)
            near(ctx, score(m, regions(cut, ls, vm), blocks(gt)) * N, best[q or nb], what + " score of the optimal partition in %d regions %r" % (q, part))
        ctx.raises(lambda: a.optimal_partition(top + 1), what + " optimal partition in %d regions" % (top + 1))
        ctx.outcome(tuple(np.round(f.scores(), 9).tolist()))
    ctx.raises(lambda: hg.make_assesser_fragmentation_optimal_cut(t, G, hg.OptimalCutMeasure.BCE, max_regions=0), "no region")
    ctx.raises(lambda: hg.make_assesser_fragmentation_optimal_cut(t, np.append(G, 0), hg.OptimalCutMeasure.BCE), "ground truth of wrong size")


def larger_cuts(case, ctx):
    """Optimal cuts of larger binary trees: the best cut of each size is found by dynamic programming on the tree (the scores are sums over the regions)."""
    p, vm, gt, mr = tuple(case[0]), case[1], tuple(case[2]), case[3]
    L, n = gen.num_leaves(p), len(p)
    rag = vm is not None
    vm = vm or list(range(L))
    N = len(vm)
    ctx.state((p, tuple(vm), gt, mr))
    px = [[] for _ in range(L)]
    for i, v in enumerate(vm):
        px[v].append(i)
    ls, ch = gen.leaf_sets(p), gen.children(p)
    rs = [{x for v in ls[i] for x in px[v]} for i in range(n)]
    G = np.array(gt, dtype="int64")
    t = mk_tree(p)
    if rag:
        g = mk_graph(L, [])
        hg.CptRegionAdjacencyGraph.link(g, mk_graph(N, []), np.array(vm, dtype="int64"), np.zeros(0, dtype="int64"))
        hg.CptHierarchy.link(t, g)
    top = min(mr or 200, L)
    gts = blocks(gt)
    for m in MEASURES:
        what = "binary tree of %d leaves (%r)%s, ground truth %r, %s, at most %r regions:" % (L, p, " on regions %r" % vm if rag else "", gt, m, mr)
        own = [score(m, [rs[i]], gts) * len(rs[i]) for i in range(n)]
        best = []
        for i in range(n):
            b = {1: own[i]}
            if ch[i]:
                x, y = (best[j] for j in ch[i])
                for a, u in x.items():
                    for c, v in y.items():
                        if a + c <= top and u + v > b.get(a + c, -1):
                            b[a + c] = u + v
            best.append(b)
        b = best[-1]
        ctx.op()
        a = hg.make_assesser_fragmentation_optimal_cut(t, G, getattr(hg.OptimalCutMeasure, m), **({} if mr is None else {"max_regions": mr}))
        f = a.fragmentation_curve()
        ctx.eq(ints(f.num_regions()), list(range(1, top + 1)), what + " numbers of regions")
        near(ctx, np.asarray(f.scores()) * L, [b[i] for i in range(1, top + 1)], what + " scores of the optimal cuts times the number of leaves")
        nb = a.optimal_number_of_regions()
        ctx.ok(1 <= nb <= top and abs(b[nb] - max(b.values())) < 1e-6, what + " optimal number of regions %d" % nb)
        name = {frozenset(x): i for i, x in reversed(list(enumerate(rs)))}
        for q in range(0, top + 1, 1 + top // 9):
            part = ints(a.optimal_partition(q)) if q else ints(a.optimal_partition())
            reg = [frozenset(x) for x in blocks(part)]
            ctx.eq(len(reg), q or nb, what + " number of regions of the optimal partition %r" % part)
            ctx.ok(all(x in name or frozenset(v for w in x for v in px[w]) in name for x in reg), what + " the partition %r is not a cut" % part)
            full = [x if len(part) == N else {v for w in x for v in px[w]} for x in reg]
            near(ctx, score(m, full, gts) * N, b[q or nb], what + " score of the optimal partition in %d regions %r" % (q, part))
        ctx.outcome(tuple(np.round(f.scores(), 9).tolist()))


def binary_tree(L, kind, q):
    """Binary trees of L leaves: a comb, a balanced tree, random merges."""
    r = gen.lcg(q)
    live, par = list(range(L)), [0] * (2 * L - 1)
    for i in range(L, 2 * L - 1):
        a = live.pop(0 if kind == 1 else next(r) % len(live))
        b = live.pop(0 if kind == 1 else -1 if kind == 0 else next(r) % len(live))
        par[a] = par[b] = i
        live.append(i)
    par[-1] = 2 * L - 2
    return par


def normalization(case, ctx):
    """Scores of optimal cuts are proportions of the pixels."""
    p, vm, gt = tuple(case[0]), case[1], case[2]
    t, g = mk_tree(p), mk_graph(gen.num_leaves(p), [])
    hg.CptRegionAdjacencyGraph.link(g, mk_graph(len(vm), []), np.array(vm, dtype="int64"), np.zeros(0, dtype="int64"))
    hg.CptHierarchy.link(t, g)
    ctx.op()
    ctx.state(p)
    f = hg.assess_fragmentation_optimal_cut(t, np.array(gt), hg.OptimalCutMeasure.DHamming)
    want = score("DHamming", [set(range(len(gt)))], blocks(gt))
    near(ctx, f.scores()[0], want, "tree %r on regions %r, ground truth %r: score of the single region" % (p, vm, gt), key="optimal cut:score on a region adjacency graph")


def horizontal(case, ctx):
    p, alt, vm, gt, mr = tuple(case[0]), tuple(case[1]), case[2], tuple(case[3]), case[4]
    L = gen.num_leaves(p)
    rag = vm is not None
    vm = vm or list(range(L))
    ctx.state((p, alt, tuple(vm), gt, mr))
    ls = gen.leaf_sets(p)
    n = len(p)
    levels = sorted({alt[i] for i in range(L, n)} - {0}, reverse=True)
    want = [(1, (n - 1,))]
    for a in levels:
        c = tuple(i for i in range(n) if (i == n - 1 and (alt[i] < a or n == L)) or (i != n - 1 and alt[p[i]] >= a and (alt[i] < a or i < L)))
        if len(c) > want[-1][0]:
            want.append((len(c), c))
    want = [x for x in want if x[0] <= min(200 if mr is None else mr, L)]
    t = mk_tree(p)
    if rag:
        g = mk_graph(L, [])
        hg.CptRegionAdjacencyGraph.link(g, mk_graph(len(vm), []), np.array(vm, dtype="int64"), np.zeros(0, dtype="int64"))
        hg.CptHierarchy.link(t, g)
    k = sum(gt) + sum(p)
    A = np.array(alt, dtype=("float64", "int32", "uint8", "float32")[k % 4])
    G = np.array(gt, dtype=("int32", "int64", "uint8")[k % 3])
    for m in MEASURES:
        ctx.op()
        f = hg.assess_fragmentation_horizontal_cut(t, A, G, getattr(hg.PartitionMeasure, m), **({} if mr is None else {"max_regions": mr}))
        what = "tree %r%s, altitudes %r, ground truth %r, %s, at most %r regions: horizontal cuts" % (p, " on regions %r" % vm if rag else "", alt, gt, m, mr)
        ctx.eq(ints(f.num_regions()), [c for c, _ in want], what + " numbers of regions")
        near(ctx, f.scores(), [score(m, regions(c, ls, vm), blocks(gt)) for _, c in want], what + " scores")
        ctx.eq(int(f.num_regions_ground_truth()), len(set(gt)), what + " number of regions of the ground truth")
        ctx.outcome(tuple(np.round(f.scores(), 9).tolist()))


def groups(tier):
    deep = tier != "quick"

    def pur():
        for L in range(1, 6 if deep else 5):
            for n in range(1, L + (4 if L < 4 else 3)):
                for p in gen.trees_exact(n):
                    if gen.num_leaves(p) == L:
                        yield [list(p), [list(x) for x in gen.set_partitions(L)] + [[3 * x - 2 for x in y] for y in gen.set_partitions(L)][::2]]
        for q in range(200 if deep else 30):
            r = gen.lcg(q)
            L = 5 + q % 6
            yield [list(gen.scattered_tree(L + 3 + q % 4, L, q)), [[next(r) % c for _ in range(L)] for c in (1, 2, 3, 4)]]

    def cst():
        k = 0
        for L in (1, 2, 3, 4):
            gs = list(gen.multigraphs(L, (0, 0, 3, 3, 3)[L], loops=False))
            ts = [p for n in range(1, L + (4 if L < 4 else 3)) for p in gen.trees_exact(n) if gen.num_leaves(p) == L]
            for i, es in enumerate(gs):
                for j, p in enumerate(ts):
                    if L == 4 and not deep and (i + j) % 8:
                        continue
                    k += 1
                    yield [L, es, list(p), k]
        for q in range(800 if deep else 80):
            r = gen.lcg(q)
            L = 5 + q % 5
            es = [(a, b) for a, b in ((next(r) % L, next(r) % L) for _ in range(3 * L)) if a != b]
            yield [L, es, list(gen.scattered_tree(L + 3 + q % 4, L, q)), q]

    def prt():
        k = 0
        for N in range(1, 6 if deep else 5):
            ps = [tuple(x) for x in gen.set_partitions(N)]
            for a in ps:
                for b in ps:
                    k += 1
                    yield [a, [b], k]
                    yield [a, [[2 * x + 1 for x in b], ps[(k * 7) % len(ps)]], k]
                    if k % 3 == 0:
                        yield [a, [b, ps[k % len(ps)], ps[(k * 5) % len(ps)]], k]
        for q in range(400 if deep else 60):
            r = gen.lcg(q)
            N = 6 + 2 * (q % 6)
            yield [gen.canon_labels([next(r) % 4 for _ in range(N)]), [[next(r) % (1 + q % 5) for _ in range(N)] for _ in range(1 + q % 3)], q]

    def maps(L, q):
        """Vertex maps on L regions."""
        r = gen.lcg(q)
        v = list(range(L)) + [next(r) % L for _ in range(1 + q % 3)]
        s = q % len(v)
        return v[s:] + v[:s]

    def frg():
        k = 0
        for L in range(1, 6):
            for p in gen.hierarchies(L, binary=True):
                for gt in gen.set_partitions(L):
                    k += 1
                    if L == 5 and not deep and k % 12:
                        continue
                    yield [list(p), None, [x * 2 + (k % 2) for x in gt] if k % 5 == 0 else list(gt), (None, None, 2, None, 3, 1)[k % 6]]
                    if k % 3 == 0 or deep:
                        v = maps(L, k)
                        r = gen.lcg(k)
                        yield [list(p), v, [next(r) % 3 for _ in v], (None, 2, None)[k % 3]]
        for q in range(150 if deep else 15):
            L = 6 + q % 3
            p = list(range(2 * L - 1))
            r = gen.lcg(q)
            live, par = list(range(L)), [0] * (2 * L - 1)
            for i in range(L, 2 * L - 1):
                a = live.pop(next(r) % len(live))
                b = live.pop(next(r) % len(live))
                par[a] = par[b] = i
                live.append(i)
            par[-1] = 2 * L - 2
            yield [par, None, [next(r) % 4 for _ in range(L)], (None, 4, 5)[q % 3]]

    def large():
        for q in range(60 if deep else 12):
            r = gen.lcg(q + 3)
            L = 12 + 4 * q
            p = binary_tree(L, q % 3, q)
            if q % 3 == 2 and L > 60:
                p = binary_tree(60, 2, q)
                L = 60
            v = [next(r) % L for _ in range(q % 7)] + list(range(L)) if q % 2 else None
            yield [p, v, [next(r) % (2 + q % 5) for _ in (v or range(L))], (None, 7, 20, None, 1, 13)[q % 6]]
        yield [binary_tree(230, 1, 0), None, [(i * 7 // 30) % 9 for i in range(230)], None]
        yield [binary_tree(210, 0, 5), None, [(i // 21) * 2 for i in range(210)], 205]

    def hor():
        k = 0
        for L in range(1, 5):
            for j, p in enumerate(gen.hierarchies(L)):
                for alt in gen.mono_altitudes(p, [0, 1, 2], leaf0=0):
                    k += 1
                    if L == 4 and not deep and k % 2:
                        continue
                    gts = list(gen.set_partitions(L))
                    gt = gts[k % len(gts)]
                    yield [list(p), list(alt), None, [2 * x for x in gt] if k % 4 == 0 else list(gt), (None, None, 2, 3, 1)[k % 5]]
                    if k % 3 == 0:
                        v = maps(L, k)
                        r = gen.lcg(k)
                        yield [list(p), list(alt), v, [next(r) % 3 for _ in v], (None, 2)[k % 2]]
    return [Group("dendrogram purity", pur, purity, "all trees of at most %d leaves with all labellings" % (5 if deep else 4)),
            Group("graph costs", cst, costs, "all trees of at most 4 leaves with all multigraphs of at most 3 edges"),
            Group("partition measures", prt, partitions, "all pairs of partitions of at most %d elements, several ground truths" % (5 if deep else 4)),
            Group("optimal cuts", frg, fragmentation, "all binary trees of at most 5 leaves with all ground truths against all cuts", limit=30),
            Group("larger optimal cuts", large, larger_cuts, "binary trees of 12 to 230 leaves (combs, balanced, random merges) against dynamic programming over all their cuts"),
            Group("normalization", lambda: iter([[[2, 2, 2], [0, 0, 1], [0, 0, 1]]]), normalization, "one region adjacency graph"),
            Group("horizontal cuts", hor, horizontal, "all trees of at most 4 leaves with all altitudes in {0,1,2}", limit=20)]
