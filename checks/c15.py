"""All small hierarchies with all increasing altitudes (ties included) through the horizontal cut explorer and the labelling functions: every index, threshold and number of regions, against the threshold partitions."""
import gc, itertools
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints, edges_of

ID = "C15"
ASSUMPTIONS = ["Altitudes are non decreasing, 0 on the leaves; below 0 the finest cut is returned by the explorer.",
               "Cuts of trees with single child nodes are sets of nodes, one per distinct altitude (two of them may be the same partition)."]
TYPES = ["float64", "int32", "uint8", "float32", "int64", "uint64", "int8", "uint16"]


def nodes_at(p, alt, t):
    """Largest nodes of altitude at most t (leaves if none)."""
    out = set()
    L = gen.num_leaves(p)
    for v in range(L):
        n = v
        while p[n] != n and alt[p[n]] <= t:
            n = p[n]
        out.add(n)
    return out


def expect(p, alt):
    """[(altitude, nodes)] from coarsest to finest."""
    r = len(p) - 1
    return [(t, nodes_at(p, alt, t)) for t in sorted(set(alt), reverse=True)] if r else [(alt[0], {0})]


def cut_ok(ctx, cut, p, alt, want, t, leaf_graph, edges, what, dt):
    alt_w, nodes = want
    ctx.op(4)
    ctx.eq(sorted(ints(cut.nodes())), sorted(nodes), what + " nodes")
    ctx.eq(float(cut.altitude()), float(alt_w), what + " altitude")
    L = gen.num_leaves(p)
    top = [next(a for a in gen.ancestors(p, v) if a in nodes) for v in range(L)]
    lab = cut.labelisation_leaves(t)
    ctx.eq(gen.canon_labels(ints(lab)), gen.canon_labels(top), what + " labels")
    data = [3 * i % 7 + 1 for i in range(len(p))]
    r = cut.reconstruct_leaf_data(t, np.array(data, dtype=dt))
    ctx.eq([float(x) for x in np.asarray(r).ravel().tolist()], [float(data[x]) for x in top], what + " reconstruction")
    r = cut.reconstruct_leaf_data(t, np.array([[x, 2 * x + 1] for x in data], dtype=dt))
    ctx.eq(np.asarray(r).reshape(L, 2).astype(int).tolist(), [[data[x], 2 * data[x] + 1] for x in top], what + " vectorial reconstruction")
    if leaf_graph is not None:
        c = cut.graph_cut(t, leaf_graph).tolist()
        ctx.eq([x != 0 for x in c], [top[a] != top[b] for a, b in edges], what + " graph cut")
    return top


def explore(case, ctx):
    p, alt, k = tuple(case[0]), list(case[1]), case[2]
    ctx.state((p, tuple(alt)))
    n, L = len(p), gen.num_leaves(p)
    dt = TYPES[k % 8]
    t = mk_tree(p, "pc"[k % 5 == 0])
    g, edges = None, []
    if k % 3:
        edges = [(i, j) for i, j in itertools.combinations(range(L), 2) if (i + j + k) % 3 or j == i + 1] + ([(0, 0)] if k % 7 == 0 else [])
        g = mk_graph(L, edges)
        if k % 3 == 2:
            hg.CptHierarchy.link(t, g)
    alt = gen.scaled(alt, dt, k // 8) if dt == "float64" else alt
    A = np.array(alt, dtype=dt)
    what = "tree %r, altitudes %r (%s):" % (p, alt, dt)
    ex = hg.HorizontalCutExplorer(t, A)
    want = expect(p, alt)
    ctx.op(4)
    ctx.eq(int(ex.num_cuts()), len(want), what + " number of cuts")
    ctx.eq([float(x) for x in ex.altitude_cuts()], [float(a) for a, _ in want], what + " altitudes of the cuts")
    num = [len(s) for _, s in want]
    ctx.eq(ints(ex.num_regions_cuts()), num, what + " numbers of regions")
    for i, w in enumerate(want):
        ctx.eq((int(ex.num_regions_cut(i)), float(ex.altitude_cut(i))), (num[i], float(w[0])), what + " cut %d" % i)
        cut_ok(ctx, ex.horizontal_cut_from_index(i), p, alt, w, t, g, edges, what + " cut of index %d:" % i, dt)
    for i in (-1, len(want), len(want) + 5):
        ctx.raises(lambda: ex.horizontal_cut_from_index(i), what + " cut of index %d" % i)
        ctx.raises(lambda: ex.altitude_cut(i), what + " altitude of index %d" % i)
        ctx.raises(lambda: ex.num_regions_cut(i), what + " number of regions of index %d" % i)
    def pick(ths):
        for th in ths:
            ok = [j for j, (a, _) in enumerate(want) if a <= th]
            yield th, ok[0] if ok else len(want) - 1
    for th, j in pick(sorted({x + d for x in set(alt) for d in (-0.5, 0, 0.5)} | {-3, 1e9, np.inf})):
        ctx.op()
        c = ex.horizontal_cut_from_altitude(th)
        ctx.eq((sorted(ints(c.nodes())), float(c.altitude())), (sorted(want[j][1]), float(want[j][0])), what + " cut at altitude %r" % th)
    hier = all(len(c) != 1 for c in gen.children(p))
    for r in range(0, L + 3):
        lo = [j for j in range(len(want)) if num[j] >= r]
        hi = [j for j in range(len(want)) if num[j] <= r]
        for mode, cand in (("at_least", num[min(lo)] if lo else num[-1]), ("at_most", num[max(hi)] if hi else num[0])):
            ctx.op(2)
            c = ex.horizontal_cut_from_num_regions(r, mode == "at_least")
            ns = set(ints(c.nodes()))
            ctx.ok(any(ns == s and num[j] == cand and float(c.altitude()) == a for j, (a, s) in enumerate(want)), what + " cut of %s %d regions: %r, expected one of %d regions" % (mode, r, sorted(ns), cand))
            if hier:
                s = [s for j, (a, s) in enumerate(want) if num[j] == cand][0]
                top = [next(a for a in gen.ancestors(p, v) if a in s) for v in range(L)]
                lab = hg.labelisation_horizontal_cut_from_num_regions(t, A, r, mode)
                ctx.eq(gen.canon_labels(ints(lab)), gen.canon_labels(top), what + " labels of %s %d regions" % (mode, r))
                ctx.eq(gen.canon_labels(ints(hg.labelisation_horizontal_cut_from_num_regions(t, A, float(r), mode, leaf_graph=g))), gen.canon_labels(top), what + " labels of %s %d regions" % (mode, r))
    ctx.raises(lambda: hg.labelisation_horizontal_cut_from_num_regions(t, A, 1, "atleast"), what + " unknown mode")
    # labels from a threshold, whatever its position with respect to the type
    for th in sorted({x + d for x in set(alt) for d in (-0.5, 0, 0.25)} | {-1, -1e30, 1e30, 300, 256, -np.inf, np.inf}):
        top = []
        for v in range(L):
            m = v
            while p[m] != m and alt[p[m]] <= th:
                m = p[m]
            top.append(m)
        ctx.op()
        lab = ints(hg.labelisation_horizontal_cut_from_threshold(t, A, th))
        ctx.eq(gen.canon_labels(lab), gen.canon_labels(top), what + " labels at threshold %r: %r" % (th, lab))
    sv = ints(hg.labelisation_hierarchy_supervertices(t, A))
    ctx.eq(sv, list(gen.canon_labels([next((a for a in reversed(gen.ancestors(p, v)) if alt[a] == 0), v) for v in range(L)])), what + " supervertices")
    ctx.outcome((tuple(num), tuple(sv)))
    # the explorer outlives its tree
    del t
    gc.collect()
    junk = [mk_tree((2, 2, 2)) for _ in range(3)]
    ctx.eq([sorted(ints(ex.horizontal_cut_from_index(i).nodes())) for i in range(len(want))], [sorted(s) for _, s in want], what + " explorer of a forgotten tree")
    del junk


def refused(case, ctx):
    p = tuple(case)
    n, L = len(p), gen.num_leaves(p)
    for alt in itertools.product((-1, 0, 1, 2), repeat=n):
        inc = all(alt[i] <= alt[p[i]] for i in range(n))
        ok = inc and all(a == 0 for a in alt[:L]) and all(a >= 0 for a in alt)
        ctx.state((p, alt))
        ctx.op()
        t = mk_tree(p)
        what = "tree %r, altitudes %r" % (p, alt)
        if ok:
            ctx.eq(int(hg.HorizontalCutExplorer(t, np.array(alt)).num_cuts()), len(expect(p, alt)), what)
        else:
            ctx.raises(lambda: hg.HorizontalCutExplorer(t, np.array(alt, dtype="float64")), what)
    t = mk_tree(p)
    ctx.raises(lambda: hg.HorizontalCutExplorer(t, np.zeros(n + 1)), "too many altitudes")
    ctx.raises(lambda: hg.labelisation_horizontal_cut_from_threshold(t, np.zeros(n + 1), 1), "too many altitudes")


def images(case, ctx):
    """Hierarchies of images: labels and data take the shape of the image, or of the image under a region adjacency graph."""
    shape, q = tuple(case[0]), case[1]
    r = gen.lcg(q)
    g = hg.get_4_adjacency_graph(shape)
    n = g.num_vertices()
    edges = edges_of(g)
    ctx.state((shape, q))
    what = "image %r, case %d:" % (shape, q)
    w = np.array([next(r) % 3 for _ in edges], dtype=TYPES[q % 8])
    rag = None
    leaf = list(range(n))
    if q % 2:
        lab = np.array([next(r) % 3 for _ in range(n)]).reshape(shape)
        rag = hg.make_region_adjacency_graph_from_labelisation(g, lab)
        w = hg.rag_accumulate_on_edges(rag, hg.Accumulators.max, w) if rag.num_edges() else np.zeros(0)
        leaf = ints(hg.CptRegionAdjacencyGraph.get_vertex_map(rag))
    t, alt = hg.bpt_canonical(rag or g, w)
    p, a = tuple(ints(t.parents())), alt.tolist()
    ex = hg.HorizontalCutExplorer(t, alt)
    for i, (al, nodes) in enumerate(expect(p, a)):
        c = ex.horizontal_cut_from_index(i)
        ctx.op(4)
        ctx.eq(sorted(ints(c.nodes())), sorted(nodes), what + " cut %d" % i)
        top = [next(x for x in gen.ancestors(p, leaf[v]) if x in nodes) for v in range(n)]
        l = c.labelisation_leaves(t)
        ctx.eq((l.shape, gen.canon_labels(ints(l))), (shape, gen.canon_labels(top)), what + " labels of cut %d" % i)
        d = c.reconstruct_leaf_data(t, np.arange(len(p)) * 2)
        ctx.eq((d.shape, ints(d)), (shape, [2 * x for x in top]), what + " data of cut %d" % i)
        d = c.reconstruct_leaf_data(t, np.stack([np.arange(len(p))] * 3, axis=1))
        ctx.eq((d.shape, ints(d[..., 1])), (shape + (3,), top), what + " vectorial data of cut %d" % i)
        s = c.graph_cut(t)
        ctx.eq([x != 0 for x in s.tolist()], [top[x] != top[y] for x, y in edges], what + " graph cut %d" % i)
        if rag is not None:
            l = c.labelisation_leaves(t, handle_rag=False)
            ctx.eq([ints(l)[x] for x in leaf], ints(c.labelisation_leaves(t)), what + " labels of the regions")
            ctx.eq(len(ints(c.graph_cut(t, handle_rag=False))), rag.num_edges(), what + " graph cut of the regions")
        else:
            l = hg.labelisation_horizontal_cut_from_threshold(t, alt, al)
            ctx.eq((l.shape, gen.canon_labels(ints(l))), (shape, gen.canon_labels(top)), what + " labels at threshold %r" % al)
        l = hg.labelisation_horizontal_cut_from_num_regions(t, alt, len(nodes))
        ctx.eq((l.shape, gen.canon_labels(ints(l))), (shape, gen.canon_labels(top)), what + " labels of %d regions" % len(nodes))
    l = hg.labelisation_hierarchy_supervertices(t, alt, handle_rag=False)
    top = [next((x for x in reversed(gen.ancestors(p, v)) if a[x] == 0), v) for v in range(t.num_leaves())]
    ctx.eq(gen.canon_labels(ints(l)), gen.canon_labels(top), what + " supervertices")
    ctx.outcome((shape, p))


def groups(tier):
    deep = tier != "quick"

    def small():
        k = 0
        for L in range(1, 5):
            for p in gen.hierarchies(L):
                for alt in gen.mono_altitudes(p, [0, 1, 2, 3], leaf0=0):
                    k += 1
                    yield [p, alt, k]
        for p in gen.trees(6 if deep else 5):
            if any(len(c) == 1 for c in gen.children(p)):
                for alt in gen.mono_altitudes(p, [0, 1, 2], leaf0=0):
                    k += 1
                    yield [p, alt, k]
        for L in (5, 6) if deep else (5,):
            for i, p in enumerate(gen.hierarchies(L) if L == 5 else [gen.scattered_tree(11 - j % 4, 6, j) for j in range(60)]):
                for j, alt in enumerate(gen.mono_altitudes(p, [0, 1, 2] if not deep else [0, 1, 3, 4], leaf0=0)):
                    if (i + j) % (11 if not deep else 3) == 0:
                        k += 1
                        yield [p, alt, k]

    def large():
        for q in range(40 if not deep else 400):
            L = 8 + q % 13
            p = gen.scattered_tree(2 * L - 1 - q % 5, L, q)
            r = gen.lcg(q)
            alt = [0] * len(p)
            for i in range(L, len(p)):
                alt[i] = max(alt[j] for j in range(i) if p[j] == i) + (0, 0, 1, 2)[next(r) % 4]
            yield [p, alt, q]

    def bad():
        for p in gen.trees(5 if deep else 4):
            yield p

    def imgs():
        for shape in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (4, 4)):
            for q in range(200 if deep else 24):
                yield [shape, q]
    return [Group("hierarchies", small, explore, "all hierarchies of at most 4 leaves and increasing altitudes in {0,1,2,3}, trees with single child nodes of at most %d nodes, part of those of 5 leaves" % (6 if deep else 5)),
            Group("larger trees", large, explore, "fixed irregular trees of 8 to 20 leaves"),
            Group("refusals", bad, refused, "all trees of at most %d nodes and all altitudes in {-1..2}" % (5 if deep else 4)),
            Group("images", imgs, images, "images and region adjacency graphs, 6 shapes")]
