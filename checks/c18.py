"""All pairs and triples of small trees through the fusion depth map, and all hierarchies and labellings of small graphs through the
alignment functions, against the longest chains of regions and the formula of the projection."""
import itertools
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints, edges_of

ID = "C18"
ASSUMPTIONS = ["When several coarse regions have the largest intersection with a fine region, any of them may be chosen (the same one for all edges).",
               "Hierarchies given as saliency maps separate connected regions (their null edges span the regions)."]


def chain_depth(fams, L, first_alone=False):
    """Length of the longest chain of distinct regions above each leaf. first_alone: see the known finding, a region which holds a single leaf
    and only exists in the first tree is only nested in the regions of this tree."""
    alone = {s for s in fams[0] if len(s) == 1 and not any(s in f for f in fams[1:])} if first_alone and L > 1 else set()
    d = {frozenset(range(L)): 0}
    for s in sorted({s for f in fams for s in f}, key=len, reverse=True):
        d[s] = max([d[t] + 1 for t in (fams[0] if s in alone else d) if s < t], default=0)
    return [max(d[s] for s in d if v in s) + 1 for v in range(L)]


def depth_ok(ctx, got, fams, L, what):
    want = chain_depth(fams, L)
    if got != want and got == chain_depth(fams, L, True):
        raise Violation("%s got %r, expected %r" % (what, got, want), "fusion:region of a single leaf of the first tree")
    ctx.eq(got, want, what)


def fusion(case, ctx):
    ps = [tuple(p) for p in case]
    ctx.state(tuple(ps))
    ts = [mk_tree(p, "c" if i % 2 else "p") for i, p in enumerate(ps)]
    what = "fusion of %r:" % (ps,)
    if len({gen.num_leaves(p) for p in ps}) > 1 or len(ps) < 2:
        ctx.raises(lambda: hg.tree_fusion_depth_map(tuple(ts)), what)
        return
    L = gen.num_leaves(ps[0])
    got = ints(hg.tree_fusion_depth_map(tuple(ts)))
    fams = [set(map(frozenset, gen.leaf_sets(p)[L:])) for p in ps]
    ctx.op(3)
    ctx.eq(ints(hg.tree_fusion_depth_map(*ts)), got, what + " depth map (several arguments)")
    rev = ints(hg.tree_fusion_depth_map(list(reversed(ts))))
    for t, p in zip(ts, ps):
        ctx.eq(tuple(ints(t.parents())), p, what + " the tree was modified")
    ctx.outcome(tuple(got))
    if all(len(p) == 1 for p in ps):
        ctx.eq((got, rev), ([0], [0]), what + " depth map")
        return
    depth_ok(ctx, got, fams, L, what + " depth map")
    depth_ok(ctx, rev, fams[::-1], L, what + " depth map (reversed)")


def minimax(n, edges, w):
    d = [[0 if i == j else np.inf for j in range(n)] for i in range(n)]
    for (a, b), x in zip(edges, w):
        if a != b:
            d[a][b] = d[b][a] = min(d[a][b], x)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                d[i][j] = min(d[i][j], max(d[i][k], d[k][j]))
    return d


def best(fine, coarse):
    """for each fine region the coarse regions of largest intersection"""
    out = []
    for r in range(max(fine) + 1):
        n = [sum(f == r and c == k for f, c in zip(fine, coarse)) for k in range(max(coarse) + 1)]
        out.append([k for k, x in enumerate(n) if x == max(n)])
    return out


def project(case, ctx):
    fine, coarse = case
    ctx.state((tuple(fine), tuple(coarse)))
    b = best(fine, coarse)
    what = "projection of the labels %r on %r:" % (fine, coarse)
    nf, nc = max(fine) + 1, max(coarse) + 1
    for df, dc in (("int64", "int64"), ("int32", "uint8"), ("uint64", "int8"), ("uint16", "uint16")):
        for k in ((), (nf, nc), (nf + 1, nc + 2)):
            ctx.op()
            r = ints(hg.project_fine_to_coarse_labelisation(np.array(fine, dtype=df), np.array(coarse, dtype=dc), *k))
            ctx.eq(len(r), nf + (1 if k and k[0] > nf else 0), what + " size")
            for i in range(nf):
                if r[i] not in b[i]:
                    raise Violation("%s %r, expected one of %r" % (what, r, b))
    A, B = np.array(fine), np.array(coarse)
    ctx.raises(lambda: hg.project_fine_to_coarse_labelisation(A, B, nf, nc - 1) if nc > 1 else 1 / 0, what + " too few coarse regions")
    ctx.raises(lambda: hg.project_fine_to_coarse_labelisation(A, B, nf - 1, nc) if nf > 1 else 1 / 0, what + " too few fine regions")
    ctx.raises(lambda: hg.project_fine_to_coarse_labelisation(A - 1, B), what + " negative label")
    ctx.raises(lambda: hg.project_fine_to_coarse_labelisation(A, B[1:]), what + " different sizes")
    ctx.outcome(tuple(r))


def expected(edges, regions, choices, dist):
    """all the saliency maps the definition allows"""
    out = []
    for s in itertools.product(*choices):
        out.append([0 if regions[a] == regions[b] else dist(s[regions[a]], s[regions[b]]) for a, b in edges])
    return out


def check(ctx, got, allowed, what):
    g = [float(x) for x in np.asarray(got).tolist()]
    ctx.compared += 1
    if g not in [[float(x) for x in a] for a in allowed]:
        raise Violation("%s got %r, expected %r" % (what, g, allowed[:4]))
    ctx.outcome(tuple(g))


def align(case, ctx):
    n, edges, fine, p, alt = case
    edges, p = [tuple(e) for e in edges], tuple(p)
    ctx.state((n, tuple(edges), tuple(fine), p, tuple(alt)))
    g = mk_graph(n, edges)
    t = mk_tree(p)
    comp = gen.components(n, [e for e in edges if fine[e[0]] == fine[e[1]]])
    regions = gen.canon_labels(comp)
    what = "graph of %d vertices, edges %r, fine labels %r, tree %r, altitudes %r:" % (n, edges, fine, p, alt)
    # supervertices of the tree: largest nodes of null altitude
    top = []
    for v in range(n):
        a = gen.ancestors(p, v)
        top.append([x for x in a if x < n or alt[x] == 0][-1])
    sv = gen.canon_labels(top)
    node = {sv[v]: top[v] for v in range(n)}
    choices = best(regions, sv)
    allowed = expected(edges, regions, choices, lambda a, b: alt[gen.lca(p, node[a], node[b])])
    F = np.array(fine, dtype="int32")
    for dt in ("float64", "int32", "uint8"):
        A = np.array(alt, dtype=dt)
        ctx.op(2)
        check(ctx, hg.align_hierarchies(g, F, (t, A)), allowed, what + " align_hierarchies (%s)" % dt)
    check(ctx, hg.HierarchyAligner.from_labelisation(g, F).align_hierarchy(t, A), allowed, what + " align_hierarchy")
    cut = hg.labelisation_2_graph_cut(g, F)
    check(ctx, hg.HierarchyAligner.from_graph_cut(g, cut).align_hierarchy(t, A), allowed, what + " aligner of a graph cut")
    r = hg.align_hierarchies(g, F, [(t, A), (t, np.array(alt, dtype="float32"))])
    ctx.eq(len(r), 2, what + " list of hierarchies")
    for x in r:
        check(ctx, x, allowed, what + " list of hierarchies")
    # through super-vertices and a tree on them
    svl = hg.labelisation_hierarchy_supervertices(t, A)
    ctx.eq(gen.canon_labels(ints(svl)), sv, what + " supervertices")
    kept = [node[k] for k in range(len(node))] + [x for x in range(n, len(p)) if alt[x] > 0 and x not in top]
    kept = kept[:len(node)] + sorted(kept[len(node):])
    if len(kept) > 1 or len(p) == 1:
        pos = {x: i for i, x in enumerate(kept)}
        st = mk_tree([pos[p[x]] for x in kept])
        check(ctx, hg.HierarchyAligner.from_labelisation(g, F).align_hierarchy(np.array(sv), st, A[kept]), allowed, what + " super vertices")
    # as saliency maps, when they determine the regions
    sal = [alt[gen.lca(p, a, b)] if a != b else 0 for a, b in edges]
    if len(set(zip(gen.components(n, [e for e, x in zip(edges, sal) if x == 0]), sv))) == len(set(sv)) == len(set(gen.components(n, [e for e, x in zip(edges, sal) if x == 0]))):
        d = minimax(n, edges, sal)
        rep = {sv[v]: v for v in range(n)}
        al2 = expected(edges, regions, choices, lambda a, b: d[rep[a]][rep[b]])
        S = np.array(sal, dtype="float64")
        conn = gen.connected(n, edges)
        if conn:
            check(ctx, hg.align_hierarchies(g, F, (g, S)), al2, what + " saliency map")
            check(ctx, hg.align_hierarchies(g, F, [(g, S.astype("int32"))])[0], al2, what + " saliency map (list)")
        # on the region adjacency graph
        rag = hg.make_region_adjacency_graph_from_labelisation(g, np.asarray(svl))
        rv = ints(hg.CptRegionAdjacencyGraph.get_vertex_map(rag))
        if conn:
            w = hg.rag_accumulate_on_edges(rag, hg.Accumulators.max, S) if rag.num_edges() else np.zeros(0)
            check(ctx, hg.align_hierarchies(g, F, (rag, w)), al2, what + " saliency map on a region adjacency graph")
            bt, ba = hg.bpt_canonical(rag, w)
            check(ctx, hg.align_hierarchies(g, F, (bt, ba)), al2, what + " tree on a region adjacency graph")
    # a hierarchy as the fine partition
    check(ctx, hg.HierarchyAligner.from_hierarchy(g, t, A).align_hierarchy(t, A),
          expected(edges, gen.canon_labels(gen.components(n, [e for e in edges if sv[e[0]] == sv[e[1]]])),
                   best(gen.canon_labels(gen.components(n, [e for e in edges if sv[e[0]] == sv[e[1]]])), sv), lambda a, b: alt[gen.lca(p, node[a], node[b])]),
          what + " aligned on itself")
    al = hg.HierarchyAligner.from_labelisation(g, F)
    ctx.raises(lambda: al.align_hierarchy(np.full(n, len(p)), t, A), what + " super vertices which are not leaves")
    ctx.raises(lambda: al.align_hierarchy(mk_tree(tuple([n + 1] * (n + 2))), np.zeros(n + 2)), what + " tree on another domain")
    ctx.raises(lambda: al.align_hierarchy(t, A[1:]), what + " altitudes of the wrong size")


def groups(tier):
    deep = tier != "quick"

    def pairs():
        for p in gen.trees(3):
            for q in gen.trees(5):
                yield [p, q]
        by = {}
        for p in gen.trees(6 if not deep else 7):
            by.setdefault(gen.num_leaves(p), []).append(p)
        for L, ts in by.items():
            ts = [p for p in ts if len(p) <= 2 * L + 1]
            for i, (p, q) in enumerate(itertools.combinations_with_replacement(ts, 2)):
                yield [p, q]
        for i, (p, q) in enumerate(itertools.combinations_with_replacement(gen.hierarchies(4), 2)):
            if deep or i % 3 == 0:
                yield [p, q]

    def triples():
        yield [gen.star_tree(4)]
        for t in itertools.combinations_with_replacement([p for p in gen.trees(6) if gen.num_leaves(p) == 3], 3):
            yield list(t)
        hs = gen.hierarchies(4)
        for i, t in enumerate(itertools.product(hs[::3], repeat=3)):
            if i % (97 if not deep else 11) == 0:
                yield list(t)
        for q in range(40 if not deep else 400):
            L = 5 + q % 6
            yield [gen.scattered_tree(2 * L - q % 3, L, q + 31 * k) for k in range(2 + q % 4)]

    def labels():
        for n in range(1, 6 if deep else 5):
            for a in gen.set_partitions(n):
                for b in gen.set_partitions(n):
                    yield [list(a), list(b)]
        for q in range(60):
            r = gen.lcg(q)
            a = [next(r) % (1 + q % 7) for _ in range(30)]
            b = [next(r) % (1 + q % 5) for _ in range(30)]
            yield [list(gen.canon_labels(a)), list(gen.canon_labels(b))]

    def alignments():
        graphs = [(2, [(0, 1)]), (3, [(0, 1), (1, 2)]), (3, [(0, 1), (1, 2), (2, 0), (0, 1)]), (3, [(0, 1)]), (4, [(0, 1), (1, 2), (2, 3)]),
                  (4, [(0, 1), (1, 2), (2, 3), (3, 0)]), (4, [(0, 1), (0, 2), (0, 3)]), (4, list(itertools.combinations(range(4), 2)))]
        k = 0
        for n, es in graphs:
            for fine in gen.set_partitions(n):
                for p in gen.hierarchies(n):
                    for alt in gen.mono_altitudes(p, [0, 1, 2], leaf0=0):
                        k += 1
                        if n < 4 or k % (3 if deep else 29) == 0:
                            yield [n, es, list(fine), p, alt]

    def larger():
        for q in range(60 if not deep else 600):
            r = gen.lcg(q)
            h, w = 3, 2 + q % 3
            n = h * w
            p = gen.scattered_tree(2 * n - 1 - q % 4, n, q)
            alt = [0] * len(p)
            for i in range(n, len(p)):
                c = max(alt[j] for j in range(i) if p[j] == i)
                alt[i] = c + (next(r) % 3 if i > n else 0)
            fine = [next(r) % (2 + q % 3) for _ in range(n)]
            yield [n, gen.grid_edges(h, w, 8 if q % 5 == 0 else 4), fine, p, alt]
    return [Group("fusion of two trees", pairs, fusion, "all pairs of trees of at most %d nodes with the same leaves (chains included) and of hierarchies of 4 leaves" % (7 if deep else 6)),
            Group("fusion of several trees", triples, fusion, "all triples of trees of 3 leaves and at most 6 nodes; larger families of 2 to 5 trees"),
            Group("projection", labels, project, "all pairs of partitions of at most %d elements" % (5 if deep else 4)),
            Group("alignment", alignments, align, "8 graphs of 2 to 4 vertices, all labellings, all hierarchies and altitudes in {0,1,2} (a third at least for 3 vertices or less, else sampled by a fixed stride)"),
            Group("larger alignment", larger, align, "grids of 6 to 12 vertices")]
