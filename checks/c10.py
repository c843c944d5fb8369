"""C10: restructuring of hierarchies (simplification, canonisation, binarisation, sorting, supervertices, isomorphism) against set definitions: all trees, all subsets of removed nodes, all altitudes."""
import itertools
import numpy as np
import higra as hg
from vf import build, gen
from vf.core import Group, Violation
from vf.util import ints, mk_graph, mk_tree, Pipe

ID = "C10"
ASSUMPTIONS = ["trees of at most 7 nodes; larger trees belong to fixed families", "supervertices and sorting are specified for increasing (non negative) altitudes",
               "sorting is refused when a leaf is strictly above an internal node (no tree with its leaves first satisfies the order)"]
PIPE = None


def check_simplified(p, deleted, leaves_too, new, nm, ctx, what):
    n, nl = len(p), gen.num_leaves(p)
    q, nm = ints(new.parents()), ints(nm)
    kept = [i for i in range(n) if i == n - 1 or not deleted[i] or (i < nl and not leaves_too)]
    ctx.op()
    ctx.compared += 1
    if sorted(nm) != kept or len(q) != len(nm):
        raise Violation("%s: node map %r, parents %r, expected nodes %r" % (what, nm, q, kept))
    ks = set(kept)
    pos = {v: i for i, v in enumerate(nm)}
    for i, v in enumerate(nm):
        a = p[v]
        while a not in ks:
            a = p[a]
        if q[i] != pos[a]:
            raise Violation("%s: node %d (%d) has parent %d, expected %d (parents %r, node map %r)" % (what, i, v, nm[q[i]], a, q, nm))
    if not leaves_too:
        ctx.eq(nm[:nl], list(range(nl)), what + " leaves")
    ctx.eq(new.num_leaves(), gen.num_leaves(q), what + " number of leaves")


def simplify(case, ctx):
    p, cat = tuple(case[0]), case[1]
    n, nl = len(p), gen.num_leaves(p)
    t = mk_tree(p, cat)
    g = mk_graph(nl, [])
    hg.CptHierarchy.link(t, g)
    masks = itertools.product((False, True), repeat=n) if len(case) == 2 else [[bool(b) for b in case[2]]]
    for d in masks:
        ctx.state((p, cat, d))
        for leaves in (False, True):
            new, nm = hg.simplify_tree(t, np.array(d), leaves)
            what = "simplify_tree(%r %s, removed %r, process_leaves=%r)" % (p, cat, [i for i in range(n) if d[i]], leaves)
            check_simplified(p, d, leaves, new, nm, ctx, what)
            ctx.ok(new.category() == t.category(), what + " category")
            ctx.outcome((tuple(ints(new.parents())), tuple(ints(nm))))
            if ints(nm)[:new.num_leaves()] == list(range(nl)):
                ctx.ok(hg.CptHierarchy.validate(new) and hg.CptHierarchy.get_leaf_graph(new) is g, what + " leaf graph")
            else:
                # the leaves are not the vertices of the leaf graph any more
                ctx.ok(not hg.CptHierarchy.validate(new), what + " is linked to the leaf graph of the original tree")
    t = mk_tree(p)
    for k in (n - 1, n + 1):
        ctx.raises(lambda: hg.simplify_tree(t, np.zeros(k, dtype=bool)), "simplify_tree of %r with %d marks" % (p, k))
    ctx.raises(lambda: hg.simplify_tree(t, np.zeros((n, 2), dtype=bool)), "simplify_tree of %r with 2d marks" % (p,))
    for d in ([1] * n, [0] * n, [i % 2 for i in range(n)]):
        for dt in ("int64", "uint8", "float64"):
            new, nm = hg.simplify_tree(t, np.array(d, dtype=dt))
            check_simplified(p, d, False, new, nm, ctx, "simplify_tree(%r, %s marks %r)" % (p, dt, d))


def altitudes(case, ctx):
    """Functions of a tree and altitudes."""
    p, a = tuple(case[0]), list(case[1])
    n, nl = len(p), gen.num_leaves(p)
    ctx.state((p, tuple(a)))
    what = "tree %r altitudes %r:" % (p, a)
    inc = all(a[i] <= a[p[i]] for i in range(n))
    plain = a
    for dt, k in (("float64", 1), ("int64", 1), ("float64", 0), ("int32", 0), ("uint8", 0)):
        t = mk_tree(p)
        a = gen.scaled(plain, dt, k)
        A = np.array(a, dtype=dt)
        # canonize_hierarchy
        c, ca, nm = hg.canonize_hierarchy(t, A, return_node_map=True)
        ctx.op()
        check_simplified(p, [a[i] == a[p[i]] for i in range(n)], False, c, nm, ctx, what + " canonize_hierarchy")
        ctx.eq(np.asarray(ca).tolist(), [a[i] for i in ints(nm)], what + " canonize_hierarchy altitudes")
        c2, ca2 = hg.canonize_hierarchy(t, A)
        ctx.eq((ints(c2.parents()), np.asarray(ca2).tolist()), (ints(c.parents()), np.asarray(ca).tolist()), what + " canonize_hierarchy without node map")
        # increasingness, sorting
        ctx.ok(bool(hg.test_altitudes_increasingness(t, A)) == inc, what + " test_altitudes_increasingness")
        if not inc:
            ctx.raises(lambda: hg.sort_hierarchy_with_altitudes(t, A), what + " sort_hierarchy_with_altitudes")
        elif nl == n or max(a[:nl]) <= min(a[nl:]):
            s, sa, nm = hg.sort_hierarchy_with_altitudes(t, A)
            nm, q = ints(nm), ints(s.parents())
            ctx.ok(sorted(nm) == list(range(n)), what + " sort: node map %r" % nm)
            ctx.eq([nm[x] for x in q], [p[x] for x in nm], what + " sort: parents")
            ctx.eq(np.asarray(sa).tolist(), [a[x] for x in nm], what + " sort: altitudes")
            ctx.ok(all(x <= y for x, y in zip(sa, sa[1:])), what + " sort: not sorted")
            ctx.ok(s.category() == t.category(), what + " sort: category")
            if len(set(a[:nl])) < 2:
                ctx.ok(hg.test_tree_isomorphism(t, s) and hg.test_tree_isomorphism(s, t), what + " sort: isomorphism")
            ctx.outcome((tuple(nm), tuple(q)))
        else:
            ctx.raises(lambda: hg.sort_hierarchy_with_altitudes(t, A), what + " sort_hierarchy_with_altitudes with a leaf above an internal node")
    for k in (n - 1, n + 1):
        ctx.raises(lambda: hg.test_altitudes_increasingness(t, np.zeros(k)), what + " test_altitudes_increasingness with %d altitudes" % k)
    if not inc:
        return
    # supervertices
    reg = gen.leaf_sets(p)
    zero = [i for i in range(n) if (i < nl or a[i] == 0)]
    sv = {}
    for l in range(nl):
        x = l
        while p[x] != x and a[p[x]] == 0:
            x = p[x]
        sv[l] = x
    lab = gen.canon_labels([sv[l] for l in range(nl)])
    got = ints(hg.labelisation_hierarchy_supervertices(mk_tree(p), np.array(a, dtype=np.float64)))
    ctx.eq(got, list(lab), what + " labelisation_hierarchy_supervertices")
    r = PIPE.ask("SV", n, *p, *a)
    if not r.startswith("OK"):
        raise Violation("%s supervertices_hierarchy: %s" % (what, r))
    w = r.split()[1:]
    d = {}
    while w:
        k, m = w[0], int(w[1])
        d[k], w = [int(x) for x in w[2:2 + m]], w[2 + m:]
    ctx.op(2)
    ctx.eq(d["labels"], list(lab), what + " supervertices_hierarchy labels")
    ctx.eq(d["labels2"], list(lab), what + " C++ labelisation_hierarchy_supervertices")
    tops = set(sv.values())
    kept = [i for i in range(n) if i in tops or not any(reg[i] <= reg[x] and x != i and gen.lca(p, i, x) == x for x in tops)]
    # kept: supervertex nodes and the nodes that are not below one
    nm, q = d["node_map"], d["parents"]
    ctx.ok(sorted(nm) == kept and len(q) == len(nm), what + " supervertices_hierarchy node map %r, expected the nodes %r" % (nm, kept))
    pos = {v: i for i, v in enumerate(nm)}
    ctx.eq(q, [pos[p[v]] for v in nm], what + " supervertices_hierarchy parents (node map %r)" % nm)
    ns = len(set(lab))
    for l in range(nl):
        ctx.eq(nm[lab[l]], sv[l], what + " supervertices_hierarchy: node of the supervertex of leaf %d" % l)
    ctx.eq(gen.num_leaves(q), ns, what + " supervertices_hierarchy leaves")


def binary(case, ctx):
    p = tuple(case)
    n, nl = len(p), gen.num_leaves(p)
    ctx.state(p)
    t = mk_tree(p)
    ch = gen.children(p)
    what = "tree_2_binary_tree(%r)" % (p,)
    if any(len(ch[i]) < 2 for i in range(nl, n)):
        ctx.raises(lambda: hg.tree_2_binary_tree(t), what)
        return
    g = mk_graph(nl, [])
    hg.CptHierarchy.link(t, g)
    b, nm = hg.tree_2_binary_tree(t)
    ctx.op()
    q, nm = ints(b.parents()), ints(nm)
    ctx.ok(hg.CptHierarchy.get_leaf_graph(b) is g, what + " leaf graph")
    ctx.ok(all(hg.tree_2_binary_tree(mk_tree(p, c))[0].category() == mk_tree(p, c).category() for c in "pc"), what + " category")
    ctx.eq(len(q), 2 * nl - 1, what + " number of nodes")
    ctx.eq(nm[:nl], list(range(nl)), what + " leaves")
    qc, qr, pr = gen.children(q), gen.leaf_sets(q), gen.leaf_sets(p)
    ctx.ok(all(len(qc[i]) == 2 for i in range(nl, len(q))), what + " is not binary: %r" % q)
    for v in range(nl, n):
        want = set()
        acc = set(pr[ch[v][0]])
        for c in ch[v][1:]:
            acc |= pr[c]
            want.add(frozenset(acc))
        got = {frozenset(qr[i]) for i in range(len(q)) if nm[i] == v}
        ctx.ok(got == want and sum(x == v for x in nm) == len(want), what + ": nodes of %d are %r (parents %r)" % (v, sorted(map(sorted, got)), q))
        top = max(i for i in range(len(q)) if nm[i] == v)
        ctx.eq(nm[q[top]], p[v], what + " parent of %d" % v)
    ctx.outcome((tuple(q), tuple(nm)))


def iso(case, ctx):
    ts = [tuple(p) for p in case[0]]
    regs = [sorted(tuple(sorted(r)) for r in gen.leaf_sets(p)) for p in ts]
    trees = [mk_tree(p) for p in ts]
    i = case[1]
    ctx.state(ts[i])
    for j in range(len(ts)):
        ctx.op()
        want = regs[i] == regs[j]
        ctx.compared += 1
        if bool(hg.test_tree_isomorphism(trees[i], trees[j])) != want:
            raise Violation("test_tree_isomorphism(%r, %r) is %r" % (ts[i], ts[j], not want))
        ctx.outcome(want)


def relabelled(nl, n):
    """All trees with n nodes and nl leaves, in every admissible numbering."""
    return [p for p in gen.trees_exact(n) if gen.num_leaves(p) == nl]


def groups(tier):
    global PIPE
    deep = tier != "quick"
    PIPE = Pipe(build.harness("trees"))

    def simp():
        for p in gen.trees(6 if not deep else 7):
            for c in "pc" if len(p) < 6 else "p":
                yield [p, c]
        for k in range(24 if deep else 8):
            p = gen.scattered_tree(14 + k, 6, k)
            r = gen.lcg(k)
            for q in range(8):
                yield [p, "p", [next(r) % (2 + q % 3) == 0 for _ in p]]

    def alts():
        for p in gen.trees(5 if not deep else 6):
            for a in itertools.product(range(3), repeat=len(p)) if len(p) < 5 else gen.mono_altitudes(p, [0, 1, 2]):
                yield [p, list(a)]
        if not deep:
            for p in gen.trees_exact(6):
                for a in gen.mono_altitudes(p, [0, 1, 2], leaf0=0):
                    yield [p, list(a)]
        for k in range(12):
            p = gen.scattered_tree(14 + k, 6, k)
            r = gen.lcg(k)
            for q in range(4):
                a = [0] * len(p)
                for i in range(len(p)):
                    a[i] = max([a[c] for c in range(i) if p[c] == i], default=0)
                    if i >= gen.num_leaves(p):
                        a[i] += next(r) % (1 + q)
                yield [p, a]

    def bins():
        yield from gen.trees(7 if not deep else 8)
        for n in (3, 5, 9):
            yield gen.star_tree(n)
            yield gen.caterpillar_tree(n)
        for nl in (4, 5) if not deep else (4, 5, 6):
            yield from gen.hierarchies(nl)

    def isos():
        for n in range(1, 7 if not deep else 8):
            for nl in range(1, n + 1):
                ts = relabelled(nl, n)
                for i in range(len(ts)):
                    yield [ts, i]
        ts = list(gen.hierarchies(4)) + [gen.caterpillar_tree(4), gen.star_tree(4)]
        for i in range(len(ts)):
            yield [ts, i]
    return [Group("simplify", simp, simplify, "all trees of at most %d nodes, all subsets of removed nodes, leaves included or not" % (7 if deep else 6)),
            Group("altitudes", alts, altitudes, "all trees of at most 4 nodes with all altitudes in 0..2, all trees of %d nodes with increasing ones" % (6 if deep else 5)),
            Group("binary", bins, binary, "all trees of at most %d nodes, all hierarchies of at most %d leaves" % ((8, 6) if deep else (7, 5))),
            Group("isomorphism", isos, iso, "all pairs of trees of at most %d nodes with the same numbers of nodes and leaves" % (7 if deep else 6))]
