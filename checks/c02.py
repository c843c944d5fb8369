"""C02: every parent array up to a size: acceptance, and every relation of accepted trees, in every children-list history."""
import itertools, pickle
import numpy as np
import higra as hg
from vf.core import Group, Violation
from vf import gen
from vf.util import ints

ID = "C02"
ASSUMPTIONS = ["parent arrays of at most 7 nodes (quick: 6)"]
DT = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]


def valid(p):
    n = len(p)
    if p[-1] != n - 1 or any(not (i < p[i] < n) for i in range(n - 1)):
        return False
    nc = [0] * n
    for i in range(n - 1):
        nc[p[i]] += 1
    leaf = [c == 0 for c in nc]
    return all(leaf[i] or not leaf[i + 1] for i in range(n - 1))


def accept(case, ctx):
    """All arrays of one length whose first entries are given."""
    n, head = case
    for k, tail in enumerate(itertools.product(range(-1, n + 1), repeat=n - len(head))):
        p = tuple(head) + tail
        dt = DT[k % len(DT)]
        if min(p) < 0 and dt[0] == "u":
            dt = dt[1:]
        a = np.asarray(p, dtype=dt)
        ctx.op()
        if valid(p):
            t = hg.Tree(a)
            ctx.eq(ints(t.parents()), list(p), "parents of Tree(%r, %s)" % (p, dt))
            ctx.eq((t.num_vertices(), t.num_edges(), t.num_leaves(), t.root()), (n, n - 1, gen.num_leaves(p), n - 1), "counts of %r" % (p,))
            ctx.state(p)
        else:
            ctx.raises(lambda: hg.Tree(a), "Tree(%r, %s)" % (p, dt))
    ctx.outcome((n, head))


def accept_cases(nmax):
    def gen_():
        for n in range(1, nmax + 1):
            if n < 4:
                yield [n, []]
            else:
                for h in itertools.product(range(-1, n + 1), repeat=n - 3):
                    yield [n, list(h)]
    return gen_


def misc_accept(case, ctx):
    ctx.raises(lambda: hg.Tree(np.array([[1, 1], [1, 1]])), "2d parents")
    ctx.raises(lambda: hg.Tree(np.array([[0]])), "2d parents of a single node")
    ctx.raises(lambda: hg.Tree(np.array([[2, 2, 2]])), "row shaped parents")
    t = hg.Tree((2, 2, 2))
    ctx.eq(ints(t.parents()), [2, 2, 2], "tuple")


# --- relations -------------------------------------------------------------------------------
def q_children(t, p, ctx, w):
    C = gen.children(p)
    L, n = gen.num_leaves(p), len(p)
    for v in range(n):
        ctx.eq(sorted(ints(t.children(v))), C[v], w + "children(%d)" % v)
        ctx.eq(int(t.num_children(v)), len(C[v]), w + "num_children(%d)" % v)
        got = [int(t.child(i, v)) for i in range(len(C[v]))]
        ctx.eq(sorted(got), C[v], w + "child(., %d)" % v)
        ctx.eq(got, ints(t.children(v)), w + "child and children of %d" % v)
        ctx.raises(lambda: t.child(len(C[v]), v), w + "child index too large on %d" % v)
        ctx.raises(lambda: t.child(-1, v), w + "child index negative on %d" % v)
    ctx.eq(ints(t.num_children()), [len(C[v]) for v in range(L, n)], w + "num_children()")
    for dt in ("int32", "uint32", "int64", "uint64"):
        vs = np.arange(n - 1, -1, -1).astype(dt)
        ctx.eq(ints(t.num_children(vs)), [len(C[v]) for v in reversed(range(n))], w + "num_children(%s)" % dt)
        if n > L:
            mi = min(len(C[v]) for v in range(L, n))
            for i in range(mi):
                ctx.eq(ints(t.child(i, np.arange(L, n).astype(dt))), [int(t.child(i, v)) for v in range(L, n)], w + "child(%d, array)" % i)
                ctx.eq(ints(t.child(i)), [int(t.child(i, v)) for v in range(L, n)], w + "child(%d)" % i)
            ctx.raises(lambda: t.child(mi, np.arange(L, n).astype(dt)), w + "child(array), index too large")
        ctx.raises(lambda: t.child(0, np.arange(0, n).astype(dt)), w + "child(array) with leaves")


def q_degree(t, p, ctx, w):
    C = gen.children(p)
    n = len(p)
    d = [len(C[v]) + (v != n - 1) for v in range(n)]
    for f in ("degree", "in_degree", "out_degree"):
        F = getattr(t, f)
        ctx.eq([int(F(v)) for v in range(n)], d, w + f)
        for dt in ("int32", "uint64"):
            ctx.eq(ints(F(np.arange(n, dtype=dt))), d, w + f + " array")
        r = np.asarray(F(np.arange(n).reshape(n, 1)))
        ctx.eq((r.shape, ints(r.ravel())), ((n, 1), d), w + f + " array with two dimensions")
        ctx.raises(lambda: F(n), w + f + " out of range")
        ctx.raises(lambda: F(-1), w + f + " negative")


def q_adj(t, p, ctx, w):
    C = gen.children(p)
    n = len(p)
    for v in range(n):
        a = sorted(C[v] + ([p[v]] if v != n - 1 else []))
        ctx.eq(sorted(int(x) for x in t.adjacent_vertices(v)), a, w + "adjacent_vertices(%d)" % v)
        ctx.eq(sorted(tuple(int(y) for y in e) for e in t.out_edges(v)), sorted((v, x, min(v, x)) for x in a), w + "out_edges(%d)" % v)
        ctx.eq(sorted(tuple(int(y) for y in e) for e in t.in_edges(v)), sorted((x, v, min(v, x)) for x in a), w + "in_edges(%d)" % v)
    for f in (t.adjacent_vertices, t.out_edges, t.in_edges, t.children, t.parent, t.ancestors, t.is_leaf, t.num_children):
        ctx.raises(lambda: f(n), w + "out of range")
        ctx.raises(lambda: f(-1), w + "negative")


def q_edges(t, p, ctx, w):
    n = len(p)
    E = [(i, p[i], i) for i in range(n - 1)]
    ctx.eq([tuple(int(y) for y in e) for e in t.edges()], E, w + "edges()")
    ctx.eq([tuple(int(y) for y in t.edge_from_index(i)) for i in range(n - 1)], E, w + "edge_from_index")
    s, d = t.edge_list()
    ctx.eq(list(zip(ints(s), ints(d))), [e[:2] for e in E], w + "edge_list")
    ctx.eq(ints(t.sources()), list(range(n - 1)), w + "sources")
    ctx.eq(ints(t.targets()), list(p[:-1]), w + "targets")
    ctx.eq([int(v) for v in t.vertices()], list(range(n)), w + "vertices()")
    for e in t.edges():
        ctx.eq((t.source(e), t.target(e), t.index(e)), tuple(e), w + "edge accessors")
    ctx.raises(lambda: t.edge_from_index(n - 1), w + "edge_from_index too large")
    L = gen.num_leaves(p)
    g = t.to_undirected_graph()
    ctx.eq((g.num_vertices(), list(zip(*map(ints, g.edge_list())))), (n, [e[:2] for e in E]), w + "to_undirected_graph")
    g = t.to_undirected_graph(include_leaves=False)
    ctx.eq((g.num_vertices(), list(zip(*map(ints, g.edge_list())))), (n - L, [(a - L, b - L) for a, b, _ in E[L:]]), w + "to_undirected_graph(False)")


def q_parents(t, p, ctx, w):
    n, L = len(p), gen.num_leaves(p)
    ctx.eq(ints(t.parents()), list(p), w + "parents")
    ctx.eq([int(t.parent(v)) for v in range(n)], list(p), w + "parent")
    ctx.eq([bool(t.is_leaf(v)) for v in range(n)], [v < L for v in range(n)], w + "is_leaf")
    ctx.eq([int(v) for v in t.leaves()], list(range(L)), w + "leaves")
    for dt in ("int32", "uint32", "int64", "uint64"):
        vs = np.arange(n - 1, -1, -1).astype(dt)
        ctx.eq(ints(t.parent(vs)), [p[v] for v in reversed(range(n))], w + "parent(array %s)" % dt)
        ctx.eq([bool(x) for x in t.is_leaf(vs)], [v < L for v in reversed(range(n))], w + "is_leaf(array)")
    for f in (t.parent, t.is_leaf):
        ctx.raises(lambda: f(np.array([0, n])), w + "array out of range")
        ctx.raises(lambda: f(np.array([-1, 0])), w + "array negative")
    for v in range(n):
        ctx.eq(ints(t.ancestors(v)), gen.ancestors(p, v), w + "ancestors(%d)" % v)
    for il in (True, False):
        for ir in (True, False):
            want = [v for v in range(n) if (il or v >= L) and (ir or v != n - 1)]
            ctx.eq([int(v) for v in itertools.islice(t.leaves_to_root_iterator(il, ir), 3 * n)], want, w + "leaves_to_root(%s,%s)" % (il, ir))
            ctx.eq([int(v) for v in itertools.islice(t.root_to_leaves_iterator(il, ir), 3 * n)], want[::-1], w + "root_to_leaves(%s,%s)" % (il, ir))


def q_lca(t, p, ctx, w):
    n = len(p)
    want = [gen.lca(p, a, b) for a in range(n) for b in range(n)]
    ctx.eq([int(t.lowest_common_ancestor(a, b)) for a in range(n) for b in range(n)], want, w + "lca")
    A, B = np.repeat(np.arange(n), n), np.tile(np.arange(n), n)
    ctx.eq(ints(t.lowest_common_ancestor(A, B)), want, w + "lca arrays")
    ctx.raises(lambda: t.lowest_common_ancestor(n, 0), w + "lca out of range")
    ctx.raises(lambda: t.lowest_common_ancestor(0, -1), w + "lca negative")
    ctx.raises(lambda: t.lowest_common_ancestor(np.array([0, n]), np.array([0, 0])), w + "lca array out of range")
    ctx.raises(lambda: t.lowest_common_ancestor(np.array([0, 0]), np.array([0])), w + "lca arrays of different sizes")


def q_subtree(t, p, ctx, w):
    n = len(p)
    for r in range(n):
        nodes = [v for v in range(n) if r in gen.ancestors(p, v)]
        ix = {v: i for i, v in enumerate(nodes)}
        st, nm = t.sub_tree(r)
        ctx.eq(ints(nm), nodes, w + "sub_tree(%d) node map" % r)
        ctx.eq(ints(st.parents()), [ix[p[v]] if v != r else ix[r] for v in nodes], w + "sub_tree(%d)" % r)


def q_region(t, p, ctx, w, alts=None):
    n = len(p)
    for alt in (alts or [tuple(gen.depth(p)[-1] - d for d in gen.depth(p))]):
        for dt in ("float64", "int32"):
            a = np.asarray(alt, dtype=dt)
            for lam in sorted(set(alt)) + [min(alt) - 1, max(alt) + 1]:
                want = []
                for v in range(n):
                    r = v
                    for x in gen.ancestors(p, v):
                        if alt[x] < lam:
                            r = x
                    want.append(r)
                ctx.eq([int(t.find_region(v, lam, a)) for v in range(n)], want, w + "find_region(., %s, %r)" % (lam, alt))
                ctx.eq(ints(t.find_region(np.arange(n), lam, a)), want, w + "find_region(array, scalar)")
                ctx.eq(ints(t.find_region(np.arange(n), np.full(n, lam, dtype=dt), a)), want, w + "find_region(array, array)")


def q_pickle(t, p, ctx, w):
    for name in ("foo",):
        hg.set_attribute(t, name, np.arange(3))
    t.bar = "x"
    u = pickle.loads(pickle.dumps(t))
    ctx.eq(ints(u.parents()), list(p), w + "pickle: parents")
    ctx.eq(str(u.category()), str(t.category()), w + "pickle: category")
    ctx.eq((ints(hg.get_attribute(u, "foo")), u.bar), ([0, 1, 2], "x"), w + "pickle: attributes")
    ctx.eq([sorted(ints(u.children(v))) for v in range(len(p))], gen.children(p), w + "pickle: children")


Q = {"children": q_children, "degree": q_degree, "adjacent": q_adj, "edges": q_edges, "parents": q_parents, "lca": q_lca,
     "sub_tree": q_subtree, "find_region": q_region, "pickle": q_pickle}
CHANGE = {"compute": lambda t: t._compute_children(), "clear": lambda t: t.clear_children()}


def relations(case, ctx):
    """Every query on a fresh tree, and after every history of up to 3 children-list operations."""
    p, cat, H = case
    p = tuple(p)
    ctx.state((p, cat))
    category = hg.TreeCategory.PartitionTree if cat == "p" else hg.TreeCategory.ComponentTree
    for q in Q:
        for hist in itertools.chain(*[itertools.product(CHANGE, repeat=h) for h in range(H + 1)]):
            t = hg.Tree(np.asarray(p), category)
            for op in hist:
                CHANGE[op](t)
                ctx.op()
            Q[q](t, p, ctx, "%s after %s: " % (p, "/".join(hist) or "nothing"))
            ctx.op()
    # two queries on the same object, in every order
    for q1, q2 in itertools.permutations(Q, 2):
        t = hg.Tree(np.asarray(p), category)
        Q[q1](t, p, ctx, "%s: " % (p,))
        t.clear_children() if q1 in ("children", "edges") else None
        Q[q2](t, p, ctx, "%s after %s: " % (p, q1))
        ctx.op(2)
    ctx.eq(t.category() == category, True, "category")
    ctx.outcome(tuple(map(tuple, gen.children(p))))


def relation_cases(nmax, H):
    def g():
        for p in gen.trees(nmax):
            yield [p, "p" if sum(p) % 2 else "c", H]
    return g


def region_case(case, ctx):
    p = tuple(case)
    t = hg.Tree(np.asarray(p))
    ctx.state(p)
    q_region(t, p, ctx, "", [a for a in gen.mono_altitudes(p, [0, 1, 2])])
    ctx.op()


def once(*x):
    return lambda: iter([list(x)])


def big_cases():
    for n in (10, 33, 64):
        yield gen.star_tree(n)
        yield gen.chain_tree(n)
        yield gen.caterpillar_tree(n)
        yield gen.balanced_tree(n)
        for k in range(3):
            yield gen.scattered_tree(n, n // 2, k)


def big_case(p, ctx):
    p = tuple(p)
    ctx.state(p)
    for q in Q:
        t = hg.Tree(np.asarray(p))
        Q[q](t, p, ctx, "tree of %d nodes: " % len(p))
        ctx.op()


def groups(tier):
    qk = tier == "quick"
    return [Group("acceptance", accept_cases(5 if qk else 6), accept, "all arrays of at most %d entries with values in -1..n" % (5 if qk else 6)),
            Group("acceptance-shape", once(0), misc_accept),
            Group("relations", relation_cases(6 if qk else 7, 2 if qk else 3), relations, "all trees of at most %d nodes, all queries, all children-list histories of length %d" % (6 if qk else 7, 2 if qk else 3)),
            Group("regions", lambda: gen.trees(5 if qk else 6), region_case, "all trees, all altitudes in {0,1,2} non decreasing"),
            Group("large", big_cases, big_case, "star, chain, caterpillar, balanced, irregular trees of 10 to 129 nodes", limit=60)]
