"""Exhaustive enumerators of small structures (deterministic; smallest first)."""
import itertools
from functools import lru_cache


@lru_cache(None)
def trees_exact(n, chains=True, unlabelled=False):
    """All valid parent arrays with n nodes: topological order, leaves first.
    chains=False: no node with a single child."""
    if n == 1:
        return ((0,),)
    out = []
    for tail in itertools.product(*[range(i + 1, n) for i in range(n - 1)]):
        p = tail + (n - 1,)
        nc = [0] * n
        for i in range(n - 1):
            nc[p[i]] += 1
        L = next(i for i in range(n) if nc[i])
        if any(nc[i] == 0 for i in range(L, n)):
            continue
        if not chains and any(nc[i] == 1 for i in range(L, n)):
            continue
        out.append(p)
    return tuple(out)


def trees(nmax, chains=True, nmin=1):
    for n in range(nmin, nmax + 1):
        yield from trees_exact(n, chains)


@lru_cache(None)
def hierarchies(nleaves, binary=False):
    """All trees with nleaves leaves without single-child nodes (every internal node has >= 2 children),
    all topological orders of the internal nodes."""
    out = []
    for n in range(nleaves + 1 if nleaves > 1 else 1, 2 * nleaves):
        for p in (hier_exact(nleaves, n)):
            if binary and n != 2 * nleaves - 1:
                continue
            out.append(p)
    return tuple(out)


@lru_cache(None)
def hier_exact(L, n):
    if L == 1 and n == 1:
        return ((0,),)
    out = []
    # parent of leaf in internal nodes L..n-1 ; parent of internal i in i+1..n-1
    for ptail in itertools.product(*[range(i + 1, n) for i in range(L, n - 1)]):
        base = [0] * n
        for x in ptail:
            base[x] += 1
        for lead in itertools.product(range(L, n), repeat=L):
            nc = list(base)
            for x in lead:
                nc[x] += 1
            if all(nc[i] >= 2 for i in range(L, n)):
                out.append(tuple(lead) + ptail + (n - 1,))
    return tuple(out)


def num_leaves(p):
    n = len(p)
    if n == 1:
        return 1
    inner = set(p[:-1])
    return min(inner)


def children(p):
    c = [[] for _ in p]
    for i in range(len(p) - 1):
        c[p[i]].append(i)
    return c


def leaf_sets(p):
    n, L = len(p), num_leaves(p)
    s = [set() for _ in range(n)]
    for i in range(L):
        s[i].add(i)
    for i in range(n - 1):
        s[p[i]] |= s[i]
    return [frozenset(x) for x in s]


def ancestors(p, v):
    a = [v]
    while p[v] != v:
        v = p[v]
        a.append(v)
    return a


def lca(p, a, b):
    A = set(ancestors(p, a))
    while b not in A:
        b = p[b]
    return b


def depth(p):
    d = [0] * len(p)
    for i in range(len(p) - 2, -1, -1):
        d[i] = d[p[i]] + 1
    return d


# ----- structured families of large trees ---------------------------------------------------
def chain_tree(n):
    """A single leaf under a chain."""
    return tuple(list(range(1, n)) + [n - 1])


def star_tree(n):
    return tuple([n - 1] * n)


def caterpillar_tree(leaves):
    p = [0] * (2 * leaves - 1)
    for i in range(leaves):
        p[i] = leaves + max(i - 1, 0)
    for j in range(leaves - 1):
        p[leaves + j] = min(leaves + j + 1, 2 * leaves - 2)
    return tuple(p)


def balanced_tree(leaves):
    level = list(range(leaves))
    p = {}
    nxt = leaves
    while len(level) > 1:
        new = []
        for i in range(0, len(level) - 1, 2):
            p[level[i]] = nxt
            p[level[i + 1]] = nxt
            new.append(nxt)
            nxt += 1
        if len(level) % 2:
            if len(new) > 0:
                new.append(level[-1])
        level = new
    p[level[0]] = level[0]
    return tuple(p[i] for i in range(nxt))


def lcg(seed):
    s = seed * 2654435761 % 2 ** 32
    while True:
        s = (1664525 * s + 1013904223) % 2 ** 32
        yield s >> 8


def scattered_tree(n, L, k):
    """A fixed, irregular tree: member k of a deterministic family."""
    r = lcg(k * 7919 + n)
    par = [0] * n
    need = list(range(L, n))
    for i in range(n - 1):
        lo = max(i + 1, L)
        par[i] = lo + next(r) % min(n - lo, 1 + 3 * (k + 1))
    par[n - 1] = n - 1
    # guarantee that every internal node has a child
    nc = [0] * n
    for i in range(n - 1):
        nc[par[i]] += 1
    for j in range(L, n):
        if nc[j] == 0:
            for i in range(j):
                if nc[par[i]] > 1 and par[i] > i:
                    nc[par[i]] -= 1
                    par[i] = j
                    nc[j] += 1
                    break
            else:
                return chain_tree(n)
    return tuple(par)


def large_trees(sizes=(10, 17, 33, 64)):
    """Structured and scattered trees of larger sizes."""
    for n in sizes:
        yield star_tree(n)
        yield chain_tree(n)
        yield caterpillar_tree(n // 2)
        yield balanced_tree(n // 2)
        for k in range(3):
            yield scattered_tree(n, n // 2, k)


# ----- graphs --------------------------------------------------------------------------------
def pairs(n, loops=False):
    return [(i, j) for i in range(n) for j in range(i if loops else i + 1, n)]


def multigraphs(n, mmax, loops=True, ordered=False, mmin=0):
    """All multigraphs on n vertices with at most mmax edges (edge lists).
    ordered=False: edge lists up to permutation; ordered=True: all orders."""
    ps = pairs(n, loops)
    for m in range(mmin, mmax + 1):
        if m and not ps:
            return
        it = itertools.product(ps, repeat=m) if ordered else itertools.combinations_with_replacement(ps, m)
        for es in it:
            yield list(es)


def simple_graphs(n):
    ps = pairs(n)
    for mask in range(1 << len(ps)):
        yield [ps[i] for i in range(len(ps)) if mask >> i & 1]


def components(n, edges):
    """Canonical labels of connected components."""
    lab = list(range(n))

    def f(x):
        while lab[x] != x:
            x = lab[x]
        return x

    for a, b in edges:
        a, b = f(a), f(b)
        if a != b:
            lab[max(a, b)] = min(a, b)
    return [f(x) for x in range(n)]


def connected(n, edges):
    return n > 0 and len(set(components(n, edges))) == 1


def connected_multigraphs(n, mmax, loops=True, mmin=0):
    for es in multigraphs(n, mmax, loops, mmin=mmin):
        if connected(n, es):
            yield es


@lru_cache(None)
def weak_orders(m):
    """All weight vectors of length m up to order isomorphism (ranks 0..k-1, all used)."""
    out = []
    for w in itertools.product(range(m), repeat=m):
        s = set(w)
        if s == set(range(len(s))):
            out.append(w)
    return tuple(out)


@lru_cache(None)
def set_partitions(n):
    """Restricted growth strings."""
    if n == 0:
        return ((),)
    out = []

    def rec(a, m):
        if len(a) == n:
            out.append(tuple(a))
            return
        for x in range(m + 1):
            rec(a + [x], max(m, x + 1))

    rec([0], 1)
    return tuple(out)


def canon_labels(lab):
    m = {}
    return tuple(m.setdefault(int(x), len(m)) for x in lab)


def grid_edges(h, w, adj=4):
    nb = [(0, 1), (1, 0)] if adj == 4 else [(0, 1), (1, -1), (1, 0), (1, 1)]
    es = []
    for i in range(h):
        for j in range(w):
            for di, dj in nb:
                a, b = i + di, j + dj
                if 0 <= a < h and 0 <= b < w:
                    es.append((i * w + j, a * w + b))
    return es


def mono_altitudes(p, values, strict=False, leaf0=None):
    """All assignments of `values` (ascending list) to nodes, non decreasing towards the root."""
    n = len(p)
    L = num_leaves(p)
    k = len(values)
    out = [0] * n

    def rec(i):
        if i < 0:
            yield tuple(values[x] for x in out)
            return
        if i < L and leaf0 is not None:
            out[i] = leaf0
            yield from rec(i - 1)
            return
        if i == n - 1:
            rng = range(k)
        else:
            rng = range(out[p[i]] + (0 if strict else 1)) if strict else range(out[p[i]] + 1)
        for x in rng:
            out[i] = x
            yield from rec(i - 1)

    yield from rec(n - 1)


def scaled(values, dtype, k):
    """The same order on other numbers: every other time, reals that only differ by 2**-60 and integers beyond the precision of a double (0 stays 0)."""
    if k % 2 == 0:
        return list(values)
    if dtype == "float64":
        return [x * 2.0 ** -60 for x in values]
    if dtype in ("int64", "uint64"):
        return [x and (1 << 61) + x if x > 0 else -(1 << 61) + x if x else 0 for x in values]
    return list(values)
