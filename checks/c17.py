"""All altitudes (bounded values) on all small trees through the three regressions, against every feasible pooling of the nodes, and the
optimality conditions (multipliers of the order constraints) on larger trees."""
import itertools
from fractions import Fraction as F
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_tree, ints

ID = "C17"
ASSUMPTIONS = ["Altitudes have no NaN, weights of the least square mode are strictly positive."]


def pooled(p, y, w):
    """Least square increasing altitudes: best of all the feasible poolings of adjacent nodes."""
    n = len(p)
    best = None
    for mask in itertools.product((0, 1), repeat=n - 1):
        rep = list(range(n))
        for i in reversed(range(n - 1)):
            if mask[i]:
                rep[i] = rep[p[i]]
        s, t = [F(0)] * n, [F(0)] * n
        for i in range(n):
            s[rep[i]] += w[i] * y[i]
            t[rep[i]] += w[i]
        x = [s[rep[i]] / t[rep[i]] for i in range(n)]
        if all(x[i] <= x[p[i]] for i in range(n)):
            c = sum(w[i] * (y[i] - x[i]) ** 2 for i in range(n))
            if best is None or c < best[0]:
                best = (c, x)
    return best[1]


def regress(ctx, t, p, y, w, dt, wt, what, small=True):
    n = len(p)
    ch = gen.children(p)
    A = np.array(y, dtype=dt)
    keep = A.copy()
    mn = [min(A[a] for a in gen.ancestors(p, i)) for i in range(n)]
    mx = list(A)
    for i in range(n):
        mx[i] = max([A[i]] + [mx[c] for c in ch[i]])
    ctx.op(3)
    for mode, want in (("min", mn), ("max", mx)):
        r = hg.tree_monotonic_regression(t, A, mode)
        ctx.eq(np.asarray(r).tolist(), [x.item() for x in want], what + " mode " + mode)
        ctx.ok(np.asarray(r).dtype == A.dtype, what + " type of the result of mode %s: %s" % (mode, np.asarray(r).dtype))
    for W in ([None, w] if w is not None else [None]):
        wn = [F(1)] * n if W is None else [F(x) for x in W]
        r = hg.tree_monotonic_regression(t, A, "least_square", *([] if W is None else [np.array(W, dtype=wt)]))
        r = np.asarray(r)
        ctx.eq(r.shape, (n,), what + " shape of least_square")
        x = r.tolist()
        scale = max(1.0, max(abs(float(v)) for v in y))
        for i in range(n):
            ctx.ok(x[i] <= x[p[i]] + 1e-9 * scale, what + " least_square weights %r: %r is not increasing" % (W, x))
        lam = [0.0] * n
        for i in range(n):
            lam[i] = float(wn[i]) * (float(y[i]) - x[i]) + sum(lam[c] for c in ch[i])
        tot = scale * float(sum(wn))
        ctx.ok(abs(lam[n - 1]) <= 1e-9 * tot and all(v >= -1e-9 * tot for v in lam)
               and all(v <= 1e-9 * tot or abs(x[i] - x[p[i]]) <= 1e-9 * scale for i, v in enumerate(lam)),
               what + " least_square weights %r: %r does not meet the optimality conditions (multipliers %r)" % (W, x, lam))
        if small:
            ctx.eq(x, [float(v) for v in pooled(p, [F(v) for v in y], wn)], what + " least_square weights %r" % (W,))
    ctx.eq(A, keep, what + " the altitudes were modified")
    ctx.outcome(tuple(x))


def small(case, ctx):
    p, vals, stride, k = tuple(case[0]), case[1], case[2], case[3]
    n = len(p)
    t = mk_tree(p, "pc"[k % 2])
    for y in itertools.product(vals, repeat=n):
        k += 1
        if k % stride:
            continue
        ctx.state((p, y))
        dt = ("float64", "int32", "uint8", "float32", "int64", "int8")[k % 6] if min(y) >= 0 else ("float64", "int16", "float32")[k % 3]
        w = [1 + (i * 7 + k) % 4 for i in range(n)]
        regress(ctx, t, p, y, w if k % 2 else None, dt, ("float64", "int32", "float32")[k % 3], "tree %r, altitudes %r (%s):" % (p, y, dt), n <= 5)


def large(case, ctx):
    p, seed = tuple(case[0]), case[1]
    n = len(p)
    r = gen.lcg(seed)
    y = [next(r) % (3 + seed % 40) for _ in range(n)]
    if seed % 3 == 0:
        y = y[::-1] if seed % 2 else sorted(y, reverse=True)
    w = [1 + next(r) % 5 for _ in range(n)]
    ctx.state((p, tuple(y)))
    regress(ctx, mk_tree(p), p, y, w, ("float64", "int32")[seed % 2], "float64", "tree %r, altitudes %r:" % (p, y), False)


def refused(case, ctx):
    p = tuple(case)
    n = len(p)
    t = mk_tree(p)
    ctx.state(p)
    one = np.ones(n)
    f = hg.tree_monotonic_regression
    for mode in ("", "Min", "leastsquare", "mean"):
        ctx.raises(lambda: f(t, one, mode), "mode %r" % mode)
    for mode in ("min", "max", "least_square"):
        for m in (n + 1, n - 1, 2 * n):
            if m != n:
                ctx.raises(lambda: f(t, np.ones(m), mode), "%d altitudes for %r, mode %s" % (m, p, mode))
        ctx.raises(lambda: f(t, np.ones((n, 2)), mode), "2d altitudes for %r, mode %s" % (p, mode))
    for m in (n + 1, n - 1, 2 * n):
        if m not in (n, 0):
            ctx.raises(lambda: f(t, one, "least_square", np.ones(m)), "%d weights for %r" % (m, p))
    ctx.raises(lambda: f(t, one, "least_square", np.ones((n, 2))), "2d weights for %r" % (p,))


def groups(tier):
    deep = tier != "quick"

    def sm():
        for n in range(1, 7):
            for k, p in enumerate(gen.trees_exact(n)):
                if n < 5:
                    yield [p, [0, 1, 2, 4], 1, k]
                    yield [p, [-3, 0, 5], 1, k]
                elif n == 5:
                    yield [p, [0, 1, 3], 1 if deep else 5, k]
                else:
                    yield [p, [0, 1, 2, 5], 13 if deep else 401, k]

    def lg():
        for q in range(1500 if deep else 150):
            L = 3 + q % 20
            yield [gen.scattered_tree(L + 1 + q % L, L, q), q]
        for q in range(12):
            yield [gen.chain_tree(20), q]
            yield [gen.star_tree(20), q]
            yield [gen.caterpillar_tree(15), q]
            yield [gen.balanced_tree(16), q]

    def rf():
        for n in range(1, 5):
            yield from gen.trees_exact(n)
    return [Group("small trees", sm, small, "all trees of at most 4 nodes with all altitudes in {0,1,2,4} and {-3,0,5}; 5 nodes in {0,1,3}%s; 6 nodes with a fixed stride" % ("" if deep else " (one in five)")),
            Group("large trees", lg, large, "%d trees of 4 to 45 nodes" % ((1500 if deep else 150) + 48)),
            Group("refusals", rf, refused, "wrong modes, sizes and dimensions on all trees of at most 4 nodes")]
