"""All small trees through the structural attributes, and all small trees with all small monotone altitudes (both directions, several
numeric types) through the altitude based ones, against their definitions over leaf sets, ancestors and extrema."""
import itertools
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints

ID = "C20"
ASSUMPTIONS = ["Altitudes are monotone, attributes given to the extinction value are increasing (preconditions); when several minima have the same altitude "
               "any total order between them is accepted.",
               "Sums of leaf areas fit in the type of the given areas (the type of the result)."]

TYPES_U = ("uint8", "float64", "int32", "uint16", "float32", "int64", "uint64", "int8", "uint32", "int16")
TYPES_S = ("float64", "int8", "int32", "float32", "int64", "int16")


def num(a):
    """Plain Python numbers."""
    return [x.item() for x in np.asarray(a).ravel()]


def close(ctx, got, want, what, atol=1e-6):
    ctx.compared += 1
    got, want = np.asarray(got), np.asarray(want, dtype="float64")
    if got.shape != want.shape or not np.allclose(got.astype("float64"), want, rtol=1e-5, atol=atol, equal_nan=True):
        raise Violation("%s: got %r, expected %r" % (what, got.tolist(), want.tolist()))


def structure(case, ctx):
    p = tuple(case)
    n, L = len(p), gen.num_leaves(p)
    ctx.state(p)
    ch, ls = gen.children(p), gen.leaf_sets(p)
    k = sum(p) + n
    t = mk_tree(p, "pc"[k % 2])
    what = "tree %r:" % (p,)
    ctx.op(12)
    dep = gen.depth(p)
    ctx.eq(ints(hg.attribute_depth(t)), list(dep), what + " depth")
    if n > 1:
        close(ctx, hg.attribute_regular_altitudes(t), [0 if i < L else 1 - dep[i] / max(dep) for i in range(n)], what + " regular altitudes")
    th = [0] * n
    for i in range(L, n):
        th[i] = 1 + max(th[c] for c in ch[i])
    ctx.eq(ints(hg.attribute_topological_height(t)), th, what + " topological height")
    ctx.eq(ints(hg.attribute_child_number(t)), [ch[p[i]].index(i) if i != n - 1 else -1 for i in range(n)], what + " child number")
    for skip in range(-3, 5):
        want = [ch[p[i]][(ch[p[i]].index(i) + skip) % len(ch[p[i]])] if i != n - 1 else n - 1 for i in range(n)]
        ctx.eq(ints(hg.attribute_sibling(t, skip)), want, what + " sibling with a skip of %d" % skip)
    ctx.eq(ints(hg.attribute_sibling(t)), [ch[p[i]][(ch[p[i]].index(i) + 1) % len(ch[p[i]])] if i != n - 1 else n - 1 for i in range(n)], what + " sibling")
    ctx.eq([sorted(int(x) for x in l) for l in hg.attribute_vertex_list(t)], [sorted(s) for s in ls], what + " vertex list")
    ctx.eq(num(hg.attribute_area(t)), [len(s) for s in ls], what + " area")
    r = gen.lcg(k)
    for q, dt in enumerate(("uint8", "float64", "int32", "float32")):
        w = [next(r) % (250 // L + 1) for _ in range(L)]
        t2 = mk_tree(p, "cp"[q % 2])
        W = np.array(w, dtype=dt)
        w2 = what + " leaf values %r (%s):" % (w, dt)
        ctx.eq(num(hg.attribute_area(t2, W)), [sum(w[x] for x in s) for s in ls], w2 + " area")
        close(ctx, hg.attribute_mean_vertex_weights(t2, W), [sum(w[x] for x in s) / len(s) for s in ls], w2 + " mean")
        ar = np.array([1 + next(r) % 4 for _ in range(n)])
        close(ctx, hg.attribute_mean_vertex_weights(t2, W, area=ar), [sum(w[x] for x in s) / ar[i] for i, s in enumerate(ls)], w2 + " mean with areas %r" % (ar,))
        m, v = hg.attribute_gaussian_region_weights_model(t2, W)
        close(ctx, m, [np.mean([w[x] for x in s]) for s in ls], w2 + " mean of the Gaussian model")
        close(ctx, v, [np.var([w[x] for x in s]) for s in ls], w2 + " variance of the Gaussian model", 0.05)
    for d in (1, 2, 3):
        w = np.array([[next(r) % 20 for _ in range(d)] for _ in range(L)], dtype=("float64", "uint8", "int32", "float32")[(k + d) % 4])
        t2 = mk_tree(p)
        w2 = what + " leaf values %r (%s):" % (w.tolist(), w.dtype)
        f = w.astype("float64")
        close(ctx, hg.attribute_mean_vertex_weights(t2, w), [f[list(s)].mean(axis=0) for s in ls], w2 + " mean")
        m, v = hg.attribute_gaussian_region_weights_model(t2, w)
        close(ctx, m, [f[list(s)].mean(axis=0) for s in ls], w2 + " mean of the Gaussian model")
        close(ctx, v, [np.cov(f[list(s)].T, bias=True).reshape(d, d) if len(s) > 1 else np.zeros((d, d)) for s in ls], w2 + " covariance of the Gaussian model", 0.01)
    for shape in ((), (2,), (1,), (2, 2), (3,)):
        for dt in ("int64", "float64", "uint16"):
            w = np.array([next(r) % 9 for _ in range(n * int(np.prod(shape, dtype=int)))], dtype=dt).reshape((n,) + shape)
            want = np.zeros(w.shape)
            for i in range(L, n):
                for a, b in itertools.combinations(ch[i], 2):
                    want[i] += w[a].astype("float64") * w[b]
            ctx.op()
            close(ctx, hg.attribute_children_pair_sum_product(t, w), want, what + " children pair sum product of %r (%s)" % (w.tolist(), dt))
    for q in range(3):
        es = [(next(r) % L, next(r) % L) for _ in range(next(r) % 6)]
        g = mk_graph(L, es)
        ctx.eq(ints(hg.attribute_lca_map(mk_tree(p), g)), [gen.lca(p, a, b) for a, b in es], what + " lca map of the edges %r" % es)


def extrema_of(p, L, alt):
    """Non leaf nodes of constant altitude (leaves excluded) whose parent, if any, has another altitude."""
    n = len(p)
    flat = [True] * n
    for i in range(L, n - 1):
        flat[p[i]] = flat[p[i]] and flat[i] and alt[i] == alt[p[i]]
    return [i >= L and flat[i] and (i == n - 1 or alt[i] != alt[p[i]]) for i in range(n)]


def extinctions(p, L, alt, att, ext, inc):
    """All extinction values allowed by the definition: one for each total order of the minima."""
    n = len(p)
    anc = [gen.ancestors(p, i) for i in range(n)]
    mins = [i for i in range(n) if ext[i]]
    key = {m: alt[m] if inc else -alt[m] for m in mins}
    groups = {}
    for m in mins:
        groups.setdefault(key[m], []).append(m)
    for perm in itertools.product(*[itertools.permutations(groups[v]) for v in sorted(groups)]):
        order = [m for g in perm for m in g]
        val = {}
        for j, m in enumerate(order):
            top = n - 1
            chain = list(anc[m])     # from m to the root
            for a, b in zip(chain, chain[1:]):
                if any(b in anc[q] for q in order[:j]):
                    top = a
                    break
            val[m] = att[top]
        res = []
        for i in range(n):
            if i < L:
                mm = [m for m in mins if m in anc[i]]
                res.append(val[mm[0]] if mm else 0)
            else:
                res.append(max([val[m] for m in mins if i in anc[m]], default=0))
        yield res


def altitude(case, ctx):
    p, alt, inc = tuple(case[0]), list(case[1]), case[2]
    n, L = len(p), gen.num_leaves(p)
    ctx.state((p, tuple(alt), inc))
    k = hash((p, tuple(alt)))
    types = TYPES_U if min(alt) >= 0 else TYPES_S
    dt = types[case[3] % len(types)]
    alt = gen.scaled(alt, dt, case[3] // len(types)) if dt == "float64" else alt
    A = np.array(alt, dtype=dt)
    t = mk_tree(p, "pc"[case[3] % 2])
    ch, ls = gen.children(p), gen.leaf_sets(p)
    what = "tree %r, %s altitudes %r (%s):" % (p, "increasing" if inc else "decreasing", alt, dt)
    modes = ("increasing", True) if inc else ("decreasing", False)
    ctx.op(8)
    vol = [0.0] * n
    for i in range(L, n):
        vol[i] = len(ls[i]) * abs(alt[i] - alt[p[i]]) + sum(vol[c] for c in ch[i])
    close(ctx, hg.attribute_volume(t, A), vol, what + " volume")
    area = np.array([(i * 7 + case[3]) % 5 for i in range(n)], dtype="uint8" if case[3] % 2 else "float64")
    lv = np.array([i + 1 for i in range(L)], dtype="float64" if case[3] % 3 else "int32")
    for i in range(n):
        vol[i] = float(lv[i]) if i < L else float(area[i]) * abs(alt[i] - alt[p[i]]) + sum(vol[c] for c in ch[i])
    close(ctx, hg.attribute_volume(t, A, area, lv), vol, what + " volume with areas %r and leaf volumes %r" % (area.tolist(), lv.tolist()))
    ext = extrema_of(p, L, alt)
    ctx.eq([bool(x) for x in hg.attribute_extrema(t, A)], ext, what + " extrema")
    # deepest non leaf node
    deep = list(alt)
    for i in range(L, n):
        inner = [deep[c] for c in ch[i] if c >= L] + [alt[i]]
        deep[i] = min(inner) if inc else max(inner)
    hp = [abs(alt[p[i]] - deep[i]) if i >= L else 0 for i in range(n)]
    hc = [abs(alt[i] - deep[i]) if i >= L else 0 for i in range(n)]
    auto = ("auto",) if n > L and any(alt[i] != alt[n - 1] for i in range(L, n)) else ()
    att = list(hp)
    for mode in modes[:1 + case[3] % 2] + auto:
        ctx.eq(num(hg.attribute_height(t, A, mode)), hp, what + " height (%s)" % mode)
        ctx.eq(num(hg.attribute_height(t, A, mode, "parent")), hp, what + " height (%s)" % mode)
        ctx.eq(num(hg.attribute_height(t, A, mode, "current")), hc, what + " height with the current altitude as reference (%s)" % mode)
        got = num(hg.attribute_dynamics(t, A, mode))
        allowed = list(extinctions(p, L, alt, hp, ext, inc))
        ctx.ok(got in allowed, what + " dynamics (%s) %r, expected %s" % (mode, got, allowed[:3]))
        ctx.outcome(tuple(got))
    at2 = [0] * n
    for i in range(n):
        at2[i] = (i % 3 == 0) + max([at2[c] for c in ch[i]], default=0) + (i * 5 + case[3]) % 3
    adt = ("int64", "float64", "uint8", "float32")[case[3] % 4]
    for mode in modes[:1] + auto:
        got = num(hg.attribute_extinction_value(t, A, np.array(at2, dtype=adt), mode))
        allowed = list(extinctions(p, L, alt, at2, ext, inc))
        ctx.ok(got in allowed, what + " extinction values of %r (%s, %s) %r, expected %s" % (at2, adt, mode, got, allowed[:3]))
    ctx.raises(lambda: hg.attribute_extinction_value(t, A, np.array(at2), "decr"), what + " unknown mode")


def enclosing(case, ctx):
    p, q = tuple(case[0]), tuple(case[1])
    ctx.state((p, q))
    n, L = len(p), gen.num_leaves(p)
    ls, ls2 = gen.leaf_sets(p), gen.leaf_sets(q)
    ctx.op()
    got = ints(hg.attribute_smallest_enclosing_shape(mk_tree(p), mk_tree(q)))
    want = [i if i < L else min(j for j in range(len(q)) if ls[i] <= ls2[j] and (j >= L or len(ls[i]) == 1)) for i in range(n)]
    ctx.eq(got, want, "smallest shape of %r enclosing the nodes of %r" % (q, p))


def groups(tier):
    deep = tier != "quick"

    def trees():
        for p in gen.trees(9 if deep else 7):
            yield list(p)
        if not deep:
            for i, p in enumerate(gen.trees_exact(8)):
                if i % 8 == 0:
                    yield list(p)
        for q in range(300 if deep else 40):
            yield list(gen.scattered_tree(12 + q % 30, 5 + q % 9, q))
        for m in (2, 9, 17):
            yield list(gen.chain_tree(m))
            yield list(gen.star_tree(m))
            yield list(gen.caterpillar_tree(m))
            yield list(gen.balanced_tree(m))

    def alts():
        k = 0
        for n in range(2, 7):
            for p in gen.trees_exact(n):
                L = gen.num_leaves(p)
                for vals in ([0, 1, 2],) if n > 5 else ([0, 1, 2], [0, 100, 120], [-3, 0, 2]):
                    for a in gen.mono_altitudes(p, vals):
                        k += 1
                        if n == 6 and not deep and k % 3:
                            continue
                        yield [list(p), list(a), True, k]
                        yield [list(p), [vals[0] + vals[-1] - x for x in a], False, k + k // 7]
        for n in (7, 8) if deep else (7,):
            for j, p in enumerate(gen.trees_exact(n)):
                L = gen.num_leaves(p)
                for i, a in enumerate(gen.mono_altitudes(p, [0, 1, 2, 3], leaf0=0)):
                    k += 1
                    if (i + j) % ((1 if n == 7 else 9) if deep else 12) == 0:
                        yield [list(p), list(a), True, k]
                        yield [list(p), [3 - x for x in a], False, k + k // 7]
        for q in range(1500 if deep else 200):
            p = gen.scattered_tree(10 + q % 12, 4 + q % 6, q)
            r = gen.lcg(q)
            n, L = len(p), gen.num_leaves(p)
            a = [0] * n
            a[n - 1] = 12
            for i in range(n - 2, -1, -1):
                a[i] = max(0, a[p[i]] - next(r) % 4)
            m = sum(extrema_of(p, L, a))
            if m <= 5:
                yield [list(p), a, True, q]
                yield [list(p), [12 - x for x in a], False, q + q // 3]

    def enc():
        for L in range(1, 5):
            ts = [p for p in gen.trees(L + (3 if deep else 2)) if gen.num_leaves(p) == L]
            for p in ts:
                for q in ts:
                    yield [list(p), list(q)]
    gs = [Group("structure", trees, structure, "all trees of at most %d nodes, larger ones" % (9 if deep else 7), limit=20),
          Group("altitudes", alts, altitude, "all trees of at most %d nodes with all monotone altitudes over three values, both directions" % 6, limit=20)]
    if hasattr(hg, "attribute_smallest_enclosing_shape"):
        gs.append(Group("enclosing shapes", enc, enclosing, "all pairs of trees on the same leaves"))
    return gs
