"""C06: tree accumulators and propagators against their recurrences: all trees, all small data, all accumulators, conditions and types."""
import itertools
import math
from fractions import Fraction
import numpy as np
import higra as hg
from vf.core import Group, Violation
from vf import gen, acc
from vf.util import ints, mk_tree

ID = "C06"
ASSUMPTIONS = ["all trees of at most 6 nodes (thorough: 7); no overflow of the value type",
               "values are computed in the type of the data (integer mean is rounded toward zero); first and last of no value are unspecified",
               "argmin and argmax are only specified for scalar data and signed types"]

COMB = {"add": lambda a, b: a + b, "multiply": lambda a, b: a * b, "min": min, "max": max}


def parallel(p, x, name, dt):
    ch = gen.children(p)
    return [acc.value(name, [x[c] for c in ch[i]], dt) for i in range(len(p))]


def sequential(p, leaf, name, dt, comb=None, node=None):
    ch, nl = gen.children(p), gen.num_leaves(p)
    out = []
    for i in range(len(p)):
        if i < nl:
            out.append(leaf[i])
        else:
            v = acc.value(name, [out[c] for c in ch[i]], dt)
            out.append(v if comb is None else COMB[comb](node[i], v))
    return out


def prop_acc(p, x, name, dt, cond):
    n = len(p)
    out = [None] * n
    for i in reversed(range(n)):
        if not cond[i]:
            out[i] = x[i]
        elif i == n - 1:
            out[i] = acc.value(name, [x[i]], dt)
        else:
            out[i] = acc.value(name, [out[p[i]], x[i]], dt)
    return out


def prop_seq(p, x, cond):
    n = len(p)
    out = [None] * n
    for i in reversed(range(n)):
        out[i] = out[p[i]] if cond[i] and i != n - 1 else x[i]
    return out


def compare(got, want, dt, ctx, what):
    got = np.asarray(got)
    ctx.op()
    ctx.compared += 1
    if got.dtype != np.dtype(dt) or got.shape != (len(want),):
        raise Violation("%s: result of type %s and shape %s" % (what, got.dtype, got.shape))
    for i, (g, w) in enumerate(zip(got.tolist(), want)):
        if w is None:
            continue
        w = acc.num(w)
        if g != w and not (isinstance(w, float) and math.isfinite(w) and abs(g - w) <= (1e-9 if dt == "float64" else 1e-5) * max(1, abs(w))):
            raise Violation("%s: node %d is %r, expected %r (all: %r)" % (what, i, g, w, got.tolist()))


def two_trees(p):
    """The same tree before and after its children lists are computed (two code paths)."""
    a, b = mk_tree(p), mk_tree(p)
    b.compute_children() if hasattr(b, "compute_children") else b.children(len(p) - 1)
    return (("", a), (" (children computed)", b))


def check_all(p, x, dt, ctx, trees, names, what):
    n, nl = len(p), gen.num_leaves(p)
    xa = np.array(x, dtype=dt)
    la = xa[:nl].copy()
    leaf2 = [v + 1 for v in x[:nl]]
    l2 = np.array(leaf2, dtype=dt)
    for tn, t in trees:
        for name in names:
            a = acc.acc(name)
            w = "%s%s %s %s %r" % (what, tn, name, dt, x)
            compare(hg.accumulate_parallel(t, xa, a), parallel(p, x, name, dt), dt, ctx, "accumulate_parallel " + w)
            compare(hg.accumulate_sequential(t, la, a), sequential(p, x[:nl], name, dt), dt, ctx, "accumulate_sequential " + w)
            for c in COMB:
                f = getattr(hg, "accumulate_and_%s_sequential" % c)
                compare(f(t, xa, l2, a), sequential(p, leaf2, name, dt, c, x), dt, ctx, "accumulate_and_%s_sequential %s" % (c, w))


def small_data(case, ctx):
    p, vals = tuple(case[0]), case[1]
    trees = two_trees(p)
    for x in itertools.product(vals, repeat=len(p)):
        ctx.state((p, x))
        check_all(p, list(x), "float64", ctx, trees, acc.NAMES, "%r" % (p,))
        w = parallel(p, list(x), "sum", "float64")
        ctx.outcome(tuple(w))


def generic(n, dt):
    """Data sets which distinguish the nodes from each other, in the range of the type."""
    ds = [list(range(1, n + 1)), list(range(n, 0, -1)), [1 + (3 * i + 2) % (n + 1) for i in range(n)]]
    if np.dtype(dt).kind != "u":
        ds.append([(-1) ** i * (i % 3) for i in range(n)])
    if np.dtype(dt).kind == "f":
        ds.append([i / 4 - 1 for i in range(n)])
    return ds


def types(case, ctx):
    p, dt = tuple(case[0]), case[1]
    n, nl = len(p), gen.num_leaves(p)
    ctx.state((p, dt))
    names = acc.NAMES if np.dtype(dt).kind != "u" else acc.NAMES[:-2]
    for x in generic(n, dt):
        # products and sums have to stay within the type
        if dt in ("int8", "uint8"):
            x = [v % 3 if v > 0 else v for v in x]
        nm = [k for k in names if k != "prod" or n < 6 or dt not in ("int8", "uint8")]
        check_all(p, x, dt, ctx, two_trees(p), nm, "%r" % (p,)) if not (dt in ("int8", "uint8") and n > 5) else None
    # vectorial data: each component on its own, counter gives one number per node
    base = [[1 + (3 * i + 2 * j) % 5 for j in range(6)] for i in range(n)]
    for shape in ((1,), (2,), (6,), (2, 3)):
        k = int(np.prod(shape))
        X = np.array([r[:k] for r in base], dtype=dt).reshape((n,) + shape)
        for tn, t in two_trees(p):
            for name in ("min", "max", "mean", "sum", "first", "last", "prod", "counter"):
                if name == "prod" and n > 4:
                    continue
                a = acc.acc(name)
                w = "%s of %r%s %s data of shape %r" % (name, p, tn, dt, X.shape)
                r = np.asarray(hg.accumulate_parallel(t, X, a))
                if name == "counter":
                    compare(r, parallel(p, [0] * n, name, dt), dt, ctx, "accumulate_parallel " + w)
                    continue
                cols = {}
                cols["accumulate_parallel"] = (r, lambda x: parallel(p, x, name, dt))
                cols["accumulate_sequential"] = (hg.accumulate_sequential(t, X[:nl].copy(), a), lambda x: sequential(p, x[:nl], name, dt))
                for c in COMB:
                    if c == "multiply" and n > 4:
                        continue
                    cols["accumulate_and_%s_sequential" % c] = (getattr(hg, "accumulate_and_%s_sequential" % c)(t, X, X[:nl].copy(), a),
                                                                lambda x, c=c: sequential(p, x[:nl], name, dt, c, x))
                if n <= 4 or name != "sum":
                    cols["propagate_sequential_and_accumulate"] = (hg.propagate_sequential_and_accumulate(t, X, a), lambda x: prop_acc(p, x, name, dt, [1] * n))
                for f, (got, model) in cols.items():
                    got = np.asarray(got)
                    ctx.eq(got.shape, X.shape, "%s %s: shape" % (f, w))
                    g2 = got.reshape(n, k)
                    for j in range(k):
                        compare(g2[:, j], model([r[j] for r in base]), dt, ctx, "%s %s component %d" % (f, w, j))
    ctx.outcome((p, dt))


def propagate(case, ctx):
    p = tuple(case[0])
    n = len(p)
    trees = two_trees(p)
    for x in case[1]:
        dt = "float64"
        xa = np.array(x, dtype=dt)
        X = np.stack((xa, -xa, xa * 2), axis=1)
        for tn, t in trees[:1]:
            w0 = "%r data %r" % (p, x)
            compare(hg.propagate_parallel(t, xa), [x[p[i]] for i in range(n)], dt, ctx, "propagate_parallel " + w0)
            ctx.eq(np.asarray(hg.propagate_parallel(t, X)), X[list(p)], "propagate_parallel vectorial " + w0)
            for name in acc.NAMES:
                compare(hg.propagate_sequential_and_accumulate(t, xa, acc.acc(name)), prop_acc(p, x, name, dt, [1] * n), dt, ctx,
                        "propagate_sequential_and_accumulate %s %s" % (name, w0))
            for bits in range(1 << n):
                cond = [(bits >> i) & 1 for i in range(n)]
                ca = np.array(cond, dtype=bool)
                w = w0 + " condition %r" % (cond,)
                ctx.state((p, tuple(x), bits))
                seq = prop_seq(p, x, cond)
                par = [x[p[i]] if cond[i] else x[i] for i in range(n)]
                compare(hg.propagate_sequential(t, xa, ca), seq, dt, ctx, "propagate_sequential " + w)
                compare(hg.propagate_parallel(t, xa, ca), par, dt, ctx, "propagate_parallel " + w)
                ctx.outcome((tuple(seq), tuple(par)))
                if bits % 3 == 0:
                    ctx.eq(np.asarray(hg.propagate_sequential(t, X, ca)), np.stack((seq, [-v for v in seq], [2 * v for v in seq]), axis=1), "propagate_sequential vectorial " + w)
                    ctx.eq(np.asarray(hg.propagate_parallel(t, X, ca)), np.stack((par, [-v for v in par], [2 * v for v in par]), axis=1), "propagate_parallel vectorial " + w)
                for name in ("sum", "min", "max", "mean", "prod", "first", "last", "counter"):
                    compare(hg.propagate_sequential_and_accumulate(t, xa, acc.acc(name), ca), prop_acc(p, x, name, dt, cond), dt, ctx,
                            "propagate_sequential_and_accumulate %s %s" % (name, w))


def refusals(case, ctx):
    p = tuple(case)
    n, nl = len(p), gen.num_leaves(p)
    t = mk_tree(p)
    A = hg.Accumulators.sum
    good, lgood = np.zeros(n), np.zeros(nl)
    ctx.state(p)
    for k in (0, 1, n - 1, n + 1, 2 * n):
        if k != n:
            b = np.zeros(k)
            ctx.raises(lambda: hg.accumulate_parallel(t, b, A), "accumulate_parallel with %d values for %r" % (k, p))
            ctx.raises(lambda: hg.propagate_parallel(t, b), "propagate_parallel with %d values for %r" % (k, p))
            ctx.raises(lambda: hg.propagate_sequential(t, b, np.zeros(n, dtype=bool)), "propagate_sequential with %d values for %r" % (k, p))
            ctx.raises(lambda: hg.propagate_sequential(t, good, np.zeros(k, dtype=bool)), "propagate_sequential with %d conditions for %r" % (k, p))
            ctx.raises(lambda: hg.propagate_parallel(t, good, np.zeros(k, dtype=bool)), "propagate_parallel with %d conditions for %r" % (k, p))
            ctx.raises(lambda: hg.propagate_sequential_and_accumulate(t, b, A), "propagate_sequential_and_accumulate with %d values for %r" % (k, p))
            ctx.raises(lambda: hg.accumulate_and_add_sequential(t, b, lgood, A), "accumulate_and_add_sequential with %d node values for %r" % (k, p))
        if k != nl:
            b = np.zeros(k)
            ctx.raises(lambda: hg.accumulate_sequential(t, b, A), "accumulate_sequential with %d leaf values for %r" % (k, p))
            ctx.raises(lambda: hg.accumulate_and_max_sequential(t, good, b, A), "accumulate_and_max_sequential with %d leaf values for %r" % (k, p))
    ctx.outcome(nl)


def shaped_leaves(case, ctx):
    """Leaf data given in the shape of the grid graph the hierarchy is built on."""
    h, w = case
    ctx.state((h, w))
    n = h * w
    g = hg.get_4_adjacency_graph((h, w))
    wts = [(5 * i) % 7 for i in range(g.num_edges())]
    t, _ = hg.bpt_canonical(g, np.array(wts, dtype=np.float64))
    p = tuple(ints(t.parents()))
    x = [(7 * i + 3) % 11 for i in range(n)]
    node = [(3 * i + 1) % 5 for i in range(len(p))]
    for name in acc.NAMES:
        a = acc.acc(name)
        for d in (np.array(x, dtype=np.float64).reshape(h, w), np.array(x, dtype=np.float64)):
            compare(hg.accumulate_sequential(t, d, a), sequential(p, x, name, "float64"), "float64", ctx, "accumulate_sequential of leaf data %r" % (d.shape,))
            for c in COMB:
                compare(getattr(hg, "accumulate_and_%s_sequential" % c)(t, np.array(node, dtype=np.float64), d, a), sequential(p, x, name, "float64", c, node), "float64", ctx,
                        "accumulate_and_%s_sequential of leaf data %r" % (c, d.shape))
    X = np.stack((np.array(x), np.array(x) * 3), axis=1).astype(np.float64).reshape(h, w, 2)
    got = np.asarray(hg.accumulate_sequential(t, X, hg.Accumulators.max))
    ctx.eq(got, np.stack((sequential(p, x, "max", "float64"), sequential(p, [3 * v for v in x], "max", "float64")), axis=1), "accumulate_sequential of vectorial leaf data")
    ctx.outcome(p)


def larger(case, ctx):
    """Larger trees: nodes with many children, long chains, every node with its own value."""
    p, dt = tuple(case[0]), case[1]
    n, nl = len(p), gen.num_leaves(p)
    ctx.state((p, dt))
    names = ("min", "max", "mean", "counter", "sum", "first", "last") + (() if dt[0] == "u" else ("argmin", "argmax"))
    for x in ([(7 * i + 3) % (n + 1) for i in range(n)], [n - i for i in range(n)]):
        if dt[0] != "u":
            x = [v - n // 3 for v in x]
        xa = np.array(x, dtype=dt)
        X = np.stack((xa, xa[::-1], xa), axis=1)
        for tn, t in two_trees(p):
            w = "%r%s %s %r" % (p, tn, dt, x)
            for name in names:
                a = acc.acc(name)
                compare(hg.accumulate_parallel(t, xa, a), parallel(p, x, name, dt), dt, ctx, "accumulate_parallel %s %s" % (name, w))
                if name == "mean" and dt[0] != "f":
                    continue
                compare(hg.accumulate_sequential(t, xa[:nl].copy(), a), sequential(p, x[:nl], name, dt), dt, ctx, "accumulate_sequential %s %s" % (name, w))
                for c in ("add", "min", "max"):
                    compare(getattr(hg, "accumulate_and_%s_sequential" % c)(t, xa, xa[:nl].copy(), a), sequential(p, x[:nl], name, dt, c, x), dt, ctx, "accumulate_and_%s_sequential %s %s" % (c, name, w))
            for name in ("max", "sum", "min"):
                g = np.asarray(hg.accumulate_parallel(t, X, acc.acc(name)))
                for j, col in enumerate((x, x[::-1], x)):
                    compare(g[:, j], parallel(p, col, name, dt), dt, ctx, "accumulate_parallel of 3 components %s %s" % (name, w))
        for k in range(5):
            cond = [(i * (k + 1) + i // (k + 2)) % 3 != 0 for i in range(n)] if k else [True] * n
            ca = np.array(cond, dtype=bool)
            w = "%r %s %r condition %r" % (p, dt, x, cond)
            compare(hg.propagate_sequential(t, xa, ca), prop_seq(p, x, cond), dt, ctx, "propagate_sequential " + w)
            compare(hg.propagate_parallel(t, xa, ca), [x[p[i]] if cond[i] else x[i] for i in range(n)], dt, ctx, "propagate_parallel " + w)
            for name in ("min", "max", "first", "last", "counter") + (("sum",) if dt[-2:] == "64" else ()):
                compare(hg.propagate_sequential_and_accumulate(t, xa, acc.acc(name), ca), prop_acc(p, x, name, dt, cond), dt, ctx, "propagate_sequential_and_accumulate %s %s" % (name, w))
    ctx.outcome((n, nl))


def infinite(case, ctx):
    """Data with infinite values."""
    p = tuple(case)
    n = len(p)
    for x in itertools.product((-np.inf, 1.0, np.inf), repeat=n):
        ctx.state((p, x))
        x = list(x)
        for dt in ("float64", "float32"):
            for name in ("min", "max", "first", "last", "argmin", "argmax"):
                for tn, t in two_trees(p):
                    what = "%r%s %s %s %r" % (p, tn, name, dt, x)
                    a, xa = acc.acc(name), np.array(x, dtype=dt)
                    compare(hg.accumulate_parallel(t, xa, a), parallel(p, x, name, dt), dt, ctx, "accumulate_parallel " + what)
                    compare(hg.accumulate_sequential(t, xa[:gen.num_leaves(p)].copy(), a), sequential(p, x[:gen.num_leaves(p)], name, dt), dt, ctx, "accumulate_sequential " + what)
                compare(hg.propagate_sequential_and_accumulate(t, xa, a), prop_acc(p, x, name, dt, [1] * n), dt, ctx, "propagate_sequential_and_accumulate " + what)
    ctx.outcome(p)


def groups(tier):
    deep = tier != "quick"
    nmax = 7 if deep else 6

    def small():
        for p in gen.trees(4):
            yield [p, [-1, 0, 2, 3] if len(p) < 4 or deep else [-1, 0, 2]]
        for p in gen.trees(5 if not deep else 6, nmin=5):
            yield [p, [-1, 2]]

    def prop():
        for p in gen.trees(nmax):
            n = len(p)
            yield [p, [[1.0 + 3 * i for i in range(n)], [float((5 * i + 2) % (n + 1)) - 1 for i in range(n)]]]
    return [Group("small", small, small_data, "all trees of at most 4 nodes with all data over 3 or 4 values, 5 nodes with 2 values"),
            Group("types", lambda: ([p, dt] for p in gen.trees(nmax - 1) for dt in acc.TYPES), types, "all trees of at most %d nodes, all numeric types, scalar and vectorial" % (nmax - 1)),
            Group("propagate", prop, propagate, "all trees of at most %d nodes, all conditions" % nmax),
            Group("larger", lambda: [[p, dt] for p in gen.large_trees() for dt in ("float64", "int32", "float32", "uint16")] +
                  [[p, dt] for p in (gen.star_tree(300), gen.scattered_tree(620, 590, 1)) for dt in ("float64", "int32")], larger, "stars, chains, caterpillars, balanced and scattered trees of 10 to 64 nodes, 4 types; two trees of 300 and 620 nodes"),
            Group("infinite", lambda: gen.trees(4 if not deep else 5), infinite, "all trees of at most %d nodes with all data over -inf, 1, inf" % (5 if deep else 4)),
            Group("refusals", lambda: gen.trees(5), refusals),
            Group("shaped", lambda: ([h, w] for h in range(1, 4) for w in range(1, 4) if h * w > 1), shaped_leaves)]
