"""C26: All short arrays of all numeric types and layouts for the sorting functions, all small multigraphs and vertex values for weightings, sub-graphs and line graphs, all small symmetric
matrices, binary trees, shapes, type tuples and point sets for the conversions, against definitions written over python lists."""
import itertools
import math
from fractions import Fraction
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints, edges_of

ID = "C26"
ASSUMPTIONS = ["Arrays to sort hold no NaN; the order of equal elements is only specified for the stable functions.",
               "Adjacency matrices describe simple graphs with self loops: parallel edges cannot be represented; non edge values are comparable values of the type of the matrix (no NaN).",
               "Delaunay triangulations: distinct points which are not all aligned; k nearest neighbours: any choice among equal distances is accepted."]

INTS = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
ALL = ("bool",) + INTS + ("float32", "float64")


def pool(dt, small=False):
    if dt == "bool":
        return (False, True)
    if dt.startswith("float"):
        return (0.5, -1.0, 2.0) if small else (0.0, -1.5, 0.25, float("inf"), -float("inf"))
    i = np.iinfo(dt)
    return (0, 1, int(i.max)) if small else (0, 1, int(i.min) if i.min else 2, int(i.max), int(i.max) - 1)


def layouts(a):
    """The same values in several memory layouts; gives (name, base, view)."""
    yield "contiguous", a.copy()
    for name, f in (("reversed", lambda x: x[::-1]), ("strided", lambda x: x[1::2]), ("reversed strided", lambda x: x[::-2])):
        if a.ndim == 1:
            base = np.full(2 * len(a) + 3, a.dtype.type(1), dtype=a.dtype)
            view = base[:len(a)][::-1] if name == "reversed" else base[1:1 + 2 * len(a):2] if name == "strided" else base[2 * len(a):0:-2]
        else:
            base = np.full((2 * a.shape[0] + 3, 2 * a.shape[1] + 3), a.dtype.type(1), dtype=a.dtype)
            n, m = a.shape
            view = base[:n, :m][::-1, ::-1] if name == "reversed" else base[1:1 + 2 * n:2, 1:1 + 2 * m:2] if name == "strided" else base[2 * n:0:-2, :m]
        view[...] = a
        yield name, view
    if a.ndim == 2:
        yield "fortran", np.asfortranarray(a)


def key(x):
    return tuple(x) if isinstance(x, (list, tuple, np.ndarray)) else x


def sorting(case, ctx):
    dt, n, dim, first = case
    p = pool(dt, dim > 0)
    for rest in itertools.product(p, repeat=n * max(dim, 1) - len(first)):
        v = tuple(first) + rest
        ctx.state((dt, dim, v))
        a = np.array(v, dtype=dt).reshape((n, dim) if dim else (n,))
        rows = a.tolist()
        want = sorted(range(n), key=lambda i: key(rows[i]))
        sv = [rows[i] for i in want]
        for name, view in layouts(a):
            what = "%s array %r (%s)" % (dt, rows, name)
            ctx.op(2)
            r = hg.arg_sort(view, stable=True)
            ctx.eq(ints(r), want, what + ": stable argument sort")
            r = ints(hg.arg_sort(view))
            ctx.ok(sorted(r) == list(range(n)) and [rows[i] for i in r] == sv, what + ": argument sort gives %r" % (r,))
            ctx.ok(view.tolist() == rows, what + ": modified by an argument sort")
            if dim == 0:
                for stable in (False, True):
                    w = view if stable else view.copy()
                    if not stable:
                        base = np.zeros(2 * n, dtype=dt)
                        w = base[::2]
                        w[...] = a
                    ctx.op()
                    try:
                        hg.sort(w, stable=stable)
                    except TypeError:
                        if dt == "bool":       # refused
                            continue
                        raise
                    ctx.ok(w.tolist() == sv and w.dtype == np.dtype(dt), what + ": sort (stable=%r) gives %r" % (stable, w.tolist()))
                    if not stable:
                        ctx.ok(not base[1::2].any(), what + ": sort writes outside the array")
        ctx.outcome((dt, tuple(want)))
    if first == [p[0]] and n:
        a = np.array([p[-1]] * n + [p[0]], dtype=dt)
        a.setflags(write=False)
        for stable in (False, True):
            ctx.raises(lambda: hg.sort(a, stable), "sort of a read-only array of %s" % dt)
            for bad in ([2, 1], (2, 1), np.array([2, 1], dtype="float16"), np.array([2, 1], dtype=">i4"), np.zeros((2, 2, 2), dtype=dt), np.array(["b", "a"])):
                b = bad.copy() if isinstance(bad, np.ndarray) else bad
                try:
                    hg.sort(b, stable)
                except Exception:
                    continue
                ctx.ok(list(b) == sorted(b), "sort of %r (%s): accepted and left unsorted" % (bad, getattr(bad, "dtype", "sequence")))


WF = ("mean", "min", "max", "L0", "L1", "L2", "L_infinity", "L2_squared", "source", "target")


def weight(f, x, y):
    """x, y: tuples of numbers."""
    if f == "mean":
        return (x[0] + y[0]) / 2
    if f in ("min", "max"):
        return min(x[0], y[0]) if f == "min" else max(x[0], y[0])
    if f in ("source", "target"):
        return x[0] if f == "source" else y[0]
    d = [abs(float(a) - float(b)) for a, b in zip(x, y)]
    if f == "L0":
        return 0 if tuple(x) == tuple(y) else 1
    return {"L1": sum(d), "L2": math.sqrt(sum(e * e for e in d)), "L2_squared": sum(e * e for e in d), "L_infinity": max(d)}[f]


def weights(case, ctx):
    n, edges, dt = case[0], [tuple(e) for e in case[1]], case[2]
    p = (0, 1, 5) if dt != "bool" else (0, 1)
    if dt.startswith("float"):
        p = (0.5, -2.0, 3.25)
    elif dt.startswith("int"):
        p = (-3, 0, 5)
    elif dt.startswith("uint"):
        p = (0, 2, 7)
    g = mk_graph(n, edges)
    for shape in ((), (1,), (2,), (1, 2)):
        k = int(np.prod(shape)) if shape else 1
        it = itertools.product(p, repeat=n * k) if n * k <= 4 else itertools.islice(itertools.product(p, repeat=n * k), 0, None, 7)
        for v in it:
            ctx.state((n, tuple(edges), shape, v))
            a = np.array(v, dtype=dt).reshape((n,) + shape)
            rows = a.reshape((n, k)).tolist()
            for f in WF:
                what = "%s on graph (%d, %r) with vertex weights %r (%s)" % (f, n, edges, a.tolist(), dt)
                if shape and f in ("mean", "min", "max", "source", "target"):
                    ctx.raises(lambda: hg.weight_graph(g, a, getattr(hg.WeightFunction, f)), what)
                    continue
                ctx.op()
                r = hg.weight_graph(g, a, getattr(hg.WeightFunction, f))
                ctx.eq(np.asarray(r), [float(weight(f, rows[s], rows[t])) for s, t in edges], what)
                ctx.outcome((f, tuple(np.asarray(r).tolist())))
    ctx.raises(lambda: hg.weight_graph(g, np.zeros(n + 1, dtype=dt), hg.WeightFunction.L1), "weights of %d vertices for a graph of %d" % (n + 1, n))


def tree_weights(case, ctx):
    p = tuple(case)
    n = len(p)
    t = mk_tree(p)
    for v in itertools.product((0.0, 2.5, 4.0), repeat=n):
        ctx.state((p, v))
        a = np.array(v)
        for f in WF:
            ctx.op()
            r = hg.weight_graph(t, a, getattr(hg.WeightFunction, f))
            ctx.eq(np.asarray(r), [float(weight(f, (v[i],), (v[p[i]],))) for i in range(n - 1)], "%s on the tree %r with %r" % (f, p, v))
    ctx.outcome(p)


def canon(e):
    return (min(e), max(e))


def matrices(case, ctx):
    """Symmetric matrices given by their upper triangle."""
    n, dt, first = case
    import scipy.sparse as sp
    idx = [(i, j) for i in range(n) for j in range(i, n)]
    vals = {"float64": (0, 1.5, -2.0), "float32": (0, 1.5, -2.0), "int64": (0, 3, -2), "uint8": (0, 1, 255), "bool": (0, 1)}[dt]
    for rest in itertools.product(vals, repeat=len(idx) - len(first)):
        up = tuple(first) + rest
        ctx.state((n, dt, up))
        M = np.zeros((n, n), dtype=dt)
        for (i, j), v in zip(idx, up):
            M[i, j] = M[j, i] = v
        for nev in (0,) if dt == "bool" else (0, 1.5, -2.0, float("inf")) if dt.startswith("float") else (0, 3) if dt == "int64" else (0, 255):
            want = [(e, v) for e, v in zip(idx, up) if v != nev]
            forms = [("dense", M), ("fortran", np.asfortranarray(M)), ("reversed", M[::-1, ::-1].copy()[::-1, ::-1])]
            if nev == 0 and n:
                forms += [("csr", sp.csr_matrix(M)), ("csc", sp.csc_matrix(M)), ("coo", sp.coo_matrix(M))]
                if dt != "bool":
                    z = sp.csr_matrix(M)
                    forms.append(("csr with explicit zeros", sp.csr_matrix((np.concatenate((z.data, np.zeros(2, dtype=dt))),
                                                                            (np.concatenate((z.nonzero()[0], [0, n - 1])), np.concatenate((z.nonzero()[1], [n - 1, 0])))), shape=(n, n))
                                  if z.nnz == len(z.data) else z))
            for form, A in forms:
                what = "%s matrix %r (%s), non edge value %r" % (form, M.tolist(), dt, nev)
                before = A.toarray() if form not in ("dense", "fortran", "reversed") else A.copy()
                ctx.op()
                g, w = hg.adjacency_matrix_2_undirected_graph(A, nev)
                ctx.ok(g.num_vertices() == n, what + ": %d vertices" % g.num_vertices())
                ctx.eq(sorted(zip(map(canon, edges_of(g)), np.asarray(w).tolist())), sorted(zip((e for e, _ in want), np.array([v for _, v in want], dtype=dt).tolist())), what + ": edges and weights")
                ctx.ok(w.dtype == np.dtype(dt), what + ": type of the weights %s" % w.dtype)
                after = A.toarray() if form not in ("dense", "fortran", "reversed") else A
                ctx.ok(np.array_equal(before, after), what + ": the matrix was modified")
                # and back
                ctx.op()
                B = hg.undirected_graph_2_adjacency_matrix(g, w, non_edge_value=nev, sparse=False)
                ctx.ok(B.dtype == M.dtype and np.array_equal(B, M), what + ": round trip (dense) gives %r" % B.tolist())
                if nev == 0:
                    ctx.op()
                    B = hg.undirected_graph_2_adjacency_matrix(g, w)
                    ctx.ok(sp.issparse(B) and B.dtype == M.dtype and np.array_equal(B.toarray(), M), what + ": round trip (sparse) gives %r" % B.toarray().tolist())
        g, w = hg.adjacency_matrix_2_undirected_graph(M)
        C = np.array(M != 0, dtype="float64")
        for s in (False, True):
            B = hg.undirected_graph_2_adjacency_matrix(g, sparse=s)
            ctx.eq(B.toarray() if s else B, C, "adjacency matrix (sparse=%r) of the graph of %r without weights" % (s, M.tolist()))
        ctx.raises(lambda: hg.undirected_graph_2_adjacency_matrix(g, w, non_edge_value=1, sparse=True), "sparse matrix with non edge value 1")
        ctx.outcome((n, up))
    ctx.raises(lambda: hg.adjacency_matrix_2_undirected_graph(np.zeros((n, n + 1))), "matrix which is not square")


def subgraphs(case, ctx):
    n, edges = case[0], [tuple(e) for e in case[1]]
    m = len(edges)
    g = mk_graph(n, edges)
    if edges_of(g) != edges:
        raise Violation("graph (%d, %r) holds %r" % (n, edges, edges_of(g)))
    for k in range(m + 1):
        for sel in itertools.permutations(range(m), k):
            for dt in ("int64", "uint8"):
                E = np.array(sel, dtype=dt)
                what = "sub-graph of (%d, %r) induced by the edges %r" % (n, edges, sel)
                ctx.state((n, tuple(edges), sel))
                ctx.op(4)
                s, vm = hg.subgraph(g, E, return_vertex_map=True)
                ctx.ok(s.num_vertices() == n and edges_of(s) == [edges[e] for e in sel] and ints(vm) == list(range(n)), what + " (spanning): %d vertices, edges %r" % (s.num_vertices(), edges_of(s)))
                s = hg.subgraph(g, E)
                ctx.eq(edges_of(s), [edges[e] for e in sel], what + " (spanning, without map)")
                s, vm = hg.subgraph(g, E, spanning=False, return_vertex_map=True)
                vs = sorted({v for e in sel for v in edges[e]})
                ctx.eq(ints(vm), vs, what + ": vertex map")
                ctx.ok(s.num_vertices() == len(vs) and [canon((vs[a], vs[b])) for a, b in edges_of(s)] == [edges[e] for e in sel], what + ": %d vertices, edges %r" % (s.num_vertices(), edges_of(s)))
                s2 = hg.subgraph(g, E, spanning=False)
                ctx.ok(s2.num_vertices() == len(vs) and edges_of(s2) == edges_of(s), what + ": without map")
    for k in range(n + 1):
        for sel in itertools.permutations(range(n), k):
            for form in (list, tuple, lambda x: np.array(x, dtype="int32"), lambda x: np.array(x, dtype="uint64")):
                V = form(sel)
                what = "sub-graph of (%d, %r) induced by the vertices %r" % (n, edges, sel)
                ctx.op(2)
                s, em = hg.vertex_induced_subgraph(g, V, return_edge_map=True)
                keep = [i for i, e in enumerate(edges) if e[0] in sel and e[1] in sel]
                ctx.eq(ints(em), keep, what + ": edge map")
                ctx.ok(s.num_vertices() == k and [canon((sel[a], sel[b])) for a, b in edges_of(s)] == [edges[i] for i in keep], what + ": %d vertices, edges %r" % (s.num_vertices(), edges_of(s)))
                s2 = hg.vertex_induced_subgraph(g, V)
                ctx.ok(s2.num_vertices() == k and edges_of(s2) == edges_of(s), what + ": without map")
    for bad in ([-1], [n], [0, 0], [n, 0]):
        ctx.raises(lambda: hg.vertex_induced_subgraph(g, bad), "vertices %r of a graph of %d vertices" % (bad, n))
    ctx.op()
    lg = hg.line_graph(g)
    want = sorted((i, j) for i in range(m) for j in range(i + 1, m) if set(edges[i]) & set(edges[j]))
    ctx.ok(lg.num_vertices() == m, "line graph of (%d, %r): %d vertices" % (n, edges, lg.num_vertices()))
    ctx.eq(sorted(map(canon, edges_of(lg))), want, "line graph of (%d, %r)" % (n, edges))
    ctx.outcome((m, tuple(want)))


def tree_line(case, ctx):
    p = tuple(case)
    n = len(p)
    t = mk_tree(p)
    ctx.state(p)
    ctx.op()
    lg = hg.line_graph(t)
    e = [(i, p[i]) for i in range(n - 1)]
    want = sorted((i, j) for i in range(n - 1) for j in range(i + 1, n - 1) if set(e[i]) & set(e[j]))
    ctx.ok(lg.num_vertices() == n - 1, "line graph of the tree %r: %d vertices" % (p, lg.num_vertices()))
    ctx.eq(sorted(map(canon, edges_of(lg))), want, "line graph of the tree %r" % (p,))
    ctx.outcome(tuple(want))
    for sparse in (False, True):
        A = hg.undirected_graph_2_adjacency_matrix(t, np.arange(1, n), sparse=sparse) if n > 1 else None
        if A is not None:
            A = A.toarray() if sparse else A
            W = np.zeros((n, n), dtype="int64")
            for i in range(n - 1):
                W[i, p[i]] = W[p[i], i] = i + 1
            ctx.eq(A, W, "adjacency matrix (sparse=%r) of the tree %r" % (sparse, p))


def linkage(case, ctx):
    p = tuple(case)
    n = len(p)
    L = gen.num_leaves(p)
    ls, ch = gen.leaf_sets(p), gen.children(p)
    binary = all(len(ch[i]) == 2 for i in range(L, n))
    for cat, dt, adt in itertools.product("pc", ("float64", "float32", "int64", None), ("int64", "float64", "uint8", None)):
        t = mk_tree(p, cat)
        alt = None if dt is None else np.array([0] * L + [2 * (i - L) + 1 for i in range(L, n)], dtype=dt)
        area = None if adt is None else np.array([1 if i < L else len(ls[i]) + 3 for i in range(n)], dtype=adt)
        what = "tree %r (%s), altitudes %s, area %s" % (p, cat, dt, adt)
        ctx.state((p, cat, dt, adt))
        if not binary:
            ctx.raises(lambda: hg.binary_hierarchy_to_scipy_linkage_matrix(t, alt, area), what + ": linkage of a tree which is not binary")
            continue
        ctx.op(2)
        Z = hg.binary_hierarchy_to_scipy_linkage_matrix(t, alt, area)
        al = alt if alt is not None else hg.attribute_regular_altitudes(t)
        want = [[min(ch[i]), max(ch[i]), float(al[i]), len(ls[i]) + (0 if adt is None else 3)] for i in range(L, n)]
        got = [[min(r[:2]), max(r[:2])] + r[2:] for r in np.asarray(Z).tolist()]
        ctx.eq(np.array(got).reshape((-1, 4)), np.array(want, dtype=float).reshape((-1, 4)), what + ": linkage matrix")
        t2, al2, ar2 = hg.scipy_linkage_matrix_to_binary_hierarchy(Z)
        ctx.eq(ints(t2.parents()), list(p), what + ": tree read back from the linkage matrix")
        ctx.eq(np.asarray(al2), [0.0] * L + [float(al[i]) for i in range(L, n)], what + ": altitudes read back")
        ctx.eq(ints(ar2), [1] * L + [int(w[3]) for w in want], what + ": area read back")
    ctx.outcome(p)


def linkage_rows(case, ctx):
    """All 2 and 3 row matrices of cluster numbers, valid or not."""
    n, first = case
    for rest in itertools.product(range(-1, 2 * n + 2), repeat=2 * n - len(first)):
        c = tuple(first) + rest
        ctx.state(c)
        rows = [c[2 * i:2 * i + 2] for i in range(n)]
        Z = np.array([[a, b, 1.0 + i, 2] for i, (a, b) in enumerate(rows)], dtype="float64")
        valid = all(0 <= x < n + 1 + i for i, r in enumerate(rows) for x in r) and len(set(c)) == 2 * n
        ctx.op()
        if not valid:
            ctx.raises(lambda: hg.scipy_linkage_matrix_to_binary_hierarchy(Z), "linkage matrix merging %r" % (rows,))
            continue
        t, a, ar = hg.scipy_linkage_matrix_to_binary_hierarchy(Z)
        q = [0] * (2 * n + 1)
        q[2 * n] = 2 * n
        for i, r in enumerate(rows):
            for x in r:
                q[x] = n + 1 + i
        ctx.eq(ints(t.parents()), q, "linkage matrix merging %r" % (rows,))
        ctx.outcome(tuple(q))
    for bad in (np.zeros((2, 3)), np.zeros(4), np.zeros((1, 5))):
        ctx.raises(lambda: hg.scipy_linkage_matrix_to_binary_hierarchy(bad), "linkage matrix of shape %r" % (bad.shape,))


def scipy_linkages(case, ctx):
    from scipy.cluster.hierarchy import linkage as sl, cophenet, fcluster
    pts = np.array(case, dtype="float64").reshape((-1, 1))
    n = len(pts)
    for method in ("single", "complete", "average"):
        Z = sl(pts, method)
        ctx.state((tuple(case), method))
        ctx.op(2)
        t, alt, area = hg.scipy_linkage_matrix_to_binary_hierarchy(Z)
        ls = gen.leaf_sets(tuple(ints(t.parents())))
        ctx.eq(ints(area), [len(s) for s in ls], "area of the tree of the %s linkage of %r" % (method, case))
        C = cophenet(Z)
        q = tuple(ints(t.parents()))
        ctx.eq([float(alt[gen.lca(q, i, j)]) for i in range(n) for j in range(i + 1, n)], C.tolist(), "cophenetic distances of the %s linkage of %r" % (method, case))
        Z2 = hg.binary_hierarchy_to_scipy_linkage_matrix(t, alt, area)
        ctx.eq(np.sort(Z2[:, :2], axis=1), np.sort(Z[:, :2], axis=1), "linkage %s of %r after a round trip" % (method, case))
        ctx.eq(Z2[:, 2:], Z[:, 2:], "linkage %s of %r after a round trip" % (method, case))
        ctx.outcome(q)


def shapes(case, ctx):
    shape = tuple(case)
    g = hg.get_nd_regular_graph(shape, [[0] * len(shape)]) if False else hg.UndirectedGraph(int(np.prod(shape)))
    hg.CptGridGraph.link(g, shape)
    plain = hg.UndirectedGraph(int(np.prod(shape)))
    n = int(np.prod(shape))
    for dim in range(0, 5):
        for vs in itertools.product((1, 2, 3, 4, 6), repeat=dim):
            if int(np.prod(vs)) > 64:
                continue
            ctx.state((shape, vs))
            v = np.arange(int(np.prod(vs))).reshape(vs)
            prefix = vs[:len(shape)] == shape
            flat = dim > 0 and vs[0] == n
            for how in ("graph", "shape", "list", "array", "both", "none", "plain"):
                kw = {"graph": {"graph": g}, "shape": {"shape": shape}, "list": {"shape": list(shape)}, "array": {"shape": np.array(shape)}, "both": {"graph": plain, "shape": shape},
                      "none": {}, "plain": {"graph": plain}}[how]
                what = "weights of shape %r, grid of shape %r given by %s" % (vs, shape, how)
                ctx.op(2)
                if how in ("none", "plain"):
                    ctx.ok(hg.linearize_vertex_weights(v, **kw) is v and hg.delinearize_vertex_weights(v, **kw) is v, what + ": returned as is")
                    continue
                if not prefix and not flat:
                    for f in (hg.linearize_vertex_weights, hg.delinearize_vertex_weights):
                        try:
                            r = f(v, **kw)
                        except ValueError:
                            ctx.compared += 1
                            continue
                        except Exception as e:
                            raise Violation("%s: %s raises %s instead of ValueError" % (what, f.__name__, type(e).__name__))
                        raise Violation("%s: %s accepted, shape %r" % (what, f.__name__, r.shape))
                    continue
                lin = (n,) + vs[len(shape):] if prefix else vs
                delin = vs if prefix else shape + vs[1:]
                r = hg.linearize_vertex_weights(v, **kw)
                ctx.ok(r.shape == lin and r.ravel().tolist() == v.ravel().tolist(), what + ": linearized to shape %r" % (r.shape,))
                r = hg.delinearize_vertex_weights(v, **kw)
                ctx.ok(r.shape == delin and r.ravel().tolist() == v.ravel().tolist(), what + ": delinearized to shape %r" % (r.shape,))
                ctx.outcome((lin, delin))


def exact(a, b):
    """All values of type a are values of type b."""
    a, b = np.dtype(a), np.dtype(b)
    if a == b or a == np.dtype("bool"):
        return True
    bits = {"float32": 24, "float64": 53}
    if a.kind == "f":
        return b.kind == "f" and b.itemsize >= a.itemsize
    ia = np.iinfo(a)
    if b.kind == "f":
        return ia.bits <= bits[b.name] if ia.min == 0 else ia.bits - 1 <= bits[b.name]
    if b.kind == "b":
        return False
    ib = np.iinfo(b)
    return ib.min <= ia.min and ia.max <= ib.max


def types(case, ctx):
    first, k = case
    for rest in itertools.product(ALL, repeat=k - 1):
        ts = (first,) + rest
        ctx.state(ts)
        arrays = [np.array([0, 1], dtype=t) for t in ts]
        ctx.op(4)
        r = np.dtype(hg.common_type(*arrays))
        what = "common type of %r: %s" % (ts, r)
        for t in ts:
            # no type of the library holds all the values of 64 bits integers and those of another kind
            loose = t == "uint64" and r == np.dtype("int64") or t in ("int64", "uint64") and r == np.dtype("float64") and any(u.startswith("float") for u in ts)
            ctx.ok(exact(t, r) or loose, what + " does not hold the values of " + t)
        if all(not t.startswith("float") for t in ts):
            ctx.ok(r.kind in "biu", what + " is not integral")
        if len(set(ts)) == 1:
            ctx.ok(r == np.dtype(ts[0]), what)
        if k == 2:
            ok = [t for t in ALL if all(exact(u, t) for u in ts)]
            if ok:
                size = min(np.dtype(t).itemsize for t in ok)
                integral = all(not t.startswith("float") for t in ts)
                ctx.ok(r.itemsize == size or integral and any(t for t in ok if t.startswith("float")) or not integral and r.itemsize == size, what + ": a type of %d bytes is enough" % size)
        for mode in ("minimum", "overflow"):
            r = np.dtype(hg.common_type(*arrays, safety_level=mode))
            c = hg.cast_to_common_type(*arrays, safety_level=mode)
            ctx.ok(len(c) == k and all(x.dtype == r for x in c) and all(x.tolist() == a.tolist() for x, a in zip(c, arrays)), "cast of %r (%s) to their common type" % (ts, mode))
            ctx.ok(all(x is a for x, a in zip(c, arrays) if a.dtype == r), "arrays of the right type are not copied: %r" % (ts,))
            if mode == "overflow":
                ctx.ok(r.kind == "f" and (r.itemsize == 8 or all(t in ("bool", "float32") for t in ts)), "overflow safe type of %r: %s" % (ts, r))
        ctx.outcome((ts, str(r)))
    if k == 1:
        for t in ALL:
            a = np.array([0, 1], dtype=first)
            b = hg.cast_to_dtype(a, np.dtype(t))
            ctx.ok(b.dtype == np.dtype(t) and b.tolist() == a.astype(t).tolist() and ((b is a) == (first == t)), "cast of %s to %s" % (first, t))
        if first == "bool":
            ctx.raises(lambda: hg.dtype_info(np.bool_), "information on the type bool")
        else:
            i = hg.dtype_info(np.dtype(first))
            ctx.ok(i.dtype == np.dtype(first) and isinstance(i, np.iinfo if first in INTS else np.finfo), "information on the type %s" % first)
        ctx.raises(lambda: hg.common_type(np.zeros(1, dtype=first), safety_level="x"), "unknown safety level")


def bijections(case, ctx):
    n, m = case
    for a in itertools.product((0, 1, 2), repeat=n):
        for b in itertools.product((0, 1, 5), repeat=m):
            ctx.state((a, b))
            A, B = np.array(a, dtype="int8"), np.array(b, dtype="float64")
            want = n == m and len(set(zip(a, b))) == len(set(a)) == len(set(b))
            ctx.op()
            ctx.ok(bool(hg.is_in_bijection(A, B)) == want, "bijection between %r and %r" % (a, b))
            if n and n % 2 == 0 and n == m:
                ctx.ok(bool(hg.is_in_bijection(A.reshape((2, -1)), B)) == want, "bijection between %r (2d) and %r" % (a, b))
                ctx.ok(bool(hg.is_in_bijection(np.asfortranarray(A.reshape((2, -1))), B.reshape((-1, 2)))) == want, "bijection between %r (Fortran order) and %r" % (a, b))
            ctx.outcome((n, m, want))


def angles(case, ctx):
    k = case[0]
    vals = [i * math.pi / k for i in range(k + 1)]
    A = np.array([a for a in vals for _ in vals])
    B = np.array([b for _ in vals for b in vals])
    ctx.op()
    r = hg.mean_angle_mod_pi(A, B)
    r32 = hg.mean_angle_mod_pi(A.astype("float32"), B.astype("float32"))
    for i, (a, b) in enumerate(zip(A.tolist(), B.tolist())):
        ctx.state((a, b))
        d = abs(a - b)
        ia, ib = divmod(i, k + 1)
        want = (a + b) / 2
        if 2 * abs(ia - ib) > k:
            want = (a + b) / 2 + math.pi / 2
        got = float(r[i])
        # angles modulo pi; on ties both means are right
        cands = [want] + ([want + math.pi / 2] if 2 * abs(ia - ib) == k else [])
        near = any(abs((got - c + math.pi / 2) % math.pi - math.pi / 2) < 1e-9 for c in cands)
        ctx.ok(near and -1e-12 <= got <= math.pi + 1e-12, "mean angle of %r and %r: %r, expected %r" % (a, b, got, want))
        near = any(abs((float(r32[i]) - c + math.pi / 2) % math.pi - math.pi / 2) < 1e-5 for c in cands)
        ctx.ok(near or 2 * abs(ia - ib) == k, "mean angle (float32) of %r and %r: %r, expected %r" % (a, b, float(r32[i]), want))
    for a in range(4):
        for b in range(4):
            got = hg.mean_angle_mod_pi(np.array([a]), np.array([b]))
            ref = hg.mean_angle_mod_pi(np.array([float(a)]), np.array([float(b)]))
            ctx.eq(got, ref, "mean angle of the integers %d and %d" % (a, b))
    ctx.outcome(k)


def delaunay_edges(pts):
    """(edges of some Delaunay triangulation, edges of all of them)"""
    weak, strong = set(), set()
    n = len(pts)
    for i in range(n):
        for j in range(i + 1, n):
            (x1, y1), (x2, y2) = pts[i], pts[j]
            lo, hi, blocked = None, None, False
            mx, my, dx, dy = Fraction(x1 + x2, 2), Fraction(y1 + y2, 2), x2 - x1, y2 - y1
            nx, ny = -dy, dx          # centre m + t n
            for k in range(n):
                if k in (i, j):
                    continue
                x, y = pts[k]
                # |c - p|^2 >= |c - p1|^2 linear in t:  a t <= b
                a = 2 * (nx * (x - x1) + ny * (y - y1))
                b = (mx - x) ** 2 + (my - y) ** 2 - (mx - x1) ** 2 - (my - y1) ** 2
                if a == 0:
                    blocked |= b < 0
                elif a > 0:
                    hi = b / a if hi is None else min(hi, b / a)
                else:
                    lo = b / a if lo is None else max(lo, b / a)
            if not blocked and (lo is None or hi is None or lo <= hi):
                weak.add((i, j))
                if lo is None or hi is None or lo < hi:
                    strong.add((i, j))
    return weak, strong


def points(case, ctx):
    pts = [tuple(q) for q in case]
    n = len(pts)
    ctx.state(tuple(pts))
    distinct = len(set(pts)) == n
    D = [[math.hypot(a[0] - b[0], a[1] - b[1]) for b in pts] for a in pts]
    D2 = [[(a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 for b in pts] for a in pts]
    allp = {(i, j) for i in range(n) for j in range(i + 1, n)}
    for dt in ("float64", "int64"):
        X = np.array(pts, dtype=dt)

        def build(kind, **kw):
            what = "points %r (%s), graph %s %r" % (pts, dt, kind, kw)
            ctx.op()
            g, w = hg.make_graph_from_points(X, kind, **kw)
            e = [canon(q) for q in edges_of(g)]
            ctx.ok(g.num_vertices() == n and len(set(e)) == len(e) and all(a != b for a, b in e), what + ": %d vertices, edges %r" % (g.num_vertices(), e))
            ctx.eq(np.asarray(w, dtype="float64"), [D[a][b] for a, b in e], what + ": weights of the edges %r" % (e,))
            ctx.outcome((kind, tuple(sorted(e))))
            return set(e), what

        e, what = build("complete")
        ctx.eq(e, allp, what + ": edges")
        # minimal spanning tree: weights
        comp = list(range(n))
        total = []
        for i, j in sorted(allp, key=lambda q: D2[q[0]][q[1]]):
            if comp[i] != comp[j]:
                total.append(D2[i][j])
                comp = [comp[i] if c == comp[j] else c for c in comp]
        for k in range(1, n):
            for sym in ("min", "max"):
                e, what = build("knn", n_neighbors=k, symmetrization=sym)
                must, may = set(), set()
                for i, j in allp:
                    closer = [sorted(D2[a][c] for c in range(n) if c != a) for a in (i, j)]
                    st = [D2[i][j] < c[k] if k < n - 1 else True for c in closer]        # in every choice of k neighbours
                    po = [D2[i][j] <= c[k - 1] for c in closer]
                    if (any if sym == "max" else all)(st):
                        must.add((i, j))
                    if (any if sym == "max" else all)(po):
                        may.add((i, j))
                ctx.ok(must <= e <= may, what + ": edges %r, necessary %r, possible %r" % (sorted(e), sorted(must), sorted(may)))
                e, what = build("knn+mst", n_neighbors=k, symmetrization=sym)
                ctx.ok(len(set(gen.components(n, sorted(e)))) <= 1, what + " is not connected: %r" % sorted(e))
                ctx.ok(must <= e, what + ": edges %r, necessary %r" % (sorted(e), sorted(must)))
                extra = [D2[i][j] for i, j in e - may]
                ctx.ok(len(e - may) <= n - 1 and all(x in total for x in extra), what + ": edges which are neither near nor in a minimum spanning tree: %r" % sorted(e - may))
                if n > 6 and k == 5:
                    ctx.eq([sorted(build("knn", symmetrization=sym)[0]), sorted(build("knn+mst", symmetrization=sym)[0])],
                           [sorted(build("knn", n_neighbors=5, symmetrization=sym)[0]), sorted(e)], what + ": 5 is the default")
        if n > 6:
            ctx.eq(sorted(build("knn+mst", n_neighbors=5)[0]), sorted(build("knn+mst", n_neighbors=5, symmetrization="max")[0]), what + ": max is the default")
        if n > 1:
            ctx.raises(lambda: hg.make_graph_from_points(X, "knn", "other", n_neighbors=1), "unknown symmetrization")
            ctx.raises(lambda: hg.make_graph_from_points(X, "other"), "unknown type of graph")
            e, what = build("mst")
            ctx.eq(sorted(D2[i][j] for i, j in e), sorted(total), what + ": squared weights")
            ctx.ok(len(set(gen.components(n, sorted(e)))) == 1, what + " is not connected")
        aligned = all((b[0] - pts[0][0]) * (c[1] - pts[0][1]) == (b[1] - pts[0][1]) * (c[0] - pts[0][0]) for b in pts for c in pts)
        if distinct and n >= 3 and not aligned:
            weak, strong = delaunay_edges(pts)
            e, what = build("delaunay")
            ctx.ok(strong <= e <= weak, what + ": edges %r, in every triangulation %r, in some %r" % (sorted(e), sorted(strong), sorted(weak)))


def groups(tier):
    th = tier == "thorough"

    def sort_cases():
        for dt in ALL:
            top = 6 if th else 4
            if dt == "bool":
                top += 4
            for n in range(0, top + 1):
                if n < 2:
                    yield [dt, n, 0, []]
                else:
                    for a in pool(dt):
                        yield [dt, n, 0, [a]]
            for n, d in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (2, 3)) + (((4, 2), (3, 3)) if th and dt in ("bool", "int16", "float64") else ()):
                for a in pool(dt, True):
                    yield [dt, n, d, [a]]
            yield [dt, 0, 3, []]
            yield [dt, 3, 0, []] if False else [dt, 0, 1, []]

    def weight_cases():
        for n in (1, 2, 3):
            for e in gen.multigraphs(n, 3 if th else 2):
                for dt in (ALL if n < 3 or th else ("float64", "uint8", "int64")):
                    yield [n, e, dt]

    def ordered(n, mmax):
        p = [(a, b) for a in range(n) for b in range(a, n)]
        for m in range(mmax + 1):
            for e in itertools.product(p, repeat=m):
                yield [n, list(e)]

    def sub_cases():
        for n, m in ((1, 3), (2, 4 if th else 3), (3, 4 if th else 3), (4, 3 if th else 2)):
            yield from ordered(n, m)

    def matrix_cases():
        for dt in ("float64", "float32", "int64", "uint8", "bool"):
            yield [0, dt, []]
            yield [1, dt, []]
            yield [2, dt, []]
            vals = {"float64": (0, 1.5, -2.0), "float32": (0, 1.5, -2.0), "int64": (0, 3, -2), "uint8": (0, 1, 255), "bool": (0, 1)}[dt]
            for f in itertools.product(vals, repeat=2):
                yield [3, dt, list(f)]
            if dt == "bool" or th:
                for f in itertools.product(vals, repeat=4 if dt == "bool" else 5):
                    if dt in ("bool", "float64"):
                        yield [4, dt, list(f)]

    def point_cases():
        grid = [(x, y) for x in range(3) for y in range(3)]
        for n in (1, 2, 3, 4) + ((5, 6) if th else ()):
            for q in itertools.combinations(grid, n):
                yield [list(z) for z in q]
        for q in itertools.combinations([(0, 0), (1, 5), (7, 2), (3, 3), (9, 8), (4, 11), (12, 1)], 5):
            yield [list(z) for z in q]
        yield [[0, 0], [1, 5], [7, 2], [3, 3], [9, 8], [4, 11], [12, 1], [13, 9]]
        for n in (2, 3, 4) + ((5,) if th else ()):
            for q in itertools.combinations_with_replacement([(0, 0), (0, 1), (2, 0), (3, 3)], n):
                if len(set(q)) < n:
                    yield [list(z) for z in q]

    return [
        Group("sort", sort_cases, sorting, "all arrays of length up to %d over 5 values of every numeric type, all 2d arrays up to 3 x 2 and 2 x 3, 5 memory layouts" % (6 if th else 4), limit=120),
        Group("weights", weight_cases, weights, "all multigraphs with up to 3 vertices, 3 values per vertex and component, 10 functions, all numeric types", limit=60),
        Group("tree weights", lambda: (list(p) for p in gen.trees(6 if th else 5)), tree_weights, "all trees with up to %d nodes" % (6 if th else 5)),
        Group("matrices", matrix_cases, matrices, "all symmetric matrices of size up to %d over 3 values, dense and sparse" % (4 if th else 3), limit=120),
        Group("subgraphs", sub_cases, subgraphs, "all edge lists with self loops with up to 4 vertices, all ordered subsets of edges and vertices", limit=60),
        Group("tree line graphs", lambda: (list(p) for p in gen.trees(8 if th else 6)), tree_line, "all trees with up to %d nodes" % (8 if th else 6)),
        Group("linkage", lambda: (list(p) for p in gen.trees(7)), linkage, "all trees with up to 7 nodes, types of altitudes and areas"),
        Group("linkage rows", lambda: [[1, []], [2, []]] + [[3, [a, b]] for a in range(-1, 8) for b in range(-1, 8)] if th else [[1, []], [2, []]], linkage_rows,
              "all matrices of up to %d rows, cluster numbers valid or not" % (3 if th else 2), limit=120),
        Group("scipy linkages", lambda: (list(c) for n in (2, 3, 4, 5) for c in itertools.product((0, 1, 3, 8), repeat=n) if n < 5 or th), scipy_linkages, "all sets of up to 5 points on a line"),
        Group("shapes", lambda: (list(s) for d in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=d)), shapes, "all grids up to 3 x 3 x 3 and weights with up to 4 dimensions"),
        Group("types", lambda: ([t, k] for t in ALL for k in ((1, 2, 3, 4) if th else (1, 2, 3))), types, "all tuples of up to %d types" % (4 if th else 3)),
        Group("bijections", lambda: ([n, m] for n in range(0, 6 if th else 5) for m in range(0, 6 if th else 5) if abs(n - m) <= 1), bijections, "all pairs of arrays of length up to %d over 3 values" % (5 if th else 4)),
        Group("angles", lambda: ([k] for k in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 180 if th else 36)), angles, "all pairs of multiples of fractions of pi"),
        Group("points", point_cases, points, "all sets of up to %d points of a 3 x 3 grid, and multisets with equal points" % (6 if th else 4), limit=60),
    ]
