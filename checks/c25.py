"""All histories up to a depth of attribute settings, reads, removals, tags and object deletions, and of calls of cached functions with arguments built to collide (equal hashes,
equal values of different types, reused identities), against a per object map and a model of the cache; all ordered pairs of the cached functions of the library against
uncached computations on fresh objects."""
import gc
import itertools
import weakref
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints

ID = "C25"
ASSUMPTIONS = ["An argument is not mutated between two calls and a cached result is not modified by the caller (documented caveat); attributes of an argument count as the argument.",
               "Tags after the removal of all the attributes of an object are not specified."]


class Dyn:
    pass


class Slot:
    __slots__ = ("__weakref__",)


class Hard:
    __slots__ = ()


KINDS = {"tree": lambda: hg.Tree(np.array([2, 2, 2])), "graph": lambda: hg.UndirectedGraph(2), "dyn": Dyn, "slot": Slot, "array": lambda: np.zeros(3)}
NAMES = ("a", "b", "leaf_graph")
VALUES = (7, "v", None)


def attribute_ops():
    ops = [("clear_all",)]
    for o in (0, 1):
        ops += [("set", o, "a", 0), ("set", o, "a", 1), ("set", o, "b", 0), ("hidden", o, "b", 1), ("clear", o), ("clear", o, "a"), ("clear", o, "b", "zz"), ("tag", o, "t"), ("untag", o, "t"),
                ("new", o)]
    return ops


ATT_OPS = attribute_ops()


def attribute_check(kind, hist, ctx):
    ctx.state((kind, hist))
    objs = [KINDS[kind](), KINDS[kind]()]
    dynamic = hasattr(objs[0], "__dict__")
    att, dyn, tags = [{}, {}], [{}, {}], [set(), set()]
    where = "history %r on two objects (%s)" % ([ATT_OPS[h] for h in hist], kind)
    for h in hist:
        op = ATT_OPS[h]
        ctx.op()
        if op[0] == "clear_all":
            hg.clear_all_attributes()
            dyn = [{n: Ellipsis for n in dyn[o] if dyn[o][n] is Ellipsis or att[o].get(n) is not dyn[o][n]} for o in (0, 1)]
            att, tags = [{}, {}], [None, None]
            continue
        o = op[1]
        if op[0] in ("set", "hidden"):
            v = [VALUES[op[3]], o]
            if op[0] == "set":
                hg.set_attribute(objs[o], op[2], v)
                dyn[o][op[2]] = v
            else:
                hg.set_attribute(objs[o], op[2], v, False)
            att[o][op[2]] = v
        elif op[0] == "clear":
            hg.clear_attributes(objs[o], *op[2:])
            for n in (op[2:] or tuple(att[o])):
                v = att[o].pop(n, None)
                if v is not None and dyn[o].get(n) is v:
                    del dyn[o][n]
                elif n in dyn[o]:
                    dyn[o][n] = Ellipsis       # a hidden attribute hides the visible one: what remains of it is not specified
            if len(op) == 2:
                tags[o] = None
        elif op[0] == "tag":
            hg.add_tag(objs[o], op[2])
            tags[o] = tags[o] if tags[o] is None else tags[o] | {op[2]}
        elif op[0] == "untag":
            if tags[o]:
                hg.remove_tag(objs[o], op[2])
                tags[o] = tags[o] - {op[2]}
        elif op[0] == "new":
            objs[o] = None
            objs[o] = KINDS[kind]()
            att[o], dyn[o], tags[o] = {}, {}, set()
    for o in (0, 1):
        ctx.eq(sorted(hg.list_attributes(objs[o])), sorted(att[o]), "%s: attributes of object %d" % (where, o))
        for n in NAMES:
            g, w = hg.get_attribute(objs[o], n), att[o].get(n)
            ctx.ok(g is w, "%s: attribute %r of object %d: got %r, expected %r" % (where, n, o, g, w))
            w = dyn[o].get(n)
            if dynamic and w is not Ellipsis:
                g = getattr(objs[o], n, None)
                ctx.ok(g is w, "%s: object %d .%s: got %r, expected %r" % (where, o, n, g, w))
        if tags[o] is not None:
            ctx.eq(hg.has_tag(objs[o], "t"), "t" in tags[o], "%s: tag of object %d" % (where, o))
    ctx.outcome((kind, tuple(tuple(sorted(a)) for a in att)))


def attributes(case, ctx):
    kind, first, depth = case
    for rest in itertools.product(range(len(ATT_OPS)), repeat=depth - len(first)):
        attribute_check(kind, tuple(first) + rest, ctx)
    if not first or first[0] == 0:
        h = Hard()
        ctx.raises(lambda: hg.set_attribute(h, "a", 1), "attribute of an object which can hold none and which has no weak references")
        ctx.ok(hg.get_attribute(h, "a") is None and len(hg.list_attributes(h)) == 0, "attributes of an object without weak references")
        hg.clear_attributes(h)


# --- cached functions ------------------------------------------------------------------------------------------------------------------------------------

CALLS = []


def describe(x):
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.tolist())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(describe(e) for e in x)
    if isinstance(x, dict):
        return ("dict", sorted((repr(k), describe(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(repr(k) for k in x))
    if isinstance(x, hg.Tree):
        return ("tree", ints(x.parents()))
    return (type(x).__name__, repr(x))


@hg.auto_cache
def fun_a(obj, x=0, y=None):
    CALLS.append("fun_a")
    return "a", describe(obj), describe(x), describe(y)


@hg.auto_cache
def fun_b(obj, x=0, y=None):
    CALLS.append("fun_b")
    return "b", describe(obj), describe(x), describe(y)


@hg.auto_cache
def fun_error(obj, x=0, y=None):
    CALLS.append("fun_error")
    if len(CALLS) % 2:
        raise TypeError("refused")
    return 1


P1, P2 = np.array([1.0, 2.0]), np.array([1.0, 2.0])
T1 = mk_tree((2, 2, 2))


def temp(v):
    return lambda: np.array(v)


# (description, maker of the argument, True if two calls of the maker give arguments which are the same)
ARGS = [("default", None, True), ("none", lambda: None, True), ("0", lambda: 0, True), ("1", lambda: 1, True), ("1.0", lambda: 1.0, True), ("True", lambda: True, True),
        ("'1'", lambda: "1", True), ("-1", lambda: -1, True), ("-2", lambda: -2, True), ("0.0", lambda: 0.0, True), ("-0.0", lambda: -0.0, True),
        ("-1.0", lambda: -1.0, True), ("-2.0", lambda: -2.0, True), ("[1]", lambda: [1], True), ("(1,)", lambda: (1,), True), ("{1}", lambda: {1}, True),
        ("[1, 2]", lambda: [1, 2], True), ("[2, 1]", lambda: [2, 1], True), ("[[1], 2]", lambda: [[1], 2], True), ("[1, [2]]", lambda: [1, [2]], True),
        ("{1: 2}", lambda: {1: 2}, True), ("{2: 1}", lambda: {2: 1}, True), ("{1: 2, 3: 4}", lambda: {1: 2, 3: 4}, True), ("{1: 4, 3: 2}", lambda: {1: 4, 3: 2}, True),
        ("P1", lambda: P1, True), ("P2", lambda: P2, True), ("[P1]", lambda: [P1], True), ("tree", lambda: T1, True), ("np.float32(1)", lambda: np.float32(1), True),
        ("temp1", temp([1.0]), False), ("temp2", temp([2.0]), False), ("[temp3]", lambda: [np.array([3.0])], False), ("{temp}", lambda: {"k": np.array([4.0])}, False),
        ("temptree2", lambda: mk_tree((2, 2, 2)), False), ("temptree3", lambda: mk_tree((3, 3, 3, 3)), False)]

CONTROLS = [None, ("clear",), ("clear", "fun_a", None), ("clear", fun_a, None), ("clear", "fun_b", None), ("clear", None, 0), ("clear", None, 1), ("clear", "fun_a", 0), ("clear", "fun_a", 1),
            ("off",), ("no_cache",), ("force",), ("attribute_name",), ("other",), ("other_object",), ("new_object",), ("clear_attributes",), ("clear_name",), ("clear_all",), ("keyword",), ("swap",)]


def same_args(a, b):
    return a == b and ARGS[a][2]


def cache_history(i, c, j, ctx, kind):
    ctx.state((i, str(c), j))
    hg.clear_auto_cache()
    hg.set_auto_cache_state(True)
    objs = [KINDS[kind](), KINDS[kind]()]
    model = {}           # (object, name) -> set of argument numbers
    where = "%s, argument %s, then %s, then arguments %s, %s, %s" % (kind, ARGS[i][0], c, ARGS[j][0], ARGS[i][0], ARGS[j][0])

    def call(f, k, o, enabled=True, name=None, pos="x", keyword=False, **kw):
        fname = name or f.__name__
        if name:
            kw["attribute_name"] = name
        v = None if ARGS[k][1] is None else ARGS[k][1]()
        args, kwargs = [objs[o]], dict(kw)
        if ARGS[k][1] is not None:
            if pos == "y":
                kwargs["y"] = v
            elif keyword:
                kwargs["x"] = v
            else:
                args.append(v)
        if keyword:
            kwargs["obj"] = args.pop(0)
        d = describe(0 if ARGS[k][1] is None else v)
        want = (f.__name__[-1], describe(objs[o]), d if pos == "x" else describe(0), describe(None) if pos == "x" or ARGS[k][1] is None else d)
        n = len(CALLS)
        ctx.op()
        got = f(*args, **kwargs)
        if got != want:
            raise Violation("%s: a call with %s gives %r, expected %r" % (where, ARGS[k][0], got, want))
        ctx.compared += 1
        kk = (2 if ARGS[k][1] is None else k, pos) if not (ARGS[k][1] is None) else (2, "x")     # the default value of x is 0
        if pos == "y" and ARGS[k][0] == "none":
            kk = (2, "x")
        seen = model.setdefault((o, fname), set())
        known = kk in seen
        if enabled:
            seen.add(kk)
        if ARGS[k][2]:
            computed = len(CALLS) - n
            want = 1 if (not enabled or not known or kw.get("force_recompute")) else 0
            ctx.ok(computed == want, "%s: a call with %s computes the result %d times, expected %d" % (where, ARGS[k][0], computed, want))
        return got

    call(fun_a, i, 0)
    call(fun_a, i, 0)
    drop = lambda p: [model.pop(q) for q in list(model) if p(q)]
    if c is not None:
        if c[0] == "clear":
            name = None if len(c) == 1 or c[1] is None else (c[1] if isinstance(c[1], str) else c[1].__name__)
            o = None if len(c) == 1 else c[2]
            hg.clear_auto_cache(**({} if len(c) == 1 else {"function": c[1], "reference_object": None if o is None else objs[o]}))
            drop(lambda q: (name is None or q[1] == name) and (o is None or q[0] == o))
        elif c[0] == "off":
            hg.set_auto_cache_state(False)
            ctx.ok(hg.get_auto_cache_state() is False, "state of the cache")
            call(fun_a, i, 0, enabled=False)
            call(fun_a, j, 0, enabled=False)
            hg.set_auto_cache_state(True)
        elif c[0] == "no_cache":
            call(fun_a, i, 0, enabled=False, no_cache=True)
            call(fun_a, j, 0, enabled=False, no_cache=True)
        elif c[0] == "force":
            call(fun_a, j, 0, force_recompute=True)
            call(fun_a, j, 0)
        elif c[0] == "attribute_name":
            call(fun_a, j, 0, name="zz")
            call(fun_a, i, 0, name="zz")
        elif c[0] == "other":
            call(fun_b, j, 0)
            call(fun_b, i, 0)
        elif c[0] == "other_object":
            call(fun_a, j, 1)
            call(fun_a, i, 1)
        elif c[0] == "new_object":
            objs[0] = None
            objs[0] = KINDS[kind]()
            drop(lambda q: q[0] == 0)
        elif c[0] == "clear_attributes":
            hg.clear_attributes(objs[0])
            drop(lambda q: q[0] == 0)
        elif c[0] == "clear_name":
            hg.set_attribute(objs[0], "fun_a", 3)
            hg.clear_attributes(objs[0], "fun_a")
        elif c[0] == "clear_all":
            hg.clear_all_attributes()
            drop(lambda q: True)
        elif c[0] == "keyword":
            call(fun_a, i, 0, keyword=True)
            call(fun_a, j, 0, keyword=True)
        elif c[0] == "swap":
            call(fun_a, j, 0, pos="y")
            call(fun_a, i, 0, pos="y")
    call(fun_a, j, 0)
    call(fun_a, i, 0)
    call(fun_a, j, 0)
    for f in (fun_b, fun_a):
        call(f, j, 1)
    ctx.outcome((i, j))


def caches(case, ctx):
    i, kind = case
    for c in CONTROLS:
        for j in range(len(ARGS)):
            cache_history(i, c, j, ctx, kind)
    # errors are executed once
    o = KINDS[kind]()
    for nc in ({}, {"no_cache": True}, {"force_recompute": True}):
        CALLS.clear()
        ctx.raises(lambda: fun_error(o, 0, **nc), "error of a cached function (%r)" % nc)
        ctx.ok(len(CALLS) == 1, "a cached function which fails is called %d times (%r)" % (len(CALLS), nc))
    # reference objects which cannot hold a cache
    CALLS.clear()
    for v in (3, None, "s", Hard()):
        if v is not None:
            ctx.eq(fun_a(v)[1][0], type(v).__name__, "cached function called on %r" % (v,))
    # a cache does not keep its reference object alive
    for k in KINDS:
        o = KINDS[k]()
        fun_a(o, P1)
        hg.set_attribute(o, "a", 1)
        w = weakref.ref(o)
        del o
        gc.collect(0)
        ctx.ok(w() is None, "a cache keeps its reference object alive (%s)" % k)


def temporaries(case, ctx):
    """All sequences of calls with short lived arguments: identities are reused."""
    a, n = case
    for seq in itertools.product(range(3), repeat=n):
        ctx.state((a, seq))
        o = KINDS[a]()
        for k in seq:
            x = np.array([float(k), 0.0])
            got = fun_a(o, x)
            ctx.op()
            ctx.ok(got[2] == describe(x), "temporary arguments %r on %s: call with %r gives the result for %r" % (seq, a, x.tolist(), got[2]))
            del x
        for k in seq:
            got = fun_b(o, y=[np.array([float(k)] * (k + 1))])
            ctx.ok(got[3] == describe([np.array([float(k)] * (k + 1))]), "temporary nested arguments %r on %s: %r" % (seq, a, got[3]))


# --- functions of the library -----------------------------------------------------------------------------------------------------------------------------

class World:
    """Deterministic objects; the same number gives equal objects."""

    def __init__(self, k):
        shape = ((2, 3), (3, 2), (1, 4))[k % 3]
        self.shape = shape
        self.g = hg.get_4_adjacency_graph(shape)
        r = gen.lcg(k)
        m, n = self.g.num_edges(), self.g.num_vertices()
        self.w = np.array([float(next(r) % 4) for _ in range(m)])
        self.w2 = np.array([float(next(r) % 3 + 1) for _ in range(m)])
        self.v = np.array([float(next(r) % 5) for _ in range(n)]).reshape(shape)
        self.v2 = np.array([float(next(r) % 5 + 1) for _ in range(n)]).reshape(shape)
        self.t, self.alt = hg.bpt_canonical(self.g, self.w)
        self.alt2 = self.alt * 2 + np.arange(self.t.num_vertices())
        self.ct, self.calt = hg.component_tree_max_tree(self.g, self.v)
        self.q, self.qalt = hg.quasi_flat_zone_hierarchy(self.g, self.w)
        # same vertices, other edges and areas
        lab = np.arange(n)
        self.rag_pre = hg.get_4_adjacency_graph((2, n))
        self.rag = hg.make_region_adjacency_graph_from_labelisation(self.rag_pre, np.array([lab, np.minimum(lab, n - 2)]))
        self.rw = np.array([float(next(r) % 4) for _ in range(self.rag.num_edges())])
        self.el = np.array([float(next(r) % 4 + 1) for _ in range(m)])
        self.area = np.array([float(next(r) % 3 + 1) for _ in range(n)])
        self.rag_el = np.array([float(next(r) % 4 + 1) for _ in range(self.rag.num_edges())])


FUNS = {
    "vertex_area(g)": lambda W, **k: hg.attribute_vertex_area(W.g, **k),
    "vertex_area(rag)": lambda W, **k: hg.attribute_vertex_area(W.rag, **k),
    "edge_length(g)": lambda W, **k: hg.attribute_edge_length(W.g, **k),
    "edge_length(rag)": lambda W, **k: hg.attribute_edge_length(W.rag, **k),
    "vertex_perimeter(g)": lambda W, **k: hg.attribute_vertex_perimeter(W.g, **k),
    "vertex_perimeter(rag)": lambda W, **k: hg.attribute_vertex_perimeter(W.rag, **k),
    "vertex_perimeter(rag, el)": lambda W, **k: hg.attribute_vertex_perimeter(W.rag, W.rag_el, **k),
    "vertex_coordinates(g)": lambda W, **k: hg.attribute_vertex_coordinates(W.g, **k),
    "vertex_coordinates(g, shape)": lambda W, **k: hg.attribute_vertex_coordinates(W.g, (W.g.num_vertices(), 1), **k),
    "area(t)": lambda W, **k: hg.attribute_area(W.t, **k),
    "area(t, area)": lambda W, **k: hg.attribute_area(W.t, W.area, **k),
    "area(t, rag)": lambda W, **k: hg.attribute_area(W.t, leaf_graph=W.rag, **k),
    "area(q)": lambda W, **k: hg.attribute_area(W.q, **k),
    "area(ct)": lambda W, **k: hg.attribute_area(W.ct, **k),
    "volume(t, alt)": lambda W, **k: hg.attribute_volume(W.t, W.alt, **k),
    "volume(t, alt2)": lambda W, **k: hg.attribute_volume(W.t, W.alt2, **k),
    "volume(ct)": lambda W, **k: hg.attribute_volume(W.ct, W.calt, **k),
    "lca_map(t)": lambda W, **k: hg.attribute_lca_map(W.t, **k),
    "lca_map(t, rag)": lambda W, **k: hg.attribute_lca_map(W.t, W.rag, **k),
    "lca_map(q)": lambda W, **k: hg.attribute_lca_map(W.q, **k),
    "frontier_length(t)": lambda W, **k: hg.attribute_frontier_length(W.t, **k),
    "frontier_length(t, el)": lambda W, **k: hg.attribute_frontier_length(W.t, W.el, **k),
    "frontier_length(t, rag)": lambda W, **k: hg.attribute_frontier_length(W.t, leaf_graph=W.rag, **k),
    "frontier_strength(t, w)": lambda W, **k: hg.attribute_frontier_strength(W.t, W.w, **k),
    "frontier_strength(t, w2)": lambda W, **k: hg.attribute_frontier_strength(W.t, W.w2, **k),
    "frontier_strength(t, rag)": lambda W, **k: hg.attribute_frontier_strength(W.t, W.rw, W.rag, **k),
    "contour_length(t)": lambda W, **k: hg.attribute_contour_length(W.t, **k),
    "contour_length(t, el)": lambda W, **k: hg.attribute_contour_length(W.t, edge_length=W.el, **k),
    "contour_length(t, rag)": lambda W, **k: hg.attribute_contour_length(W.t, leaf_graph=W.rag, **k),
    "contour_length(ct)": lambda W, **k: hg.attribute_contour_length(W.ct, **k),
    "contour_strength(t, w)": lambda W, **k: hg.attribute_contour_strength(W.t, W.w, **k),
    "contour_strength(t, w2)": lambda W, **k: hg.attribute_contour_strength(W.t, W.w2, **k),
    "contour_strength(t, w2, el)": lambda W, **k: hg.attribute_contour_strength(W.t, W.w2, edge_length=W.el, **k),
    "compactness(t)": lambda W, **k: hg.attribute_compactness(W.t, **k),
    "compactness(t, normalize=False)": lambda W, **k: hg.attribute_compactness(W.t, normalize=False, **k),
    "compactness(t, rag)": lambda W, **k: hg.attribute_compactness(W.t, leaf_graph=W.rag, **k),
    "mean_vertex_weights(t, v)": lambda W, **k: hg.attribute_mean_vertex_weights(W.t, W.v, **k),
    "mean_vertex_weights(t, v2)": lambda W, **k: hg.attribute_mean_vertex_weights(W.t, W.v2, **k),
    "sibling(t)": lambda W, **k: hg.attribute_sibling(W.t, **k),
    "sibling(q)": lambda W, **k: hg.attribute_sibling(W.q, **k),
    "sibling(t, -1)": lambda W, **k: hg.attribute_sibling(W.t, -1, **k),
    "sibling(t, -2)": lambda W, **k: hg.attribute_sibling(W.t, -2, **k),
    "sibling(q, -1)": lambda W, **k: hg.attribute_sibling(W.q, -1, **k),
    "sibling(q, -2)": lambda W, **k: hg.attribute_sibling(W.q, -2, **k),
    "depth(t)": lambda W, **k: hg.attribute_depth(W.t, **k),
    "regular_altitudes(t)": lambda W, **k: hg.attribute_regular_altitudes(W.t, **k),
    "vertex_list(t)": lambda W, **k: hg.attribute_vertex_list(W.t, **k),
    "gaussian(t, v)": lambda W, **k: hg.attribute_gaussian_region_weights_model(W.t, W.v, **k),
    "gaussian(t, v2)": lambda W, **k: hg.attribute_gaussian_region_weights_model(W.t, W.v2, **k),
    "extrema(ct)": lambda W, **k: hg.attribute_extrema(W.ct, W.calt, **k),
    "extrema(t, alt)": lambda W, **k: hg.attribute_extrema(W.t, W.alt, **k),
    "extrema(t, alt2)": lambda W, **k: hg.attribute_extrema(W.t, W.alt2, **k),
    "height(ct)": lambda W, **k: hg.attribute_height(W.ct, W.calt, **k),
    "height(ct, True)": lambda W, **k: hg.attribute_height(W.t, W.alt, True, **k),
    "height(t, auto)": lambda W, **k: hg.attribute_height(W.t, W.alt, **k),
    "height(t, node)": lambda W, **k: hg.attribute_height(W.t, W.alt2, True, "node", **k),
    "dynamics(ct)": lambda W, **k: hg.attribute_dynamics(W.ct, W.calt, **k),
    "dynamics(t, alt)": lambda W, **k: hg.attribute_dynamics(W.t, W.alt, **k),
    "dynamics(t, alt2)": lambda W, **k: hg.attribute_dynamics(W.t, W.alt2, **k),
    "child_number(t)": lambda W, **k: hg.attribute_child_number(W.t, **k),
    "topological_height(t)": lambda W, **k: hg.attribute_topological_height(W.t, **k),
    "moment_of_inertia(t)": lambda W, **k: hg.attribute_moment_of_inertia(W.t, **k),
    "perimeter_length_component_tree(ct)": lambda W, **k: hg.attribute_contour_length_component_tree(W.ct, **k) if hasattr(hg, "attribute_contour_length_component_tree") else None,
    "tree_sampling_divergence(t)": lambda W, **k: hg.tree_sampling_divergence(W.t, W.w2),
    "saliency(t)": lambda W, **k: hg.saliency(W.t, W.alt),
    "horizontal_cut(t)": lambda W, **k: hg.labelisation_horizontal_cut_from_threshold(W.t, W.alt, 1.0),
    "filter(t)": lambda W, **k: hg.filter_small_nodes_from_tree(W.t, W.alt, 2)[1],
    "watershed(g)": lambda W, **k: hg.watershed_hierarchy_by_area(W.g, W.w)[1],
    "relink(t, g)": lambda W, **k: hg.CptHierarchy.link(W.t, W.g),
}
CACHED = [f for f in FUNS]


def plain(r):
    if isinstance(r, (tuple, list)):
        return [plain(e) for e in r]
    if isinstance(r, np.ndarray):
        return (str(r.dtype), r.shape, [repr(x) for x in r.ravel().tolist()])
    return r if r is None or isinstance(r, (bool, int, float, str)) else str(type(r))


REFERENCE = {}


def reference(k, name):
    """Result with caching switched off, on fresh objects."""
    if (k, name) not in REFERENCE:
        hg.set_auto_cache_state(False)
        try:
            REFERENCE[k, name] = plain(FUNS[name](World(k)))
        except Exception as e:
            REFERENCE[k, name] = "refused"
        finally:
            hg.set_auto_cache_state(True)
    return REFERENCE[k, name]


def library(case, ctx):
    k, first, depth = case
    ctx.state((k, first))
    for rest in itertools.product(CACHED, repeat=depth - 1):
        W = World(k)
        seq = (first,) + rest + (first,)
        for i, name in enumerate(seq):
            ctx.op()
            try:
                got = plain(FUNS[name](W))
            except Exception as e:
                got = "refused"
            want = reference(k, name)
            ctx.compared += 1
            if got != want:
                raise Violation("objects %d (shape %r), calls %r: the last call gives %r, without cache %r" % (k, W.shape, seq[:i + 1], got, want))
    ctx.outcome((k, first, str(reference(k, first))[:200]))


TEMP = {
    "volume": lambda t, g, x, **k: hg.attribute_volume(t, np.array(x), **k),
    "extrema": lambda t, g, x, **k: hg.attribute_extrema(t, np.array(x), **k),
    "height": lambda t, g, x, **k: hg.attribute_height(t, np.array(x), True, **k),
    "mean": lambda t, g, x, **k: hg.attribute_mean_vertex_weights(t, np.array(x[:t.num_leaves()]), **k),
    "area": lambda t, g, x, **k: hg.attribute_area(t, np.array(x[:t.num_leaves()]), **k),
    "frontier": lambda t, g, x, **k: hg.attribute_frontier_strength(t, np.array(x[:g.num_edges()]), **k),
    "length": lambda t, g, x, **k: hg.attribute_frontier_length(t, np.array(x[:g.num_edges()]), **k),
    "regular": lambda t, g, x, **k: hg.attribute_regular_altitudes(t, np.array(x, dtype="int64"), **k),
}


def library_temporaries(case, ctx):
    """Arrays which only live during the call, on a tree which lives on."""
    name, k = case
    W = World(k)
    t, n = W.q, W.q.num_vertices()
    base = ints(hg.attribute_depth(t))
    xs = [[float(max(base) - d) * s for d in base] for s in (1, 2, 5)]
    for seq in itertools.product(range(3), repeat=4):
        ctx.state((name, k, seq))
        for i in seq:
            ctx.op()
            a = plain(TEMP[name](t, W.g, xs[i]))
            b = plain(TEMP[name](t, W.g, xs[i], no_cache=True))
            ctx.ok(a == b, "%s on objects %d with short lived arrays, sequence %r: cached %r, uncached %r" % (name, k, seq, a, b))
    ctx.outcome((name, k))


# the leaf graph of the tree is an argument which is found on the tree: another link is another argument
RELINK = {
    "area": lambda W, **k: hg.attribute_area(W.t, **k),
    "area(area)": lambda W, **k: hg.attribute_area(W.t, W.area, **k),
    "lca_map": lambda W, **k: hg.attribute_lca_map(W.t, **k),
    "frontier_length": lambda W, **k: hg.attribute_frontier_length(W.t, **k),
    "frontier_length(el)": lambda W, **k: hg.attribute_frontier_length(W.t, W.el, **k),
    "frontier_strength": lambda W, **k: hg.attribute_frontier_strength(W.t, W.w, **k),
    "contour_length": lambda W, **k: hg.attribute_contour_length(W.t, **k),
    "contour_length(el)": lambda W, **k: hg.attribute_contour_length(W.t, edge_length=W.el, **k),
    "contour_strength": lambda W, **k: hg.attribute_contour_strength(W.t, W.w2, **k),
    "compactness": lambda W, **k: hg.attribute_compactness(W.t, normalize=False, **k),
    "mean_vertex_weights": lambda W, **k: hg.attribute_mean_vertex_weights(W.t, W.v.ravel(), **k),
    "gaussian": lambda W, **k: hg.attribute_gaussian_region_weights_model(W.t, W.v2.ravel(), **k),
    "moment_of_inertia": lambda W, **k: hg.attribute_moment_of_inertia(W.t, **k),
    "saliency": lambda W, **k: hg.saliency(W.t, W.alt),
    "sampling_divergence": lambda W, **k: hg.tree_sampling_divergence(W.t, W.w2),
}
GRAPHS = ("grid", "rag", "mirror")


def leaf_graph(W, name):
    """The grid, a region adjacency graph on the same vertices (other areas, perimeters and edges), and the grid in another numbering with its own areas, lengths and shape."""
    n = W.g.num_vertices()
    if name == "grid":
        return W.g
    if name == "rag":
        return W.rag
    if not hasattr(W, "mirror"):
        s, d = W.g.edge_list()
        W.mirror = mk_graph(n, [(n - 1 - a, (n - 1 - b) // 2) if i % 3 == 0 and n - 1 - a != (n - 1 - b) // 2 else (n - 1 - a, n - 1 - b) for i, (a, b) in enumerate(zip(ints(s), ints(d)))])
        hg.CptGridGraph.link(W.mirror, (1, n))
        hg.set_attribute(W.mirror, "vertex_area", np.arange(1.0, n + 1))
        hg.set_attribute(W.mirror, "edge_length", np.arange(2.0, W.mirror.num_edges() + 2))
    return W.mirror


def relinked(case, ctx):
    """Calls of functions of a tree whose leaf graph changes between the calls: each result is the uncached one for the current leaf graph."""
    k, f, g, how = case
    ctx.state((k, f, g, how))
    for seq in itertools.product(((a, b) for a in RELINK for b in GRAPHS), repeat=1):
        W = World(k)
        calls = [(f, g), seq[0], (f, g)]
        for i, (name, graph) in enumerate(calls):
            ctx.op()
            lg = leaf_graph(W, graph)
            kw = {}
            if how == "explicit" and name not in ("saliency", "sampling_divergence"):
                kw["leaf_graph"] = lg
            else:
                hg.CptHierarchy.link(W.t, lg)
            try:
                got = plain(RELINK[name](W, **kw))
            except Exception as e:
                got = "refused"
            ref = (k, name, graph, how)
            if ref not in REFERENCE:
                F = World(k)
                hg.set_auto_cache_state(False)
                try:
                    lg = leaf_graph(F, graph)
                    if kw:
                        kw["leaf_graph"] = lg
                    else:
                        hg.CptHierarchy.link(F.t, lg)
                    REFERENCE[ref] = plain(RELINK[name](F, **kw))
                except Exception as e:
                    REFERENCE[ref] = "refused"
                finally:
                    hg.set_auto_cache_state(True)
            ctx.ok(got == REFERENCE[ref], "objects %d, calls %r on the leaf graphs given by %s: the last call gives %r, without cache %r" % (k, calls[:i + 1], how, got, REFERENCE[ref]))
    ctx.outcome((k, f, g, str(REFERENCE[(k, f, g, how)])[:200]))


@hg.argument_helper(hg.CptHierarchy)
def help_leaf(tree, leaf_graph=None, other=None):
    return leaf_graph, other


@hg.argument_helper(hg.CptHierarchy, ("leaf_graph", hg.CptGridGraph))
def help_chain(tree, leaf_graph=None, shape=None):
    return leaf_graph, shape


@hg.argument_helper(("tree", hg.CptHierarchy(leaf_graph="graph")))
def help_renamed(value, tree, graph=None, shape=None):
    return graph, shape


@hg.argument_helper(hg.CptBinaryHierarchy)
def help_binary(tree, mst_edge_map, leaf_graph, missing="m"):
    return mst_edge_map, leaf_graph, missing


def explicit(case, ctx):
    """Every combination of arguments given (positional or named) or not, found on the object or not."""
    linked, grid, how = case
    ctx.state(tuple(case))
    g, g2 = hg.get_4_adjacency_graph((2, 2)), mk_graph(4, [(0, 1)])
    if grid:
        hg.CptGridGraph.link(g2, (4, 1))
    t = mk_tree((4, 4, 4, 4, 4))
    if linked:
        hg.CptHierarchy.link(t, g)
    for lg, sh in itertools.product((None, g2, "absent"), (None, (1, 4), "absent")):
        for f, found in ((help_leaf, "leaf"), (help_chain, "chain"), (help_renamed, "renamed")):
            name = {"leaf": "leaf_graph", "chain": "leaf_graph", "renamed": "graph"}[found]
            kw = {}
            if lg != "absent":
                kw[name] = lg
            if sh != "absent" and found != "leaf":
                kw["shape"] = sh
            args = []
            if found == "renamed":
                args = [3]
            args.append(t)
            if how == "positional" and name in kw:
                args.append(kw.pop(name))
            elif how == "named":
                kw["tree"] = args.pop()
            ctx.op()
            r = f(*args, **kw)
            wlg = g2 if lg is g2 else (g if linked else None)
            wsh = sh if sh == (1, 4) else None if found == "renamed" else (None if wlg is None else ((2, 2) if wlg is g else ((4, 1) if grid else None)))
            what = "%s, tree linked %r, grid %r, leaf graph %s, shape %s, %s" % (f.__name__, linked, grid, "explicit" if lg is g2 else lg, sh, how)
            ctx.ok(r[0] is wlg, what + ": leaf graph")
            ctx.eq(None if found == "leaf" or r[1] is None else tuple(int(x) for x in r[1]), None if found == "leaf" else wsh, what + ": shape")
            ctx.outcome((found, lg is g2, wsh))
    b, alt = hg.bpt_canonical(g, np.array([1., 2, 3, 0]))
    m = hg.get_attribute(b, "mst_edge_map")
    r = help_binary(b)
    ctx.ok(r[0] is m and r[1] is g and r[2] == "m", "elements of a binary hierarchy")
    x = np.zeros(3)
    r = help_binary(b, x, missing=2)
    ctx.ok(r[0] is x and r[1] is g and r[2] == 2, "explicit element of a binary hierarchy")
    ctx.raises(lambda: help_binary(t), "mandatory argument found nowhere")
    # concepts
    ctx.ok(hg.CptBinaryHierarchy.validate(b) and hg.CptHierarchy.validate(b) and not hg.CptBinaryHierarchy.validate(t) and hg.CptHierarchy.validate(t) == linked
           and not hg.CptHierarchy.validate(None), "concepts satisfied by trees")
    ctx.ok(hg.CptGridGraph.validate(g) and hg.CptGridGraph.validate(g2) == grid, "concepts satisfied by graphs")
    c = hg.CptBinaryHierarchy.construct(b, strict=False)
    ctx.ok(c["tree"] is b and c["mst_edge_map"] is m and c["leaf_graph"] is g, "construction of a binary hierarchy")
    ctx.raises(lambda: hg.CptBinaryHierarchy.construct(t), "strict construction on a tree which is not a binary hierarchy")
    ctx.eq(sorted(hg.CptHierarchy.construct(t, strict=False)), ["leaf_graph", "tree"] if linked else ["tree"], "lenient construction")
    ctx.eq(hg.CptHierarchy.construct(None), {}, "construction on nothing")
    mst = hg.CptBinaryHierarchy.get_mst(b)
    ctx.eq(ints(hg.CptMinimumSpanningTree.get_edge_map(mst)), ints(m), "edge map of the spanning tree of a binary hierarchy")
    ctx.ok(hg.CptMinimumSpanningTree.get_base_graph(mst) is g and hg.CptBinaryHierarchy.get_mst(b) is mst, "spanning tree of a binary hierarchy")


def groups(tier):
    th = tier == "thorough"
    n = len(ATT_OPS)
    depth = 4 if th else 3
    kinds = list(KINDS)

    def histories():
        for k in kinds:
            yield [k, [], 1]
            yield [k, [], 2]
            for a in range(n):
                if depth == 4:
                    for b in range(n):
                        yield [k, [a, b], 4]
                else:
                    yield [k, [a], 3]

    worlds = 6 if th else 2
    return [
        Group("attributes", histories, attributes, "all histories of up to %d of %d operations on two objects, for %d kinds of objects" % (depth, n, len(kinds))),
        Group("caches", lambda: ([i, k] for i in range(len(ARGS)) for k in (kinds if th else ["tree", "array"])), caches,
              "all histories (argument, control, argument, again) over %d arguments and %d controls" % (len(ARGS), len(CONTROLS)), limit=60),
        Group("temporaries", lambda: ([k, m] for k in kinds for m in (1, 2, 3, 4, 5)), temporaries, "all sequences of up to 5 calls with 3 short lived arguments"),
        Group("library", lambda: ([k, f, 2] for k in range(worlds) for f in CACHED), library, "all ordered pairs of %d calls on %d sets of objects" % (len(CACHED), worlds), limit=120),
        Group("library triples", lambda: ([0, f, 3] for f in (CACHED if th else [])), library, "all ordered triples of %d calls" % len(CACHED), limit=600),
        Group("library temporaries", lambda: ([f, k] for f in TEMP for k in range(worlds)), library_temporaries, "all sequences of 4 calls with 3 short lived arrays"),
        Group("relinked", lambda: ([k, f, g, h] for k in range(worlds) for f in RELINK for g in GRAPHS for h in ("link", "explicit")), relinked,
              "all sequences (call, call on another leaf graph, first call again) of %d functions and %d leaf graphs" % (len(RELINK), len(GRAPHS)), limit=120),
        Group("explicit", lambda: ([a, b, c] for a in (False, True) for b in (False, True) for c in ("positional", "named", "mixed")), explicit,
              "all combinations of arguments given, omitted or None, found or not"),
    ]
