"""C03: fast lowest common ancestors against the definition: all trees, all pairs, all block sizes, all preprocessing histories."""
import copy, itertools, pickle
import numpy as np
import higra as hg
from vf.core import Group, Violation
from vf import gen
from vf.util import ints, mk_tree

ID = "C03"
ASSUMPTIONS = ["exhaustive for trees of at most 7 nodes (quick: 6); larger trees belong to fixed families"]


def query(l, p, want, ctx, what):
    """All pairs, as scalars and as arrays."""
    n = len(p)
    ctx.op()
    got = [int(l(a, b)) for a in range(n) for b in range(n)]
    ctx.eq(got, want, what + " (scalars)")
    A, B = np.repeat(np.arange(n), n), np.tile(np.arange(n), n)
    for dt in ("int64", "int32", "uint32", "uint64"):
        ctx.eq(ints(l(A.astype(dt), B.astype(dt))), want, what + " (%s arrays)" % dt)


def refused(l, n, ctx, what):
    for a, b in ((n, 0), (0, n), (-1, 0), (0, -1), (n + 5, n + 5)):
        ctx.raises(lambda: l(a, b), what + " out of range (%d,%d)" % (a, b))
        ctx.raises(lambda: l(np.array([0, a]), np.array([0, b])), what + " out of range array (%d,%d)" % (a, b))
    ctx.raises(lambda: l(np.array([0, 0]), np.array([0])), what + " arrays of different sizes")


def all_blocks(case, ctx):
    p = tuple(case)
    n = len(p)
    ctx.state(p)
    want = [gen.lca(p, a, b) for a in range(n) for b in range(n)]
    ctx.outcome(tuple(want))
    l = hg.LCA_rmq_sparse_table(mk_tree(p))
    query(l.lca, p, want, ctx, "sparse table of %r" % (p,))
    refused(l.lca, n, ctx, "sparse table")
    for b in range(1, 2 * n + 2):
        l = hg.LCA_rmq_sparse_table_block(mk_tree(p), b)
        query(l.lca, p, want, ctx, "block sparse table (%d) of %r" % (b, p))
        l2 = pickle.loads(pickle.dumps(l))
        ctx.eq([int(l2.lca(a, c)) for a in range(n) for c in range(n)], want, "restored block sparse table (%d) of %r" % (b, p))
    refused(l.lca, n, ctx, "block sparse table")
    t = mk_tree(p)
    l = t.lowest_common_ancestor_preprocess()
    query(t.lowest_common_ancestor, p, want, ctx, "preprocessed tree %r" % (p,))
    refused(t.lowest_common_ancestor, n, ctx, "preprocessed tree")


# --- histories -------------------------------------------------------------------------------
OPS = ["st", "b1", "b2", "b3", "b1024", "st!", "b2!", "b5!", "clear", "pickle_tree", "pickle_lca", "drop_tree", "copy_lca", "make"]


class State:
    """The real tree, and the fast LCA structures obtained so far (they must all keep working)."""

    def __init__(self, p):
        self.tree, self.old = mk_tree(p), []
        self.kind = None                     # type of the preprocessing of the tree

    def do(self, op, p):
        t = self.tree
        if op == "st":
            self.old.append(t.lowest_common_ancestor_preprocess("sparse_table"))
        elif op == "st!":
            self.old.append(t.lowest_common_ancestor_preprocess("sparse_table", force_recompute=True))
        elif op[0] == "b":
            self.old.append(t.lowest_common_ancestor_preprocess("sparse_table_block", int(op[1:].rstrip("!")), force_recompute=op.endswith("!")))
        if op[:2] == "st" or op[0] == "b":
            # a second preprocessing does nothing, except if it is forced
            if self.kind is None or op.endswith("!"):
                self.kind = type(hg.LCA_rmq_sparse_table(t)) if op[:2] == "st" else type(hg.LCA_rmq_sparse_table_block(t, 1))
            if type(self.old[-1]) is not self.kind:
                raise Violation("%r: preprocessing %s of the tree gives a %s instead of a %s" % (p, op, type(self.old[-1]).__name__, self.kind.__name__))
        if op == "clear":
            t.__dict__.pop("__higra_attributes__", None); hg.clear_all_attributes()
        elif op == "pickle_tree":
            self.tree = pickle.loads(pickle.dumps(t))
        elif op == "drop_tree":
            self.tree = mk_tree(p)
        elif op == "pickle_lca":
            self.old = [pickle.loads(pickle.dumps(o)) for o in self.old]
        elif op == "copy_lca":
            self.old = [copy.copy(o) for o in self.old] + [copy.deepcopy(o) for o in self.old[:1]]
        elif op == "make":
            self.old.append(hg.make_lca_fast(t))
        if op in ("clear", "drop_tree", "pickle_tree"):
            self.kind = None if hg.get_attribute(self.tree, "lca_fast") is None else type(hg.get_attribute(self.tree, "lca_fast"))

    def key(self):
        l = hg.get_attribute(self.tree, "lca_fast")
        st = lambda o: (type(o).__name__, repr(o._get_state())[:300])
        return (None if l is None else st(l), tuple(sorted(set(st(o) for o in self.old))))


def histories(case, ctx):
    p, depth = tuple(case[0]), case[1]
    n = len(p)
    want = [gen.lca(p, a, b) for a in range(n) for b in range(n)]
    A, B = np.repeat(np.arange(n), n), np.tile(np.arange(n), n)
    seen = set()
    frontier = [[]]
    for d in range(depth):
        nxt = []
        for h in frontier:
            for op in OPS:
                s = State(p)
                for o in h + [op]:
                    s.do(o, p)
                    ctx.op()
                w = "%r after %s" % (p, "/".join(h + [op]))
                ctx.eq(ints(s.tree.lowest_common_ancestor(A, B)), want, w)
                ctx.eq(int(s.tree.lowest_common_ancestor(0, n - 1)), n - 1, w)
                for l in s.old:
                    ctx.eq(ints(l.lca(A, B)), want, w + ": structure obtained before")
                k = s.key()
                if k not in seen:
                    seen.add(k)
                    ctx.state((p, k))
                    nxt.append(h + [op])
        frontier = nxt
    ctx.raises(lambda: mk_tree(p).lowest_common_ancestor_preprocess("sparse_table_block", 0), "block size 0")
    ctx.raises(lambda: mk_tree(p).lowest_common_ancestor_preprocess("sparse_table_block", -1), "block size -1")
    ctx.raises(lambda: mk_tree(p).lowest_common_ancestor_preprocess("unknown"), "unknown algorithm")
    ctx.outcome(len(seen))


def history_cases(depth):
    def g():
        for p in [(0,), (1, 1), (2, 2, 2), (1, 2, 3, 3), (4, 4, 5, 5, 6, 6, 6), (4, 4, 5, 6, 5, 6, 6), gen.caterpillar_tree(5), gen.balanced_tree(6), gen.star_tree(6)]:
            yield [p, depth]
    return g


# --- large trees -----------------------------------------------------------------------------
def climb(p, A, B):
    p = np.asarray(p)
    A, B = A.copy(), B.copy()
    while True:
        ne = A != B
        if not ne.any():
            return A
        m = ne & (A < B)
        A2 = np.where(m, p[A], A)
        B = np.where(ne & ~m, p[B], B)
        A = A2


def large(case, ctx):
    fam, n, blocks = case
    p = {"star": gen.star_tree, "chain": gen.chain_tree, "cater": gen.caterpillar_tree, "bal": gen.balanced_tree}[fam](n) \
        if fam[0] != "x" else gen.scattered_tree(n, 2 * n // 3, int(fam[1:]))
    N = len(p)
    ctx.state((fam, n))
    step = max(1, N // 150)
    sel = np.unique(np.concatenate([np.arange(0, N, step), np.arange(min(N, 40)), np.arange(max(0, N - 40), N)]))
    A, B = np.repeat(sel, len(sel)), np.tile(sel, len(sel))
    want = climb(p, A, B)
    t = mk_tree(p)
    ctx.ok((t.lowest_common_ancestor(A, B) == want).all(), "naive lca of %s %d" % (fam, n))
    for b in blocks:
        if b == 0:
            l = t.lowest_common_ancestor_preprocess("sparse_table", force_recompute=True)
        else:
            l = t.lowest_common_ancestor_preprocess("sparse_table_block", b, force_recompute=True)
        ctx.op()
        got = t.lowest_common_ancestor(A, B)
        bad = np.nonzero(got != want)[0]
        ctx.ok(bad.size == 0, "%s tree of %d nodes, block size %d: lca of %s is wrong" % (fam, N, b, [(int(A[i]), int(B[i]), int(got[i]), int(want[i])) for i in bad[:3]]))
        l2 = pickle.loads(pickle.dumps(l))
        ctx.ok((l2.lca(A, B) == want).all(), "%s tree of %d nodes, block size %d: restored structure" % (fam, N, b))


def large_cases(thorough):
    def g():
        sizes = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]
        for n in sizes:
            for fam in ("star", "chain", "cater", "bal", "x0", "x1", "x2"):
                yield [fam, n, [0, 1, 2, 3, 4, 7, 8, 16, 17, 31, 32, 33, 64]]
        for n in [255, 256, 257, 511, 512, 513, 514, 1023, 1024, 1025, 1026] + ([2047, 2048, 2049, 3000, 4097] if thorough else []):
            for fam in ("star", "cater", "bal", "x0", "x1") + (("chain",) if n < 600 else ()):
                yield [fam, n, [0, 8, 100, 128, 512, 1024]]
    return g


def groups(tier):
    qk = tier == "quick"
    return [Group("all", lambda: gen.trees(6 if qk else 8), all_blocks, "all trees of at most %d nodes, all block sizes to 2n+1, all pairs" % (6 if qk else 8)),
            Group("histories", history_cases(3 if qk else 4), histories, "9 trees, all histories of %d preprocessing operations out of %d" % (3 if qk else 4, len(OPS)), limit=120 if qk else 3000),
            Group("large", large_cases(not qk), large, "families around powers of two", limit=60)]
