"""Crash points and faults: every small tree, graph and image is saved, and every prefix of the bytes in the order in which they are written, every
write limit (a write which fails at each byte) and every prefix of the final file are read by the real code, which must give back the same object or refuse."""
import itertools
import os
import resource
import signal
import struct
import numpy as np
import higra as hg
from vf import gen, build
from vf.core import Group, Violation
from vf.util import mk_graph, mk_tree, ints, edges_of, Pipe

ID = "C24"
ASSUMPTIONS = ["Interrupted writes leave a prefix of the written bytes; the number of attributes (the last bytes written, a few bytes of the header) is written or not written as a whole.",
               "Attribute values are exactly representable as double; graphs have finite weights; the category of a tree is not part of its file format.",
               "Shapes of graphs have two dimensions (a shape (N,) is read back as (1, N) and no shape as (N, 1))."]
PIPE = None


def path(ext):
    d = os.path.join(build.BUILD, "io")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%d.%s" % (os.getpid(), ext))


def put(f, data):
    with open(f, "wb") as o:
        o.write(data)


def content(f):
    with open(f, "rb") as i:
        return i.read()


class limited:
    """the file size limit makes the write of the byte number n fail"""
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        self.old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, self.old)


def faults(ctx, save, f, size, what, every):
    """each write that fails must be reported"""
    for k in range(0, size, every):
        ctx.op()
        ctx.compared += 1
        ok = False
        with limited(k):
            try:
                save(f)
                ok = True
            except Exception:
                pass
        if ok:
            raise Violation(what + " the write of byte %d failed and the function returned as if the file was saved" % k)
    for bad in ("/dev/full", os.path.join(build.BUILD, "io"), os.path.join(build.BUILD, "io", "no such directory", "x")):
        ctx.raises(lambda: save(bad), what + " saved in %s" % os.path.basename(bad))


def damaged(ctx, read, f, pieces, same, what):
    """pieces: (name, bytes) possible contents of an interrupted file"""
    refused = 0
    for name, data in pieces:
        put(f, data)
        ctx.op()
        ctx.compared += 1
        try:
            r = read(f)
        except Exception:
            refused += 1
            continue
        d = same(r)
        if d:
            raise Violation(what + " the file stopped at %s reads as another object: %s" % (name, d))
    ctx.outcome((what[:4], refused == len(pieces)))


VALUES = {"int64": (0, -1, 3, 2 ** 40, -2 ** 53), "uint8": (0, 1, 255, 7), "float64": (0.0, -0.5, 1 / 3, 1e300, -1e-300, float("inf"), float("nan"), 5e-324), "float32": (0.5, -1.25, 3e38, 1e-40),
          "int32": (-2 ** 31, 2 ** 31 - 1, 0), "bool": (True, False), "uint64": (2 ** 53, 0, 1)}
NAMES = ["a", "altitudes", "x y", "NAME", "END", "key=value", " b", "é", "a.b-c_d", "VERSION=1", "tab\tname"]


def trees(case, ctx):
    p, k, cat, deep = tuple(case[0]), case[1], case[2], case[3]
    n = len(p)
    ctx.state((p, k, cat))
    dts = sorted(VALUES)
    at = {}
    count = (0, 1, 2, 3, 11)[k % 5]
    for i in range(count):
        dt = dts[(k // 5 + i) % len(dts)]
        v = VALUES[dt]
        a = np.array([v[(i + j + k) % len(v)] for j in range(n)], dtype=dt)
        if (i + k) % 3 == 1:
            a = np.array([x for y in a for x in (y, y)], dtype=dt)[::2]
        at[NAMES[(k + i) % len(NAMES)]] = a
    t = mk_tree(p, cat)
    f = path("tree")
    what = "tree %r, attributes %r:" % (p, {q: (str(v.dtype), v.tolist()) for q, v in at.items()})
    save = (lambda g: hg.save_tree(g, t, at)) if at or k % 2 else (lambda g: hg.save_tree(g, t))
    ctx.op(2)
    save(f)
    final = content(f)

    def same(r):
        t2, m = r
        if ints(t2.parents()) != list(p):
            return "parents %r" % (ints(t2.parents()),)
        if set(m) != set(at.keys()):
            return "attributes %r instead of %r" % (sorted(m), sorted(at))
        for q, v in at.items():
            want = np.asarray(v, dtype="float64").tobytes()
            if np.asarray(m[q]).dtype != np.float64 or np.ascontiguousarray(m[q]).tobytes() != want:
                return "attribute %r: %r" % (q, np.asarray(m[q]).tolist())
            b = hg.get_attribute(t2, q)
            if b is None or np.ascontiguousarray(b).tobytes() != want:
                return "attribute %r of the tree: %r" % (q, b)
    d = same(hg.read_tree(f))
    ctx.compared += 1
    if d:
        raise Violation(what + " reads back as another object: " + d)
    words = [n] + list(p) + [len(at)]
    fin = {q: v for q, v in at.items() if all(np.isfinite(np.asarray(v, dtype="float64"))) and not any(0 < abs(float(x)) < 1e-307 for x in v)}
    full = len(fin) == len(at)
    for q in sorted(fin):
        words += [q.encode().hex()] + [repr(float(x)) for x in fin[q]]
    words[n + 1] = len(fin)
    r = PIPE.ask("TREESAVE", *words).split()
    ctx.ok(r[0] == "OK", what + " saved by the C++ function")
    ops = [(int(a), bytes.fromhex("" if b == "-" else b)) for a, b in zip(r[1::2], r[2::2])]
    state, crash = b"", []
    for j, (pos, data) in enumerate(ops):
        steps = range(1, len(data) + 1) if pos == len(state) else [len(data)]
        base = state
        for s in steps:
            state = base[:pos] + data[:s] + base[pos + s:]
            if full and s != len(data):
                crash.append(("write %d, byte %d" % (j, s), state))
        if full and j + 1 < len(ops):
            crash.append(("the end of write %d" % j, state))
    if full and all(v.dtype.kind in "fiub" for v in at.values()):
        ctx.eq(state, final, what + " bytes written by the C++ and Python functions")
    step = 1 if deep else max(1, len(final) // 150)
    cuts = sorted(set(range(0, len(final), step)) | set(range(max(0, len(final) - 20), len(final))) | set(range(0, min(80, len(final)))))
    damaged(ctx, hg.read_tree, f, [("byte %d" % c, final[:c]) for c in cuts], same, what)
    damaged(ctx, hg.read_tree, f, crash if deep else crash[::step] + crash[-2:], same, what)
    if deep or k % 4 == 0:
        faults(ctx, save, f, len(final), what, 1 if deep else max(1, len(final) // 40))


def tree_refusals(case, ctx):
    p = tuple(case)
    n = len(p)
    ctx.state(p)
    t = mk_tree(p)
    f = path("tree")
    what = "tree %r:" % (p,)
    for nm, a in (("short", np.zeros(n - 1)), ("long", np.zeros(n + 1)), ("2d", np.zeros((n, 1))), ("2d", np.zeros((n, 2)))):
        ctx.raises(lambda: hg.save_tree(f, t, {"a": a}), what + " attribute which is too %s" % nm)
    for nm in ("", "a\nb", "a\n"):
        ctx.raises(lambda: hg.save_tree(f, t, {nm: np.zeros(n)}), what + " attribute named %r (which cannot be read back)" % nm)
    if os.path.exists(f):
        os.remove(f)
    ctx.raises(lambda: hg.read_tree(f), what + " file which does not exist")
    ctx.raises(lambda: hg.read_tree(os.path.dirname(f)), what + " directory")
    for bad in (b"", b"\n", b"VERSION=1\nNBNODES=0\nNBATTR=0\nEND\n", b"VERSION=1\nNBNODES=-1\nNBATTR=0\nEND\n", b"VERSION=1\nNBATTR=0\nEND\n", b"VERSION=1\nNBNODES=2\nEND\n",
                b"VERSION=1\nNBNODES=x\nNBATTR=0\nEND\n", b"VERSION=1\nNBNODES=%d\nNBATTR=0\nEND\n" % n + struct.pack("%di" % n, *([n + 3] * n))):
        put(f, bad)
        ctx.raises(lambda: hg.read_tree(f), what + " file %r" % bad)


def graphs(case, ctx):
    n, edges, k, deep = case[0], [tuple(e) for e in case[1]], case[2], case[3]
    ctx.state((n, tuple(edges), k))
    g = mk_graph(n, edges)
    fv = (0.0, 1.0, 1 / 3, -2.5, 1e300, 123456789.0, 0.1, 1e-300, 2.0 ** 60 + 1)
    iv = (0, 1, 7, -3, 1234567, 2 ** 40 + 1)
    pick = (fv, iv)[k % 2]
    dt = ("float64", "int64")[k % 2]
    vw = np.array([pick[(i + k) % len(pick)] for i in range(n)], dtype=dt) if k % 3 else None
    ew = np.array([pick[(2 * i + k) % len(pick)] for i in range(len(edges))], dtype=dt) if k % 4 else None
    shapes = [None] + [(a, n // a) for a in range(1, n + 1) if n % a == 0]
    shape = shapes[k % len(shapes)]
    img = vw if shape is None or vw is None or k % 5 == 2 else vw.reshape(shape)
    f = path("graph")
    if k % 2 and shape is not None:
        hg.CptGridGraph.link(g, shape)
        save = lambda q: hg.save_graph_pink(q, g, img, ew)
    else:
        save = lambda q: hg.save_graph_pink(q, g, img, ew, shape)
    what = "graph %r, edges %r, vertex weights %r, edge weights %r, shape %r:" % (n, edges, None if vw is None else vw.tolist(), None if ew is None else ew.tolist(), shape)
    VW = np.ones(n) if vw is None else vw.astype("float64")
    EW = np.ones(len(edges)) if ew is None else ew.astype("float64")
    S = shape or (n, 1)
    ctx.op(2)
    save(f)
    final = content(f)

    def same(r):
        g2, v2, e2 = r
        if g2.num_vertices() != n or edges_of(g2) != edges_of(g):
            return "%d vertices, edges %r" % (g2.num_vertices(), edges_of(g2))
        if np.asarray(v2).ravel().tolist() != VW.tolist() or np.asarray(v2).shape != S:
            return "vertex weights %r" % (np.asarray(v2).tolist(),)
        if np.asarray(e2).tolist() != EW.tolist():
            return "edge weights %r" % (np.asarray(e2).tolist(),)
        if tuple(hg.CptGridGraph.get_shape(g2)) != S:
            return "shape %r" % (hg.CptGridGraph.get_shape(g2),)
    ctx.compared += 1
    d = same(hg.read_graph_pink(f))
    if d:
        raise Violation(what + " reads back as another object: " + d)
    step = 1 if deep else max(1, len(final) // 60)
    cuts = sorted(set(range(0, len(final), step)) | set(range(max(0, len(final) - 30), len(final))) | set(range(min(20, len(final)))))
    damaged(ctx, hg.read_graph_pink, f, [("byte %d" % c, final[:c]) for c in cuts], same, what)
    if deep or k % 4 == 0:
        faults(ctx, save, f, len(final), what, 1 if deep else max(1, len(final) // 20))


def graph_refusals(case, ctx):
    n, edges = case[0], [tuple(e) for e in case[1]]
    ctx.state((n, tuple(edges)))
    g = mk_graph(n, edges)
    m = len(edges)
    f = path("graph")
    what = "graph %r, edges %r:" % (n, edges)
    for nm, kw in (("too many vertex weights", dict(vertex_weights=np.zeros(n + 1))), ("too many edge weights", dict(edge_weights=np.zeros(m + 1))),
                   ("2d edge weights", dict(edge_weights=np.zeros((m, 2)))), ("3d shape", dict(shape=(n, 1, 1))), ("wrong shape", dict(shape=(n, 2)))):
        ctx.raises(lambda: hg.save_graph_pink(f, g, **kw), what + " " + nm)
    if os.path.exists(f):
        os.remove(f)
    ctx.raises(lambda: hg.read_graph_pink(f), what + " file which does not exist")
    ctx.raises(lambda: hg.read_graph_pink(os.path.dirname(f)), what + " directory")
    head = b"%d %d\nval sommets\n" % (n, max(1, m))
    vs = b"".join(b"%d 1\n" % i for i in range(n))
    for bad in (b"", b"x", b"-1 1\n", b"%d -1\n" % n, head + b"0 1\n" * (n - 1) + b"%d 1\n" % n + b"arcs values\n" + b"0 0 1\n" * max(1, m), head + vs + b"arcs values\n" + b"0 %d 1\n" % n * max(1, m),
                head + vs + b"arcs values\n" + b"-1 0 1\n" * max(1, m), head + vs + b"arcs values\n" + b"0 0 x\n" * max(1, m)):
        put(f, bad)
        ctx.raises(lambda: hg.read_graph_pink(f), what + " file %r" % bad)


def images(case, ctx):
    h, w, c, k = case
    N = h * w * max(1, c)
    ctx.state((h, w, c, k))
    vals = (35, 0, 10, 255, 32, 13, 80, 53, 9, 26)
    r = gen.lcg(k)
    data = bytes(vals[(k // len(vals) ** i) % len(vals)] if i < 2 else vals[next(r) % len(vals)] for i in range(N))
    what = "image of shape %r, data %r:" % ((h, w) + ((c,) if c else ()), list(data))
    ctx.op(2)
    s = PIPE.ask("PNMSAVE", h, w, c, data.hex()).split()
    ctx.eq(s[0], "OK", what + " saved")
    final = bytes.fromhex(s[1])
    want = ["OK", str(3 if c else 2), str(h), str(w)] + ([str(c)] if c else []) + [data.hex()]
    ctx.eq(PIPE.ask("PNMREAD", final.hex()).split(), want, what + " read back")
    for i in range(len(final)):
        ctx.op()
        got = PIPE.ask("PNMREAD", final[:i].hex() or "-").split()
        ctx.ok(got[0] == "ERR" or got == want, what + " the file stopped at byte %d reads as %r" % (i, got))
    ctx.outcome(final[:20])
    f = path("pnm")
    if k % 10 == 0:
        for i in range(len(final)):
            ctx.eq(PIPE.ask("PNMFILE", f, i, h, w, c, data.hex()), "ERR", what + " the write of byte %d failed" % i)
        ctx.eq(PIPE.ask("PNMFILE", "/dev/full", -1, h, w, c, data.hex()), "ERR", what + " saved in /dev/full")
        ctx.eq(PIPE.ask("PNMFILE", f, -1, h, w, c, data.hex()), "OK same", what + " saved in a file")


def formats(case, ctx):
    h, w, c, k = case
    N = h * w * max(1, c)
    r = gen.lcg(k)
    vals = [next(r) % 256 for _ in range(N)]
    ctx.state((h, w, c, k))
    seps = (" ", "\n", "  ", "\n# comment\n", "\t")
    sep = seps[k % len(seps)]
    comment = "# a comment\n" if k % 2 else ""
    bits = [v & 1 for v in vals]
    want = ["OK", str(3 if c else 2), str(h), str(w)] + ([str(c)] if c else [])
    for head, body, v in ((("P3" if c else "P2"), sep.join(map(str, vals)).encode(), vals), (("P6" if c else "P5"), bytes(vals), vals), ("P1", sep.join(map(str, bits)).encode(), bits)):
        if head == "P1" and c:
            continue
        if k % 2 and head[1] in "56":
            body = b"# note\n" + body
        text = ("%s\n%s%d %d%s" % (head, comment, w, h, "\n" if head == "P1" else ("\n255\n" if k % 3 else " 255\n"))).encode() + body
        ctx.op()
        ctx.eq(PIPE.ask("PNMREAD", text.hex()).split(), want + [bytes(v).hex()], "file %r" % text)
        for nm, bad in (("magic number", b"P9" + text[2:]), ("magic number", b"Q5" + text[2:]), ("multi byte values", text.replace(b"255", b"65535", 1) if head != "P1" else b"")):
            ctx.eq(PIPE.ask("PNMREAD", bad.hex() or "-"), "ERR", "file %r with a wrong %s" % (bad, nm))
    ctx.outcome(want[2:])


def groups(tier):
    global PIPE
    PIPE = Pipe(build.harness("io"))
    T = tier == "thorough"
    out = []

    def tc():
        i = 0
        for L in range(1, 5 if T else 4):
            for p in gen.hierarchies(L):
                for k in (range(55) if T else range(i % 5, 55, 2 if L < 3 else 4)):
                    yield (p, k, "pc"[k % 2], T or L < 3)
                    i += 1
    out.append(Group("trees", lambda: list(tc()), trees, "all trees up to %d leaves with 0 to 11 attributes of 7 types and 11 names: all prefixes, all interrupted write sequences, all failing writes" % (4 if T else 3), limit=60))
    out.append(Group("refused trees", lambda: [p for L in range(1, 4) for p in gen.hierarchies(L)], tree_refusals, "malformed attributes, names and files"))
    gl = [(n, e) for n in range(1, 4) for e in gen.multigraphs(n, 2 if n < 3 else 3, loops=True)] + [(4, ((0, 1), (2, 3), (3, 1))), (6, ((0, 1), (1, 2), (3, 4), (4, 5), (0, 3)))]
    out.append(Group("graphs", lambda: [(n, e, k, T or (n + len(e) < 5)) for i, (n, e) in enumerate(gl) for k in (range(24) if T else range(i % 3, 24, 3))], graphs,
                     "all multigraphs up to 3 vertices and 3 edges, vertex and edge weights and shapes: all prefixes, all failing writes", limit=60))
    out.append(Group("refused graphs", lambda: gl[:12], graph_refusals, "malformed weights and files"))
    sh = [(1, 1, 0), (1, 2, 0), (2, 1, 0), (2, 2, 0), (1, 1, 3), (2, 1, 3)] + ([(3, 2, 0), (1, 3, 3)] if T else [])
    out.append(Group("images", lambda: [s + (k,) for s in sh for k in (range(100) if s[0] * s[1] * max(1, s[2]) > 1 else range(10))], images,
                     "small images whose first two values take all pairs of 10 values ('#', white space, digits...): all prefixes, failing writes", limit=60))
    out.append(Group("image formats", lambda: [s + (k,) for s in sh for k in range(30)], formats, "the ascii and raw formats with comments and separators"))
    return out
