"""All small grids with all cuts and small weights: the Khalimsky map against the definition on each face, the polylines against the maximal paths of
cut edges, the simplified contours against every outcome of the Ramer-Douglas-Peucker recursion, pixel matching against all matchings."""
import itertools
import math
import numpy as np
import higra as hg
from vf import gen
from vf.core import Group, Violation
from vf.util import mk_graph, ints, edges_of

ID = "C23"
ASSUMPTIONS = ["The edges given to the contour extraction are the cut of a labelling of the pixels (closed frontiers), with non negative weights, as documented (graph cut).",
               "Ties between equally distant points of the Ramer-Douglas-Peucker recursion may be broken either way."]
DT = ("float64", "int32", "uint8", "float32", "int64", "int16", "uint16")


def kface(e, W, b):
    return tuple(x + y + b for x, y in zip(divmod(e[0], W), divmod(e[1], W)))


def khalimsky(case, ctx):
    H, W, k = case
    g = hg.get_4_adjacency_graph((H, W))
    E = edges_of(g)
    r = gen.lcg(k)
    if k < 2 ** len(E) and len(E) <= 7:
        w = [(k >> i) & 1 for i in range(len(E))]
    else:
        w = [next(r) % 5 for _ in E]
    dt = DT[k % len(DT)]
    neg = dt[0] != "u" and k % 3 == 1
    if neg:
        w = [x - 2 for x in w]
    if dt[0] == "f":
        w = [x * 0.5 for x in w]
    ctx.state((H, W, tuple(w), dt))
    for border in (False, True):
        b = 1 if border else 0
        S = (2 * H - 1 + 2 * b, 2 * W - 1 + 2 * b)
        want = np.zeros(S)
        for e, x in zip(E, w):
            want[kface(e, W, b)] = x
        one = [(y, x) for y in range(S[0]) for x in range(S[1]) if (y + x) % 2 == 1]
        face1 = want.copy()
        for y in range(1 - b, S[0] - 1 + b, 2):
            for x in range(1 - b, S[1] - 1 + b, 2):
                want[y, x] = max(face1[y + dy, x + dx] for dy, dx in ((0, 1), (1, 0), (0, -1), (-1, 0)) if 0 <= y + dy < S[0] and 0 <= x + dx < S[1])
        what = "grid %r, weights %r (%s), border %r:" % ((H, W), w, dt, border)
        ctx.op(3)
        K = hg.graph_4_adjacency_2_khalimsky(g, np.array(w, dtype=dt), add_extra_border=border)
        ctx.eq(np.asarray(K).shape, S, what + " shape of the Khalimsky grid")
        ctx.eq(np.asarray(K).tolist(), want.tolist(), what + " Khalimsky grid")
        ctx.eq(np.asarray(hg.graph_4_adjacency_2_khalimsky(mk_graph(H * W, E), np.array(w, dtype=dt), (H, W), border)).tolist(), want.tolist(),
               what + " Khalimsky grid with an explicit shape")
        rev = mk_graph(H * W, [(c, a) for a, c in E])
        ctx.eq(np.asarray(hg.graph_4_adjacency_2_khalimsky(rev, np.array(w, dtype=dt), (H, W), border)).tolist(), want.tolist(),
               what + " Khalimsky grid of the graph with each edge written from its target")
        for mode, arg in (("new graph", None), ("given graph", g)):
            G2, w2 = hg.khalimsky_2_graph_4_adjacency(np.asarray(K), border, arg)
            ctx.eq(tuple(hg.CptGridGraph.get_shape(G2)), (H, W), what + " shape of the graph of the Khalimsky grid (%s)" % mode)
            ctx.eq(edges_of(G2), E, what + " edges of the graph of the Khalimsky grid (%s)" % mode)
            ctx.eq(np.asarray(w2).tolist(), [float(x) for x in w], what + " weights back from the Khalimsky grid (%s)" % mode)
        ctx.raises(lambda: hg.khalimsky_2_graph_4_adjacency(np.asarray(K), not border, g), what + " back with the other border option on the graph")
        ctx.raises(lambda: hg.khalimsky_2_graph_4_adjacency(np.asarray(K)[..., None], border), what + " back from a 3d array")
        ctx.outcome(tuple(ints(K)))
    ctx.raises(lambda: hg.graph_4_adjacency_2_khalimsky(g, np.array(w + [0], dtype=dt)), "grid %r with too many weights" % ((H, W),))
    ctx.raises(lambda: hg.graph_4_adjacency_2_khalimsky(g, np.array(w, dtype=dt), (H, W + 1)), "grid %r with a wrong shape" % ((H, W),))


def ends(e, H, W):
    """the two 0-faces around an edge, in the grid with a border"""
    y, x = kface(e, W, 1)
    return ((y, x - 1), (y, x + 1)) if y % 2 == 0 else ((y - 1, x), (y + 1, x))


def mid(e, W):
    (a, b), (c, d) = divmod(e[0], W), divmod(e[1], W)
    return ((a + c) / 2, (b + d) / 2)


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def pline(p, v, w):
    n = dist(v, w)
    if n == 0:
        return dist(p, v)
    return abs((w[0] - v[0]) * (p[1] - v[1]) - (w[1] - v[1]) * (p[0] - v[0])) / n


def rdp(pts, i, j, ctrl, eps, rel, ms):
    """can the recursion on the points i..j give the control points ctrl (indexes, both ends included)?"""
    if j - i < 2:
        return not [c for c in ctrl if i < c < j]
    th = eps * dist(pts[i], pts[j]) if rel else eps
    d = {m: pline(pts[m], pts[i], pts[j]) for m in range(i + 1, j)}
    sure = [m for m in d if d[m] > th + 1e-9 and d[m] > ms + 1e-9]
    may = [m for m in d if d[m] >= th - 1e-9 and d[m] > ms - 1e-9]
    inner = [c for c in ctrl if i < c < j]
    if not inner:
        return not sure
    best = max(d[m] for m in may) if may else 0
    for m in inner:
        if m in may and d[m] >= best - 1e-9:
            if rdp(pts, i, m, [c for c in inner if c < m], eps, rel, ms) and rdp(pts, m, j, [c for c in inner if c > m], eps, rel, ms):
                return True
    return False


def polylines(H, W, E, cut):
    """the maximal paths of cut edges: list of sets of edges"""
    at = {}
    for i in cut:
        for f in ends(E[i], H, W):
            at.setdefault(f, []).append(i)
    stop = lambda f: f[0] in (0, 2 * H) or f[1] in (0, 2 * W) or len(at[f]) > 2
    par = {i: i for i in cut}

    def find(i):
        while par[i] != i:
            i = par[i]
        return i
    for f, l in at.items():
        if not stop(f):
            for i in l:
                par[find(i)] = find(l[0])
    cl = {}
    for i in cut:
        cl.setdefault(find(i), []).append(i)
    return sorted(sorted(c) for c in cl.values()), stop


def follow(contours):
    """(list of polylines; a polyline is a list of segments; a segment a list of (edge, point))"""
    return [[[(int(e), tuple(float(c) for c in p)) for e, p in seg] for seg in pl] for pl in contours]


def contours(case, ctx):
    H, W, lab = case[0], case[1], tuple(case[2])
    k = case[3]
    ctx.state((H, W, lab))
    g = hg.get_4_adjacency_graph((H, W))
    E = edges_of(g)
    cut = [i for i, (a, b) in enumerate(E) if lab[a] != lab[b]]
    w = [(1 + (i + k) % 3) if lab[a] != lab[b] else 0 for i, (a, b) in enumerate(E)]
    dt = DT[k % len(DT)]
    want, stop = polylines(H, W, E, cut)
    what = "grid %r, labels %r (%s):" % ((H, W), lab, dt)
    ctx.op()
    C = hg.fit_contour_2d(g, (H, W), np.array(w, dtype=dt))
    got = follow(C)
    ctx.eq(len(C), len(got), what + " number of polylines")
    ctx.eq(sorted(sorted(e for s in pl for e, _ in s) for pl in got), want, what + " edges of the polylines")
    full = []
    for pl in got:
        ctx.eq(len(pl), 1, what + " number of segments before simplification")
        s = pl[0]
        for e, p in s:
            ctx.eq(p, mid(E[e], W), what + " coordinates of the contour element of edge %d" % e)
        for (e, _), (f, _) in zip(s, s[1:]):
            sh = set(ends(E[e], H, W)) & set(ends(E[f], H, W))
            ctx.ok(len(sh) == 1 and not stop(next(iter(sh))), what + " elements %d and %d are not consecutive along a frontier" % (e, f))
        full.append(s)
    ctx.outcome(tuple(len(s) for s in full))
    for eps, rel, ms in PARAMS:
        C = hg.fit_contour_2d(g, (H, W), np.array(w, dtype=dt))
        ctx.op(2)
        C.subdivide(eps, rel, ms)
        first = verify_subdivision(ctx, C, full, [(eps, rel, ms)], what + " subdivide(%r, %r, %r)" % (eps, rel, ms))
        C.subdivide(eps, rel, ms)
        again = follow(C)
        ctx.eq(again, first, what + " subdivide(%r, %r, %r) done twice" % (eps, rel, ms))
        e2, r2, m2 = PARAMS[(k + PARAMS.index((eps, rel, ms))) % len(PARAMS)]
        C.subdivide(e2, r2, m2)
        then = follow(C)
        for pl, one, s in zip(then, first, full):
            at = {e: i for i, (e, _) in enumerate(s)}
            c1, c2 = [[at[seg[0][0]] for seg in q] + [at[q[-1][-1][0]]] for q in (one, pl)]
            pts = [p for _, p in s]
            ctx.ok(set(c1) <= set(c2) and all(rdp(pts, i, j, [c for c in c2 if i <= c <= j], e2, r2, m2) for i, j in zip(c1, c1[1:])),
                   what + " subdivide(%r, %r, %r) of the contours simplified with %r: points %r simplified at %r" % (e2, r2, m2, (eps, rel, ms), pts, c2))
    D = hg.fit_contour_2d(g, (H, W), np.array(w, dtype=dt))
    for pl in D:
        pl.subdivide(*PARAMS[0])
    C = hg.fit_contour_2d(g, (H, W), np.array(w, dtype=dt))
    C.subdivide(*PARAMS[0])
    ctx.eq(follow(D), follow(C), what + " subdivision of each polyline")


PARAMS = [(0.1, True, 0), (0.5, False, 0), (0, True, 0), (0.1, True, 1), (0.3, True, 2), (100, False, 0), (1, False, 0)]


def verify_subdivision(ctx, C, full, _params, what):
    eps, rel, ms = _params[0]
    got = follow(C)
    ctx.eq(len(got), len(full), what + ": number of polylines")
    for pl, s in zip(got, full):
        ctrl, flat = [0], []
        for seg in pl:
            flat += seg if not flat else seg[1:]
            if len(flat) != ctrl[-1] + len(seg):
                raise Violation(what + ": consecutive segments do not share their extremity")
            ctrl.append(len(flat) - 1)
        ctx.eq(flat, s, what + ": elements of the polyline")
        pts = [p for _, p in s]
        ctx.ok(rdp(pts, 0, len(s) - 1, ctrl, eps, rel, ms), what + ": points %r simplified at %r" % (pts, ctrl))
    for pl, gp in zip(C, got):
        ctx.eq(len(pl), len(gp), what + ": number of segments")
        for seg, gs in zip(pl, gp):
            a, b = gs[0][1], gs[-1][1]
            ctx.eq(len(seg), len(gs), what + ": size of a segment")
            ctx.eq([seg[i][0] for i in range(len(gs))], [e for e, _ in gs], what + ": indexing of a segment")
            ctx.ok(abs(seg.norm() - dist(a, b)) < 1e-9, what + ": norm of a segment")
            if dist(a, b) > 0:
                ctx.ok(abs(math.cos(seg.angle()) - (a[1] - b[1]) / dist(a, b)) < 1e-9 and abs(math.sin(seg.angle()) - (a[0] - b[0]) / dist(a, b)) < 1e-9,
                       what + ": angle of a segment")
    return got


def rag(case, ctx):
    H, W, lab, k = case[0], case[1], tuple(case[2]), case[3]
    ctx.state((H, W, lab))
    g = hg.get_4_adjacency_graph((H, W))
    E = edges_of(g)
    R = hg.make_region_adjacency_graph_from_labelisation(g, np.array(lab))
    vm, em = ints(hg.CptRegionAdjacencyGraph.get_vertex_map(R)), ints(hg.CptRegionAdjacencyGraph.get_edge_map(R))
    RE = edges_of(R)
    what = "grid %r, labels %r:" % ((H, W), lab)
    for eps, rel, ms in PARAMS[k % 2::2] + [(0.1, True, 2)]:
        C = hg.fit_contour_2d(g, (H, W), np.array([1 if lab[a] != lab[b] else 0 for a, b in E]))
        C.subdivide(eps, rel, ms)
        el, vp = [0.0] * len(RE), [0.0] * R.num_vertices()
        for pl in follow(C):
            for s in pl:
                n = dist(s[0][1], s[-1][1]) + 1
                j = em[s[0][0]]
                el[j] += n
                for v in RE[j]:
                    vp[v] += n
        for y in range(H):
            vp[vm[y * W]] += 1
            vp[vm[y * W + W - 1]] += 1
        for x in range(W):
            vp[vm[x]] += 1
            vp[vm[(H - 1) * W + x]] += 1
        ctx.op()
        a, b = hg.rag_2d_vertex_perimeter_and_edge_length(R, epsilon=eps, relative_epsilon=rel, min_size=ms)
        ctx.ok(np.allclose(a, vp, atol=1e-9) and len(a) == len(vp), what + " vertex perimeter %r, expected %r" % (np.asarray(a).tolist(), vp))
        ctx.ok(np.allclose(b, el, atol=1e-9) and len(b) == len(el), what + " edge length %r, expected %r" % (np.asarray(b).tolist(), el))
    ctx.outcome(tuple(round(x, 6) for x in vp))


def match(case, ctx):
    H, W, A = case[0], case[1], case[2]
    N = H * W
    cells = [divmod(i, W) for i in range(N)]
    diag = math.hypot(H, W)
    for k, B in enumerate(case[3]):
        p1, p2 = [i for i in range(N) if A >> i & 1], [i for i in range(N) if B >> i & 1]
        for mode, md in (("absolute", (0, 1, 1.5, 3)[(A + k) % 4]), ("relative", (0.25, 0.35, 1, 0.0075)[(A + k) % 4])):
            r = (md if mode == "absolute" else md * diag)
            ctx.state((H, W, A, B, mode, md))
            cost = {(i, j): dist(cells[i], cells[j]) for i in p1 for j in p2 if dist(cells[i], cells[j]) <= r}
            best = {frozenset(): (0, 0.0)}
            for i in p1:
                nxt = dict(best)
                for used, (c, x) in best.items():
                    for j in p2:
                        if j not in used and (i, j) in cost:
                            u, v = used | {j}, (c + 1, x + cost[i, j])
                            if u not in nxt or v[1] < nxt[u][1]:
                                nxt[u] = v
                best = nxt
            n, x = max(best.values(), key=lambda v: (v[0], -v[1]))
            dt = ("uint8", "float64", "int32")[(A + k) % 3]
            none = -1 if dt != "uint8" and k % 2 else 0
            im = [np.array([(1 + i % 3) if Z >> i & 1 else none for i in range(N)], dtype=dt).reshape(H, W) for Z in (A, B)]
            what = "images %r and %r (%s), distance %r (%s):" % (im[0].tolist(), im[1].tolist(), dt, md, mode)
            ctx.op()
            s, t = hg.match_pixels_image_2d(im[0], im[1], md, mode)
            s, t = ints(s), ints(t)
            ctx.ok(len(s) == len(t) and len(set(s)) == len(s) and len(set(t)) == len(t) and all((i, j) in cost for i, j in zip(s, t)), what + " matching %r" % (list(zip(s, t)),))
            ctx.eq(len(s), n, what + " size of the matching %r" % (list(zip(s, t)),))
            ctx.ok(abs(sum(cost[q] for q in zip(s, t)) - x) < 1e-4 * max(1, n), what + " cost of the matching %r, minimum %r" % (list(zip(s, t)), x))
            ctx.outcome((n, round(x, 6)))
    ctx.raises(lambda: hg.match_pixels_image_2d(im[0], im[1], -1.0, "absolute"), "negative distance")
    ctx.raises(lambda: hg.match_pixels_image_2d(im[0], im[1], -0.1, "relative"), "negative distance")
    ctx.raises(lambda: hg.match_pixels_image_2d(im[0], im[1], 1.0, "other"), "unknown mode")


def groups(tier):
    T = tier == "thorough"
    out = []
    shapes = [(h, w) for h in range(1, 4) for w in range(1, 4)] + ([(1, 4), (4, 1), (2, 4), (4, 2), (4, 4), (3, 4)] if T else [(1, 4), (4, 1), (2, 4)])
    kh = [(h, w, k) for h, w in shapes for k in range(2 ** min(7, 2 * h * w - h - w) if 2 * h * w - h - w <= 7 else (600 if T else 120))]
    out.append(Group("khalimsky", lambda: kh, khalimsky, "all shapes up to 3 x 3 and longer ones, all binary weights up to 7 edges, small weights of 7 types with and without border above"))

    def labs(h, w, m):
        for i, l in enumerate(itertools.product(range(m), repeat=h * w)):
            if list(gen.canon_labels(l)) == list(l):
                yield (h, w, l, i)
    spec = [(1, 1, 1), (1, 2, 2), (2, 1, 2), (1, 3, 3), (3, 1, 3), (1, 5, 3), (5, 1, 3), (2, 2, 4), (2, 3, 3), (3, 2, 3), (3, 3, 2), (2, 5, 2), (3, 4, 2)]
    if T:
        spec += [(3, 3, 4), (4, 3, 2), (2, 4, 4), (4, 4, 2), (2, 6, 2)]
    out.append(Group("contours", lambda: [c for s in spec for c in labs(*s)], contours,
                     "all labellings (2 to 4 labels) of %s, 7 simplification settings" % ", ".join("%d x %d" % s[:2] for s in spec)))
    rs = spec[:11] + ([(3, 3, 3), (3, 4, 2), (4, 4, 2), (2, 4, 4)] if T else [])
    out.append(Group("region lengths", lambda: [c for s in rs for c in labs(*s)], rag, "all labellings of %s" % ", ".join("%d x %d" % s[:2] for s in rs)))

    def mcases():
        for h, w in [(1, 1), (1, 3), (2, 2), (3, 1), (1, 4), (2, 3)] + ([(3, 2), (1, 6), (3, 3)] if T else []):
            n = h * w
            al = list(range(2 ** n))
            if n > 6:
                al = [a for a in al if bin(a).count("1") <= 4]
            for a in al:
                for i in range(0, len(al), 32):
                    if n <= 6 or (a * 7 + i // 32) % 3 == 0:
                        yield (h, w, a, al[i:i + 32])
    out.append(Group("pixel matching", mcases, match, "all pairs of binary images up to 2 x 3%s, distances relative and absolute" % (" and 6 pixels, pairs of 3 x 3 images" if T else "")))
    return out
