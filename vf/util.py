import higra as hg
import numpy as np


def mk_graph(n, edges, cls=None):
    g = (cls or hg.UndirectedGraph)(n)
    if len(edges):
        e = np.asarray(edges, dtype=np.int64)
        g.add_edges(np.ascontiguousarray(e[:, 0]), np.ascontiguousarray(e[:, 1]))
    return g


def mk_tree(p, cat="p"):
    return hg.Tree(np.asarray(p, dtype=np.int64),
                   hg.TreeCategory.PartitionTree if cat == "p" else hg.TreeCategory.ComponentTree)


def ints(a):
    return [int(x) for x in np.asarray(a).ravel()]


def edges_of(g):
    s, t = g.edge_list()
    return [(int(a), int(b)) for a, b in zip(s, t)]


def tree_regions(tree):
    from vf import gen
    return gen.leaf_sets(ints(tree.parents()))


class Pipe:
    """A C++ harness answering one line per line."""

    def __init__(self, exe, limit=20):
        self.exe, self.p, self.limit = exe, None, limit

    def ask(self, *words):
        import subprocess, select, os
        from vf.core import Violation
        if self.p is None or self.p.poll() is not None or self.pid != os.getpid():
            self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            self.pid = os.getpid()
        line = " ".join(str(w) for w in words)
        self.p.stdin.write((line + "\n").encode())
        self.p.stdin.flush()
        if not select.select([self.p.stdout], [], [], self.limit)[0]:
            self.p.kill()
            self.p = None
            raise Violation("no answer within %d s to: %s" % (self.limit, line))
        r = self.p.stdout.readline().decode()
        if not r.endswith("\n"):
            c = self.p.wait()
            self.p = None
            raise Violation("the library crashed (%s) on: %s" % (c, line))
        return r.strip()
