"""C05: all operation histories of the real Fibonacci heap (C++ harness) from all listed initial heaps, against a reference multiset."""
import subprocess
from vf import build
from vf.core import Group, Violation

ID = "C05"
ASSUMPTIONS = ["keys are integers; ties may be popped in any order", "pop/erase/decrease are called on live elements only, merge with another heap"]
PER, PER_OPS = 11, 6
EXE = None


def exe():
    global EXE
    if EXE is None:
        EXE = build.harness("heap")
    return EXE


def run(case, ctx):
    args = [str(x) for x in case]
    r = subprocess.run([exe()] + args, capture_output=True, text=True)
    ctx.state(tuple(case))
    if r.returncode != 0 or not r.stdout.startswith("OK"):
        raise Violation("heap %s: %s %s (exit %d)" % (" ".join(args), r.stdout.strip()[:600], r.stderr.strip()[:600], r.returncode))
    d = dict(x.split("=") for x in r.stdout.split()[1:])
    ctx.op(int(d["ops"]))
    ctx.compared += int(d["checks"])
    ctx.cases += int(d["histories"]) - 1
    ctx.outcome(tuple(sorted(d.items())))


def cases(deep):
    def g():
        # (sizes, depth): histories of `depth` operations from every initial pair of heaps
        plans = [((0, 0), 4), ((1, 0), 3), ((1, 1), 3), ((2, 1), 3), ((3, 0), 3), ((3, 2), 2), ((4, 0), 3), ((5, 0), 3), ((8, 0), 3), ((9, 0), 2),
                 ((9, 5), 2), ((17, 0), 2), ((33, 2), 1)] if not deep else \
                [((0, 0), 5), ((1, 0), 4), ((1, 1), 4), ((2, 1), 4), ((3, 0), 4), ((3, 2), 3), ((4, 0), 4), ((5, 0), 4), ((6, 0), 3), ((7, 0), 3), ((8, 0), 4),
                 ((9, 0), 4), ((9, 5), 3), ((10, 0), 3), ((17, 0), 3), ((17, 9), 2), ((33, 2), 2)]
        for (a, b), depth in plans:
            slots = a + b + 2
            n = PER + PER_OPS * slots
            sa = range(15) if a > 1 and (deep or a < 8) else (1, 4, 8, 11, 13) if a > 1 else (0, 1, 2) if a else (0,)
            sb = (0, 4, 11) if b > 1 else (0, 2) if b else (0,)
            step = n if depth < 3 or n < 40 else 16
            for x in sa:
                for y in sb:
                    for lo in range(0, n, step):
                        yield [a, x, b, y, depth, lo, lo + step]
    return g


def groups(tier):
    exe()
    deep = tier != "quick"
    return [Group("histories", cases(deep), run, "every history of 1 to 4 (thorough: 5) operations out of up to 200 (push, pop, erase, decrease, increase, update, merge, move, clear) "
                                                 "from every initial pair of heaps (15 build patterns, up to 33 elements), each drained", limit=900),
            Group("big", lambda: (["big", n] for n in (100, 4095, 4096, 4097, 8200, 20000)), run, "more elements than a block of the node pool", limit=120)]
