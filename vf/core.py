"""Exhaustive bounded exploration of the real code: enumeration, execution in worker processes,
crash/hang capture, replay before report, known findings and evidence.

A check module (checks/<id>.py) defines
  ID, TITLE, ASSUMPTIONS (list of str)
  groups(tier) -> list of Group
A Group enumerates cases (JSON-able values) and runs each of them on the real code:
  Group(name, gen, run)    gen() -> iterator of cases ;  run(case, ctx) raises Violation when the property fails.
"""
import json, mmap, os, pickle, signal, struct, subprocess, sys, time, traceback, hashlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = 8


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Group:
    def __init__(self, name, gen, run, bound="", limit=30.0):
        self.name, self.gen, self.run, self.bound, self.limit = name, gen, run, bound, limit


def _h(o):
    return int.from_bytes(hashlib.blake2b(repr(o).encode(), digest_size=8).digest(), "little")


class Ctx:
    """Counters of one worker: everything here is measured while the cases run."""

    def __init__(self):
        self.ops = 0            # calls executed on the real code
        self.compared = 0       # observations compared with the reference model
        self.cases = 0
        self.states = set()     # distinct (abstract) states / inputs
        self.outcomes = set()   # distinct observed outcomes
        self.samples = []
        self.known = {}
        self.group = ""

    def op(self, n=1):
        self.ops += n

    def state(self, key):
        self.states.add(_h((self.group, key)))

    def outcome(self, o):
        if len(self.outcomes) < 200000:
            self.outcomes.add(_h((self.group, o)))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    # --- checks -----------------------------------------------------------------------------
    def eq(self, got, want, what, key=None):
        self.compared += 1
        if not same(got, want):
            raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)), key)

    def ok(self, cond, what, key=None):
        self.compared += 1
        if not cond:
            raise Violation(what, key)

    def raises(self, fn, what, key=None):
        """fn must be refused with an exception."""
        self.compared += 1
        try:
            r = fn()
        except Exception:
            return
        raise Violation("%s: accepted, returned %s" % (what, short(r)), key)


def short(o):
    s = repr(o)
    return s if len(s) < 600 else s[:600] + "..."


def same(a, b, tol=1e-9):
    import numpy as np
    if a is None or b is None:
        return a is b
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        try:
            a_, b_ = np.asarray(a), np.asarray(b)
        except ValueError:
            return all(same(x, y, tol) for x, y in zip(a, b))
        if a_.dtype == object or b_.dtype == object:
            return all(same(x, y, tol) for x, y in zip(a, b))
        a, b = a_, b_
    if isinstance(a, dict) or isinstance(b, dict) or isinstance(a, (str, set, frozenset)):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind in "biu" and b.dtype.kind in "biu":
        return bool(np.all(a == b)) if not (a.dtype == np.uint64 or b.dtype == np.uint64) else \
            [int(x) for x in a.flat] == [int(x) for x in b.flat]
    if a.dtype.kind in "biuf" and b.dtype.kind in "biuf":
        a, b = a.astype(np.float64), b.astype(np.float64)
        with np.errstate(all="ignore"):
            d = np.abs(a - b) <= tol * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b)))
            d &= np.isfinite(a) & np.isfinite(b)
        return bool(np.all(d | (a == b) | (np.isnan(a) & np.isnan(b))))
    return bool(np.all(a == b))


# --------------------------------------------------------------------------------------------
def known_findings(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.isfile(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, desc = rest.partition(" :: ")
                out[key.strip()] = desc.strip()
    return out


REC = struct.Struct("=qqd")   # group, index, start time


def _stable(m, rec):
    """A record is written by another process: believe it only when it does not move."""
    for _ in range(3):
        time.sleep(0.01)
        if REC.unpack_from(m, 0) != rec:
            return False
    return True


def _case_text(case):
    return json.dumps(case, sort_keys=True, default=_jd)


def _jd(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(repr(type(o)))


def _worker(groups, k, start, stop, slot, path, deadline, pid):
    """Runs the cases i%NPROC==k from `start`=(group, index) on; results pickled in `path`."""
    os.environ["MPLBACKEND"] = "Agg"
    ctx = Ctx()
    res = {"violations": [], "done": {}, "capped": False}
    kf = known_findings(pid)
    n_viol = 0
    for gi, g in enumerate(groups):
        if gi < start[0]:
            continue
        ctx.group = g.name
        done = 0
        for i, case in enumerate(g.gen()):
            if i % NPROC != k or (gi == start[0] and i < start[1]):
                continue
            if stop is not None and (gi, i) > stop:
                break
            if time.time() > deadline:
                res["capped"] = True
                break
            REC.pack_into(slot, 0, gi, i, time.time())
            ctx.cases += 1
            done += 1
            try:
                g.run(case, ctx)
            except Violation as v:
                key = v.key or "%s:%s" % (g.name, _case_text(case))
                if key in kf:
                    ctx.known[key] = str(v)
                    continue
                res["violations"].append((gi, i, key, str(v)))
                n_viol += 1
            except Exception as e:
                tb = traceback.format_exc(limit=-4)
                key = "%s:%s" % (g.name, _case_text(case))
                if key in kf:
                    ctx.known[key] = repr(e)
                    continue
                res["violations"].append((gi, i, key, "unexpected exception %r\n%s" % (e, tb)))
                n_viol += 1
            if n_viol >= 5:
                break
        res["done"][gi] = done
        if n_viol >= 5:
            break
    REC.pack_into(slot, 0, -1, -1, time.time())
    res["ctx"] = ctx
    with open(path + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(path + ".tmp", path)


def _spawn(fn, *args):
    sys.stdout.flush()
    sys.stderr.flush()
    p = os.fork()
    if p == 0:
        code = 3
        try:
            if not os.environ.get("VF_KEEP_STDERR"):
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 2)
                os.dup2(dn, 1)
            fn(*args)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    return p


def _run_alone(groups, pid, gi, i, k, limit, slice_from=None):
    """Runs one case (or the whole slice up to it) in its own process; returns (outcome, text)."""
    m = mmap.mmap(-1, REC.size)
    path = os.path.join(ROOT, "build", "run", "%s-alone-%d-%d" % (pid, os.getpid(), k))
    if os.path.exists(path):
        os.unlink(path)
    start = slice_from or (gi, i)
    p = _spawn(_worker, groups, k, start, (gi, i), m, path, time.time() + 10 * limit, pid)
    t = time.time()
    REC.pack_into(m, 0, -1, -1, t)
    while True:
        w, st = os.waitpid(p, os.WNOHANG)
        if w:
            break
        g_, i_, ts = REC.unpack_from(m, 0)
        if time.time() - max(ts, t) > limit and _stable(m, (g_, i_, ts)):
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
            return "hang", "no answer within %d s" % limit
        time.sleep(0.01)
    if st != 0 or not os.path.exists(path):
        return "crash", ("killed by signal %d" % os.WTERMSIG(st)) if os.WIFSIGNALED(st) else "exit status %d" % st
    with open(path, "rb") as f:
        r = pickle.load(f)
    os.unlink(path)
    for v in r["violations"]:
        if v[0] == gi and v[1] == i:
            return "violation", v[3]
    if slice_from and r["violations"]:
        return "violation", r["violations"][0][3]
    return "pass", ""


def all_groups(mod, tier):
    """The groups of the check, and those of its property which cross the limits of small integer types."""
    from vf import sizes
    return list(mod.groups(tier)) + sizes.groups(mod.ID)


def run_check(mod, tier, seed, budget=None):
    t0 = time.time()
    pid = mod.ID
    os.makedirs(os.path.join(ROOT, "build", "run"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "build", "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    groups = all_groups(mod, tier)
    only = os.environ.get("VF_GROUP")
    if only:
        groups = [g for g in groups if g.name in only.split(",")]
    deadline = t0 + (budget or (420 if tier == "quick" else 3 * 3600))
    kf = known_findings(pid)
    workers = {}
    results = []
    violations = []   # (gi, i, key, text)
    m = [mmap.mmap(-1, REC.size) for _ in range(NPROC)]
    path = lambda k, n: os.path.join(ROOT, "build", "run", "%s-%d-%d-%d" % (pid, os.getpid(), k, n))
    notes = []

    def launch(k, start, n):
        REC.pack_into(m[k], 0, -1, -1, time.time())
        p = path(k, n)
        if os.path.exists(p):
            os.unlink(p)
        workers[k] = (_spawn(_worker, groups, k, start, None, m[k], p, deadline, pid), n, start)

    for k in range(NPROC):
        launch(k, (0, 0), 0)
    restarts = 0
    while workers:
        progressed = False
        for k in list(workers):
            p, n, start = workers[k]
            w, st = os.waitpid(p, os.WNOHANG)
            gi, i, ts = REC.unpack_from(m[k], 0)
            bad = None
            if w:
                progressed = True
                del workers[k]
                f = path(k, n)
                if st == 0 and os.path.exists(f):
                    with open(f, "rb") as fh:
                        results.append(pickle.load(fh))
                    os.unlink(f)
                    continue
                bad = "crash"
            elif gi >= 0 and ts > 0 and time.time() - ts > groups[gi].limit and _stable(m[k], (gi, i, ts)):
                progressed = True
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                del workers[k]
                bad = "hang"
            if bad:
                if gi < 0:
                    raise RuntimeError("worker %d of %s ended before its first case / after the last" % (k, pid))
                o, text = _run_alone(groups, pid, gi, i, k, 4 * groups[gi].limit)
                hist = None
                if o == "pass" and bad == "crash":
                    hist = start
                    o, text = _run_alone(groups, pid, gi, i, k, 4 * groups[gi].limit, slice_from=start)
                if o == "pass":
                    notes.append("%s of %s case %d was not reproduced" % (bad, groups[gi].name, i))
                else:
                    case = _nth(groups[gi], i)
                    key = "%s:%s" % (groups[gi].name, _case_text(case))
                    if key in kf:
                        results.append({"violations": [], "done": {}, "capped": False, "ctx": Ctx()})
                        results[-1]["ctx"].known[key] = "%s (%s)" % (o, text)
                    else:
                        violations.append((gi, i, key, "%s: %s" % (o, text), hist, k))
                restarts += 1
                if restarts < 6:
                    launch(k, (gi, i + 1), n + 1)
        if not progressed:
            time.sleep(0.02)

    # replay before report
    raw = sorted(v for r in results for v in r["violations"])
    for gi, i, key, text in raw:
        if len(violations) >= 8:
            break
        k = i % NPROC
        o, t2 = _run_alone(groups, pid, gi, i, k, 4 * groups[gi].limit)
        hist = None
        if o == "pass":
            hist = (0, 0)
            o, t2 = _run_alone(groups, pid, gi, i, k, 4 * groups[gi].limit, slice_from=hist)
        if o == "pass":
            notes.append("violation of %s case %d was not reproduced: %s" % (groups[gi].name, i, text))
            continue
        violations.append((gi, i, key, text if o == "violation" else "%s: %s" % (o, t2), hist, k))

    tot = Ctx()
    for r in results:
        c = r["ctx"]
        tot.ops += c.ops
        tot.compared += c.compared
        tot.cases += c.cases
        tot.states |= c.states
        tot.outcomes |= c.outcomes
        tot.known.update(c.known)
    samples = []
    per_group = {}
    for r in results:
        for gi, nd in r["done"].items():
            per_group[groups[gi].name] = per_group.get(groups[gi].name, 0) + nd
    for gi, g in enumerate(groups):
        if g.name in per_group and per_group[g.name]:
            samples.append({"group": g.name, "case": _nth(g, min(per_group[g.name] - 1, 37))})
    capped = any(r["capped"] for r in results) or restarts >= 6
    for r in results:
        samples.extend(r["ctx"].samples[:1])
    cov = {
        "states": len(tot.states) if tot.states else tot.cases,
        "transitions": tot.ops,
        "traces_validated_against_impl": tot.cases,
        "evaluations": tot.compared,
        "distinct_nontrivial": len(tot.outcomes),
        "rule": "states: distinct inputs/abstract states; transitions: calls executed on the real code; "
                "traces: enumerated cases executed on the real code and compared step by step with the reference model; "
                "evaluations: single comparisons; distinct_nontrivial: distinct observed outcomes",
        "cases_per_group": per_group,
        "bounds": {g.name: g.bound for g in groups if g.bound},
        "samples": json.loads(json.dumps(samples, default=_jd))[:40],
        "exhaustive": not capped and not violations,
    }
    if notes:
        cov["notes"] = notes[:10]
    if capped:
        cov["cap"] = "time limit or restart limit hit: groups are covered only as far as cases_per_group says"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    if only is None:
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    for key in sorted(tot.known):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[key] or key))
    for n in notes[:10]:
        print("note: " + n)
    print("%s: %d cases, %d states, %d calls, %d comparisons, %d outcomes, %.1f s%s" % (
        pid, tot.cases, cov["states"], tot.ops, tot.compared, len(tot.outcomes), time.time() - t0,
        " (capped)" if capped else ""))
    if os.environ.get("VF_VERBOSE"):
        for g, c in per_group.items():
            print("   %s: %d" % (g, c))
    rc = 0
    for n, (gi, i, key, text, hist, k) in enumerate(violations):
        rp = os.path.join(ROOT, "build", "replays", "%s-%d.json" % (pid, n))
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "group": groups[gi].name, "index": i,
                       "case": _nth(groups[gi], i), "key": key, "text": text, "history_from": hist,
                       "replay_cmd": "python3 /verif/run_check.py %s --replay %s" % (pid, rp)},
                      f, indent=1, default=_jd)
        print("  %s case %d %s\n    %s" % (groups[gi].name, i, short(_nth(groups[gi], i)), text[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    sys.stdout.flush()
    return rc


def _nth(g, i):
    for j, c in enumerate(g.gen()):
        if j == i:
            return c
    return None


def replay(mod, path):
    with open(path) as f:
        r = json.load(f)
    for g in all_groups(mod, r["tier"]):
        if g.name == r["group"]:
            ctx = Ctx()
            ctx.group = g.name
            try:
                g.run(r["case"], ctx)
            except Exception as e:
                print("VIOLATION property=%s replay=%s" % (mod.ID, path))
                print("  %s" % e)
                return 1
            print("the case passes")
            return 0
    print("no group %s" % r["group"])
    return 2
