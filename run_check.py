#!/usr/bin/env python3
"""run_check.py ID [--tier quick|thorough] [--replay FILE]: builds /repo's current tree and runs one check."""
import os, sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vf import build
    if "VF_MOD" not in os.environ:
        d, t = build.build_module()
        print("module from %s's working tree: %.1f s" % (build.REPO, t), flush=True)
        env = dict(os.environ, VF_MOD=d, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MALLOC_PERTURB_="165", GLIBC_TUNABLES="glibc.malloc.tcache_count=0",
                   VERIF_TIER=tier, VERIF_SEED=str(seed))
        os.execve(build.PY, [build.PY, "-W", "ignore", os.path.join(ROOT, "run_check.py"), pid] + args, env)
    import importlib
    from vf import core
    import higra
    d = os.environ["VF_MOD"]
    assert os.path.realpath(higra.__file__).startswith(os.path.realpath(d)), higra.__file__
    mod = importlib.import_module("checks." + pid.lower())
    if "--replay" in args:
        return core.replay(mod, args[args.index("--replay") + 1])
    return core.run_check(mod, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
