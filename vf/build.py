"""Builds the Higra Python module from /repo's current working tree, out of tree, in /verif/build."""
import fcntl, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, "build")
BUILD = os.environ.get("VF_BUILD", CACHE)
REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/higra/venv/bin/python"
EXTRA = "-O0 -g0 -w -D_GLIBCXX_ASSERTIONS"


def _env(cc, cxx):
    e = dict(os.environ)
    e.update(CC=cc, CXX=cxx, CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_MAXSIZE="4G",
             CCACHE_NOHASHDIR="1", PYTHONDONTWRITEBYTECODE="1", HOME=os.environ.get("HOME", "/root"))
    e.pop("PYTHONPATH", None)
    return e


def _purge_py(d):
    for top, _, fs in os.walk(d):
        for f in fs:
            if f.endswith((".py", ".pyc")):
                os.unlink(os.path.join(top, f))


def _try(cc, cxx, d, log):
    env = _env(cc, cxx)
    if os.path.isdir(os.path.join(d, "higra")):
        _purge_py(os.path.join(d, "higra"))
    cmake = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
             "-DCMAKE_CXX_FLAGS_DEBUG=" + EXTRA, "-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF",
             "-DPython_EXECUTABLE=" + PY, "-DDO_CPP_TEST=OFF", "-DHG_USE_TBB=OFF"]
    for attempt in range(2):
        r = subprocess.run(cmake, env=env, stdout=log, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            break
        shutil.rmtree(d, ignore_errors=True)
    else:
        return False
    r = subprocess.run(["ninja", "-C", d, "-j8", "higram"], env=env, stdout=log, stderr=subprocess.STDOUT)
    return r.returncode == 0 and os.path.isfile(os.path.join(d, "higra", "__init__.py"))


def build_module():
    """Returns the directory to put on PYTHONPATH."""
    os.makedirs(BUILD, exist_ok=True)
    t = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(os.path.join(BUILD, "build.log"), "w") as log:
            for cc, cxx, d in (("clang", "clang++", "mod"), ("gcc", "g++", "mod_gcc")):
                dd = os.path.join(BUILD, d)
                if shutil.which(cxx) and _try(cc, cxx, dd, log):
                    return dd, time.time() - t
    with open(os.path.join(BUILD, "build.log")) as f:
        sys.stderr.write(f.read()[-4000:])
    raise RuntimeError("the module does not build")


HARNESSES = (("heap", "heap.cpp", ("-O2", "-g0", "-fsanitize=undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS")),
             ("trees", "trees.cpp", ("-O0", "-g0", "-D_GLIBCXX_ASSERTIONS")),
             ("io", "io.cpp", ("-O0", "-g0", "-D_GLIBCXX_ASSERTIONS")))


def harness(name):
    return build_harness(*[h for h in HARNESSES if h[0] == name][0])[0]


def build_harness(name, src, flags=()):
    """Compiles a stand-alone C++ harness of /verif/harness against /repo's headers."""
    os.makedirs(os.path.join(BUILD, "harness"), exist_ok=True)
    out = os.path.join(BUILD, "harness", name)
    srcp = os.path.join(ROOT, "harness", src)
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "lib", "include")]
    t = time.time()
    err = ""
    for cc, cxx in (("clang", "clang++"), ("gcc", "g++")):
        cmd = ["ccache", cxx] if shutil.which("ccache") else [cxx]
        env = _env(cc, cxx)
        obj = out + ".o"
        r = subprocess.run(cmd + ["-std=c++17", "-w", *inc, *flags, "-c", srcp, "-o", obj],
                           env=env, capture_output=True, text=True)
        if r.returncode == 0:
            r = subprocess.run([cxx, *flags, obj, "-o", out], env=env, capture_output=True, text=True)
            if r.returncode == 0:
                return out, time.time() - t
        err += r.stderr
    sys.stderr.write(err[-4000:])
    raise RuntimeError("harness %s does not build" % name)


if __name__ == "__main__":
    d, t = build_module()
    print("module built in %s (%.1f s)" % (d, t))
