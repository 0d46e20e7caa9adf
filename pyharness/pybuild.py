"""Builds the repository's own Python package (its pybind sources against shim/pybind11) and runs one explorer on it."""
import fcntl, os, shutil, subprocess, sys

PYTHON = "/opt/veriftools/pyvenv/bin/python3"
NUMPY_INC = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/numpy/_core/include"
PY_INC = "/usr/include/python3.12"


def build(VERIF, SRC, run_ninja, RULES, core, flavor):
    flags, ld = flavor
    flags = flags + " -I%s -I%s" % (PY_INC, NUMPY_INC)
    bdir = os.path.join(VERIF, "build", "pic")
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t = RULES
    objs = []
    pyb = []
    for root, _, files in os.walk(SRC):
        pyb += [os.path.join(root, f) for f in files if f.endswith(".pybind.cc")]
    for s in core + sorted(pyb) + [os.path.join(VERIF, "shim/pybind11/numpy_owner.cc")]:
        o = "obj/" + (os.path.relpath(s, SRC) if s.startswith(SRC) else os.path.basename(s)).replace("/", "__") + ".o"
        objs.append(o)
        t += "build %s: cxx %s\n  flags = %s\n" % (o, s, flags)
    so = "pkg/pymatching/_cpp_pymatching.so"
    t += "build %s: link %s\n  ldflags = -shared %s -lpthread\n" % (so, " ".join(objs), ld)
    pkg = os.path.join(bdir, "pkg", "pymatching")
    os.makedirs(pkg, exist_ok=True)
    run_ninja(bdir, t, so)
    # the package's Python files, from the working tree
    for f in os.listdir(pkg):
        if f.endswith(".py"):
            os.unlink(os.path.join(pkg, f))
    src = os.path.join(SRC, "pymatching")
    for f in os.listdir(src):
        if f.endswith(".py"):
            shutil.copyfile(os.path.join(src, f), os.path.join(pkg, f))
    lock.close()
    return os.path.join(bdir, "pkg")


def build_and_exec(VERIF, SRC, script, args, run_ninja, RULES, core, flavor):
    pkg = build(VERIF, SRC, run_ninja, RULES, core, flavor)
    env = dict(os.environ)
    env["PYTHONPATH"] = os.pathsep.join([pkg, os.path.join(VERIF, "pyharness"), os.path.join(VERIF, "pyharness", "stubs")])
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    sys.stdout.flush()
    os.execve(PYTHON, [PYTHON, "-W", "ignore", os.path.join(VERIF, "pyharness", script)] + args, env)
