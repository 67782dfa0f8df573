"""Out-of-tree build of /repo's current working tree.

Every variant is a directory  .build/<variant>/<key>/implicit  holding copies of the .py files and
freshly compiled extension modules.  Objects are cached by the hash of everything they are
compiled from, so nothing stale can be used.  /repo itself is only read.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")  # override is for development only
BUILD = os.path.join(VERIF, ".build")
EXT = sysconfig.get_config_var("EXT_SUFFIX")
SCHED = os.path.join(VERIF, "sched")

CYFLAGS = ["--cplus", "--directive",
           "always_allow_keywords=True,binding=True,embedsignature=True,language_level=3"]


def _includes():
    import numpy
    return ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]


BASEFLAGS = ["-std=gnu++11", "-fPIC", "-DNDEBUG", "-fno-strict-aliasing", "-w",
             "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"]
VARIANTS = {
    # what users run
    "plain": dict(cxx=["-O2", "-fopenmp"], ld=["-fopenmp"], src=[]),
    # memory checker
    "asan": dict(cxx=["-O1", "-g", "-fopenmp", "-fno-omit-frame-pointer", "-fsanitize=address"],
                 ld=["-fopenmp", "-fsanitize=address"], src=[]),
    # controlled scheduler: every memory access and OpenMP construct calls our runtime
    "sched": dict(cxx=["-O1", "-fopenmp", "-fsanitize=thread", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"],
                  ld=["-Wl,--wrap=" + f for f in (
                      "malloc calloc realloc free _Znwm _Znam _ZdlPv _ZdlPvm _ZdaPv memcpy memmove memset "
                      "PyEval_SaveThread PyEval_RestoreThread PyGILState_Ensure PyGILState_Release "
                      "pthread_mutex_lock pthread_mutex_unlock").split()],
                  src=["vpsched.cpp"], runtime=True),
    # scripted random number generator for the C++ samplers
    "rng": dict(cxx=["-O2", "-fopenmp", "-include", os.path.join(SCHED, "rng.h")],
                ld=["-fopenmp"], src=["rng.h"]),
}


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def _sources():
    root = os.path.join(REPO, "implicit")
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith((".py", ".pyx", ".pxd", ".pxi", ".h", ".hpp")):
                out.append(rel)
    return out


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def _atomic(tmp, dst):
    os.replace(tmp, dst)


def build(variant="plain", verbose=False):
    """Builds (if needed) and returns the directory to put first on sys.path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(variant, verbose)


def _build(variant, verbose):
    v = VARIANTS[variant]
    rels = _sources()
    contents = {r: _read(os.path.join(REPO, r)) for r in rels}
    vsrc = [_read(os.path.join(SCHED, s)) for s in v["src"]]
    tree_key = _hash(repr(v), repr([(r, _hash(contents[r])) for r in rels]), *vsrc)
    vdir = os.path.join(BUILD, variant)
    tree = os.path.join(vdir, "tree-" + tree_key)
    if os.path.exists(os.path.join(tree, ".complete")):
        return tree
    shutil.rmtree(tree, ignore_errors=True)
    os.makedirs(tree)
    for r in rels:
        dst = os.path.join(tree, r)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "wb") as f:
            f.write(contents[r])
    cy = os.path.join(BUILD, "cython")
    objs = os.path.join(vdir, "objs")
    os.makedirs(cy, exist_ok=True)
    os.makedirs(objs, exist_ok=True)

    deps = _hash(repr([(r, _hash(contents[r])) for r in rels if r.endswith((".pxd", ".pxi", ".h", ".hpp"))]))
    ldflags = list(v["ld"])
    if v.get("runtime"):
        lib = os.path.join(vdir, "libvpsched-%s.so" % _hash(repr(v), *vsrc))
        if not os.path.exists(lib):
            _run(["g++", "-std=gnu++17", "-O2", "-g", "-fPIC", "-shared", "-pthread", "-w"] + _includes() +
                 [os.path.join(SCHED, "vpsched.cpp"), "-o", lib + ".tmp"])
            _atomic(lib + ".tmp", lib)
        ldflags += [lib, "-Wl,-rpath," + vdir]
        with open(os.path.join(tree, "schedlib.txt"), "w") as f:
            f.write(lib)

    def one(rel):
        base = rel[:-4]
        ck = _hash("cy3", repr(CYFLAGS), rel, contents[rel], deps)
        cxx = os.path.join(cy, base.replace("/", ".") + "-" + ck + ".cxx")
        if not os.path.exists(cxx):
            tmp = cxx + ".%d.tmp.cxx" % os.getpid()
            _run([sys.executable, "-m", "cython"] + CYFLAGS + ["--include-dir", tree, rel,
                                                               "--output-file", tmp], cwd=tree)
            _atomic(tmp, cxx)
        ok = _hash(repr(v), repr(BASEFLAGS), ck, deps, repr(ldflags), *vsrc)
        so = os.path.join(objs, base.replace("/", ".") + "-" + ok + ".so")
        if not os.path.exists(so):
            tmp = so + ".%d.tmp" % os.getpid()
            obj = tmp + ".o"
            _run(["g++"] + BASEFLAGS + v["cxx"] + _includes() + ["-I", tree, "-c", cxx, "-o", obj])
            _run(["g++", "-shared", obj, "-o", tmp] + ldflags)
            os.remove(obj)
            _atomic(tmp, so)
        shutil.copy(so, os.path.join(tree, base + EXT))

    mods = [r for r in rels if r.endswith(".pyx") and not r.startswith("implicit/gpu/")]
    mods.sort(key=lambda r: -len(contents[r]))
    with ThreadPoolExecutor(max_workers=8) as ex:
        for fut in [ex.submit(one, m) for m in mods]:
            fut.result()
    open(os.path.join(tree, ".complete"), "w").close()
    _prune(vdir, tree)
    return tree


def _prune(vdir, keep):
    trees = sorted(glob.glob(os.path.join(vdir, "tree-*")), key=os.path.getmtime)
    for t in trees[:-6]:
        if t != keep:
            shutil.rmtree(t, ignore_errors=True)
    objs = sorted(glob.glob(os.path.join(vdir, "objs", "*.so")), key=os.path.getmtime)
    for o in objs[:-60]:
        os.remove(o)


if __name__ == "__main__":
    import time
    ready = [n for n, v in VARIANTS.items() if all(os.path.exists(os.path.join(SCHED, s)) for s in v["src"])]
    for name in sys.argv[1:] or ready:
        t = time.time()
        try:
            print(name, build(name), "%.1fs" % (time.time() - t), flush=True)
        except (BuildError, FileNotFoundError) as e:
            print(name, "FAILED", e)
            sys.exit(2)
