"""Drives the controlled scheduler (sched/vpsched.cpp) and enumerates schedules."""
import collections
import ctypes
import math
import os
import sys
import time

LIB = None
CAP = 250000
BLAS = ["axpy", "symv", "dot", "scal"]
LAPACK = ["posv", "gesv"]


def install():
    """Loads the runtime and routes the code's BLAS calls through it; before importing implicit."""
    global LIB
    if LIB is not None:
        return LIB
    if "implicit" in sys.modules:
        raise RuntimeError("the BLAS functions have to be replaced before implicit is imported")
    path = open(os.path.join(os.environ["VP_TREE"], "schedlib.txt")).read()
    LIB = ctypes.CDLL(path)
    LIB.vp_stop.argtypes = [ctypes.c_void_p] * 3 + [ctypes.c_int, ctypes.c_void_p]
    LIB.vp_start.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    LIB.vp_thread_new.restype = ctypes.c_void_p
    for n in ("vp_thread_enter", "vp_block", "vp_wake", "vp_lock_push", "vp_lock_pop"):
        getattr(LIB, n).argtypes = [ctypes.c_void_p]
    LIB.vp_set_real.argtypes = [ctypes.c_int, ctypes.c_void_p]
    import scipy.linalg.cython_blas as cb
    import scipy.linalg.cython_lapack as cl
    api = ctypes.pythonapi
    api.PyCapsule_GetName.restype = ctypes.c_char_p
    api.PyCapsule_GetName.argtypes = [ctypes.py_object]
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    for t, base in (("s", 0), ("d", 6)):
        for k, name in enumerate(BLAS + LAPACK):
            capi = (cb if name in BLAS else cl).__pyx_capi__
            cap = capi[t + name]
            sig = api.PyCapsule_GetName(cap)
            LIB.vp_set_real(base + k, api.PyCapsule_GetPointer(cap, sig))
            fn = ctypes.cast(getattr(LIB, "vp_" + t + name), ctypes.c_void_p).value
            _keep.append((cap, sig))
            capi[t + name] = api.PyCapsule_New(fn, sig, None)
    return LIB


_keep = []
_info = (ctypes.c_long * 8)()
_buf = None


class Run:
    """one execution under a given schedule prefix"""

    def __init__(self, body, prefix, bound, focus):
        import numpy as np
        global _buf
        if _buf is None:
            _buf = [np.zeros(CAP, dtype=np.int32) for _ in range(3)]
        self.prefix = np.ascontiguousarray(prefix, dtype=np.int32)
        LIB.vp_start(self.prefix.ctypes.data if len(self.prefix) else None, len(self.prefix), bound, focus)
        try:
            self.out = body()
        finally:
            n = LIB.vp_stop(*[b.ctypes.data for b in _buf], CAP, _info)
        self.alts, self.chosen = _buf[0][:n].astype(np.int16), _buf[1][:n].astype(np.int16)
        self.preempt = _buf[2][:n].astype(bool)
        self.diverged, self.fresh, self.preemptions, self.switches, self.accesses, self.points, self.regions = _info[:7]

    def key(self):
        """identifies the schedule"""
        return self.chosen.tobytes()

    def show(self):
        nz = [(i, int(c)) for i, c in enumerate(self.chosen) if c]
        return "of %d decisions [%s]" % (len(self.chosen), ", ".join("#%d: thread %d" % x for x in nz) or "all default")


def _alternatives(run, preempt):
    """every decision after the run's prefix taken differently, far apart ones first"""
    import numpy as np
    L = len(run.prefix)
    pos = np.flatnonzero((run.alts > 1) & (run.preempt == preempt))
    pos = pos[pos >= L]
    n = len(pos)
    if not n:
        return
    prefix = run.prefix
    alts = run.alts[pos]
    step = max(1, int(n * 0.6180339887))
    while math.gcd(step, n) != 1:
        step += 1
    i = n - 1
    for _ in range(n):
        p = int(pos[i])
        for c in range(1, int(alts[i])):
            out = np.zeros(p + 1, dtype=np.int32)
            out[:L] = prefix
            out[p] = c
            yield out
        i = (i + step) % n


def explore(body, bound, focus=-1, limit=None, stats=None, late=None, seconds=None):
    """Yields a Run for every schedule (all free choices, at most `bound` preemptions), those with
    fewer preemptions first.

    When an execution reveals new conflicting program points the enumeration starts again with
    them as preemption points, until nothing new appears.
    """
    stats = stats if stats is not None else {}
    stats.setdefault("schedules", 0)
    n, t0 = 0, time.monotonic()
    levels = [collections.deque() for _ in range(bound + 1)]
    prefix, level = [], 0
    while True:
        r = Run(body, prefix, bound, focus)
        n += 1
        stats["schedules"] += 1
        stats["decisions"] = stats.get("decisions", 0) + len(r.chosen)
        stats["switches"] = stats.get("switches", 0) + r.switches
        yield r
        if (limit and n >= limit) or (late and late()) or (seconds and time.monotonic() - t0 > seconds):
            stats["limited"] = stats.get("limited", 0) + 1
            return
        if r.fresh or r.diverged:
            if r.diverged and not r.fresh:
                stats["diverged"] = stats.get("diverged", 0) + 1
                if stats["diverged"] > 50:      # not reproducible: what was explored counts, the rest doesn't
                    stats["limited"] = stats.get("limited", 0) + 1
                    return
            stats["restarts"] = stats.get("restarts", 0) + 1
            for q in levels:
                q.clear()
            prefix, level = [], 0
            continue
        r.out = None
        levels[level].append(_alternatives(r, False))
        if level < bound:
            levels[level + 1].append(_alternatives(r, True))
        prefix = None
        for level, q in enumerate(levels):
            while q and prefix is None:
                prefix = next(q[0], None)
                if prefix is None:
                    q.popleft()
                else:
                    q.rotate(-1)
            if prefix is not None:
                break
        if prefix is None:
            return
