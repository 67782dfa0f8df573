"""Python threads under the controlled scheduler.

Every line (or bytecode instruction) of the code under test executed by one of these threads is a
decision point; locks created by that code are replaced by locks the scheduler knows.
"""
import _thread
import itertools
import os
import sys
import threading

from . import sched

REAL = {}
_ids = itertools.count(0x1000)
exploring = False


class VLock:
    """threading.Lock for scheduled threads"""
    recursive = False

    def __init__(self):
        self.addr = next(_ids) * 16
        self.owner, self.count = None, 0
        self.real = REAL["RLock" if self.recursive else "Lock"]()

    def acquire(self, blocking=True, timeout=-1):
        me = sched.LIB.vp_self() if exploring else -1
        if me < 0:
            return self.real.acquire(blocking, timeout)
        sched.LIB.vp_point(1)
        if not (self.recursive and self.owner == me):
            while self.owner is not None:
                if not blocking or timeout == 0:
                    return False
                sched.LIB.vp_block(self.addr)
            self.owner = me
            sched.LIB.vp_lock_push(self.addr)
        self.count += 1
        return True

    def release(self):
        if not exploring or sched.LIB.vp_self() < 0:
            return self.real.release()
        if self.owner is None or (self.recursive and self.owner != sched.LIB.vp_self()):
            raise RuntimeError("release of an unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            sched.LIB.vp_lock_pop(self.addr)
            sched.LIB.vp_wake(self.addr)
            sched.LIB.vp_point(1)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None or (hasattr(self.real, "locked") and self.real.locked())


class VRLock(VLock):
    recursive = True

    def _is_owned(self):
        if exploring and sched.LIB.vp_self() >= 0:
            return self.owner == sched.LIB.vp_self()
        return self.real._is_owned()

    def _release_save(self):
        n = self.count
        self.count = 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n


def _from_code_under_test(tree):
    f = sys._getframe(2)
    for _ in range(12):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(tree):
            return True
        f = f.f_back
    return False


def install():
    """before importing implicit"""
    sched.install()
    tree = os.environ["VP_TREE"] + "/implicit/"
    here = os.path.dirname(os.path.abspath(__file__)) + "/"
    REAL.update(Lock=threading.Lock, RLock=threading.RLock)

    def factory(cls, real):
        def make():
            if _from_code_under_test(tree) or sys._getframe(1).f_code.co_filename.startswith(here):
                return cls()
            return real()
        return make
    threading.Lock = threading._allocate_lock = factory(VLock, REAL["Lock"])
    threading.RLock = factory(VRLock, REAL["RLock"])
    return tree


def run(calls, tree, opcodes=False):
    """Runs the calls in one scheduled thread each; returns ("ok", value) or ("error", text) per call."""
    global exploring
    LIB = sched.LIB
    out = [None] * len(calls)
    point = LIB.vp_point

    def local(frame, event, arg):
        if event == "line" or event == "opcode":
            point(1)
        return local

    def glob(frame, event, arg):
        if not frame.f_code.co_filename.startswith(tree):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return local

    def main(k, ptr):
        LIB.vp_thread_enter(ptr)
        sys.settrace(glob)
        try:
            out[k] = ("ok", calls[k]())
        except BaseException as e:  # noqa: B902
            out[k] = ("error", "%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            LIB.vp_thread_exit()

    for k in range(len(calls)):
        _thread.start_new_thread(main, (k, LIB.vp_thread_new()))
    exploring = True
    try:
        LIB.vp_run()
    finally:
        exploring = False
    return out
