"""A model file holds a whole model or is refused, and is never executed."""
import io
import os
import pickle
import resource
import sys
import zipfile

import numpy as np

from ..lib import fail, scratch
from .c09 import make, mat, same_state

META = dict(
    technique="crash-point enumeration on the real code: saving is interrupted by an exception at every executed Python line (implicit, numpy, zipfile) and by a file size limit "
              "at every byte; every prefix of a model file, and a pickled object in place of every member, is given to load()",
    bounds={"quick": "7 model kinds; saving over nothing and over another model's file, KeyboardInterrupt at every line and a full disk at every byte (every 512 bytes of a 40 KB file); every "
                     "prefix of a fitted and an unfitted model's file; a pickled object in every member, as a .npy file and as a plain pickle",
            "thorough": "also MemoryError at every line"},
    assumptions=["renaming a file is atomic", "file objects handed to save() belong to the caller: only files named by a path are covered"],
)
KINDS = ["als", "bpr", "lmf", "raw", "cosine", "tfidf", "bm25"]
P = {"als": [1, 1, 1, 0, 0, 0, 1, 0, 0, 1, 1], "bpr": [1, 1, 1, 0, 1, 0, 1, 1], "lmf": [1, 1, 1, 0, 1, 1, 0, 1], "raw": [1, 1], "cosine": [1, 1], "tfidf": [1, 1],
     "bm25": [1, 1, 1, 1]}
RAN = []


def evil():
    RAN.append(1)
    return 1


class Evil:
    def __reduce__(self):
        return evil, ()


def cases(tier):
    for kind in KINDS:
        for old in (False, True):
            for exc in ("key",) if tier == "quick" else ("key", "mem"):
                for part in range(4):
                    yield dict(op="lines", kind=kind, old=old, exc=exc, part=part)
            for fitted in (True, False):
                yield dict(op="full", kind=kind, old=old, fitted=fitted)
        yield dict(op="full", kind=kind, old=True, fitted=True, big=True)
        for fitted in (True, False):
            yield dict(op="prefix", kind=kind, fitted=fitted)
            yield dict(op="code", kind=kind, fitted=fitted)


def model(kind, seed, fitted=True, big=False):
    combo = list(P[kind]) if seed == 1 else [0] * len(P[kind])
    if kind in ("als", "bpr", "lmf"):
        combo[-2 if kind == "als" else -1] = 1
    m = make(kind, combo)
    if big:
        m.factors = 40
        if hasattr(m, "K"):
            m.K = 30
    if fitted:
        m.fit(mat(120, 90, seed) if big else mat(6, 5, seed), show_progress=False)
    return m


def loaded(cls, p):
    try:
        return cls.load(p)
    except Exception as e:                                   # noqa: BLE001
        return e


def judge(what, m, prev, p, done):
    """the file named p after a save of m that was (not) completed"""
    got = loaded(type(m), p)
    if isinstance(got, Exception):
        if done:
            fail("%s: save() returned, but loading raises %r", what, got)
        if prev is not None:
            fail("%s: the model saved there before is lost: loading raises %r", what, got)
        return "none"
    for name, x in (("new", m), ("old", prev)):
        if x is None or (done and name == "old"):
            continue
        try:
            same_state("", x, got)
            return name
        except Exception as e:                               # noqa: BLE001
            err = e
    fail("%s: the file loads as a model that was never saved (%s)", what, err)


def count_lines(f, at, exc):
    left = [at]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                raise exc()
        return local

    def glob(frame, event, arg):
        n = frame.f_code.co_filename
        if "/vp/" in n and "/implicit/" not in n:
            return None
        return local
    sys.settrace(glob)
    try:
        f()
        raised = False
    except BaseException:                                    # noqa: BLE001
        if left[0] > 0:
            raise
        raised = True
    finally:
        sys.settrace(None)
    return at - left[0], raised


def clean(d):
    for x in os.listdir(d):
        os.remove(os.path.join(d, x))


def do_lines(c, ctx):
    d = os.path.join(scratch(), "save")
    os.makedirs(d, exist_ok=True)
    m, prev = model(c["kind"], 1), model(c["kind"], 2) if c["old"] else None
    exc = {"key": KeyboardInterrupt, "mem": MemoryError}[c["exc"]]
    old = io.BytesIO()
    if prev is not None:
        prev.save(old)
    p = os.path.join(d, "model" if c["part"] % 2 else "model.npz")
    real = os.path.join(d, "model.npz")
    total, _ = count_lines(lambda: m.save(p), 10 ** 9, exc)
    for k in range(1 + c["part"], total + 1, 4):
        clean(d)
        if prev is not None:
            with open(real, "wb") as f:
                f.write(old.getvalue())
        _, raised = count_lines(lambda: m.save(p), k, exc)
        got = judge("%s: save interrupted at line %d of %d" % (c["kind"], k, total), m, prev, real, not raised)
        ctx.step()
        ctx.trace()
        ctx.outcome("interrupted" if raised else "completed", got)
    ctx.state("lines", *c.values())
    clean(d)


def do_full(c, ctx):
    d = os.path.join(scratch(), "save")
    os.makedirs(d, exist_ok=True)
    m, prev = model(c["kind"], 1, c["fitted"], c.get("big")), model(c["kind"], 2) if c["old"] else None
    old, new = io.BytesIO(), io.BytesIO()
    m.save(new)
    if prev is not None:
        prev.save(old)
    size = len(new.getvalue())
    p = os.path.join(d, "model.npz")
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    hook, sys.unraisablehook = sys.unraisablehook, lambda *a: None
    try:
        for k in list(range(0, size, 512 if c.get("big") else 1)) + [size, size + 1]:
            clean(d)
            if prev is not None:
                with open(p, "wb") as f:
                    f.write(old.getvalue())
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
            try:
                m.save(p)
                raised = False
            except Exception:                                # noqa: BLE001
                raised = True
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            got = judge("%s: room for %d of %d bytes" % (c["kind"], k, size), m, prev, p, not raised)
            ctx.step()
            ctx.trace()
            ctx.outcome("full" if raised else "completed", got)
    finally:
        sys.unraisablehook = hook
    ctx.state("full", *c.values())
    clean(d)


def do_prefix(c, ctx):
    m = model(c["kind"], 1, c["fitted"])
    f = io.BytesIO()
    m.save(f)
    raw = f.getvalue()
    p = os.path.join(scratch(), "prefix.npz")
    for k in range(len(raw)):
        for how in ("object", "path") if k % 7 == 0 else ("object",):
            src = io.BytesIO(raw[:k])
            if how == "path":
                with open(p, "wb") as out:
                    out.write(raw[:k])
                src = p
            got = loaded(type(m), src)
            if not isinstance(got, Exception):
                same_state("%s: loading the first %d of %d bytes gives another model" % (c["kind"], k, len(raw)), m, got)
            ctx.step()
    ctx.state("prefix", *c.values())
    ctx.trace()


def do_code(c, ctx):
    m = model(c["kind"], 1, c["fitted"])
    f = io.BytesIO()
    m.save(f)
    with np.load(io.BytesIO(f.getvalue()), allow_pickle=False) as z:
        data = {k: z[k] for k in z.files}
    p = os.path.join(scratch(), "evil.npz")
    objs = [np.array([Evil()], dtype=object), np.array(Evil(), dtype=object)]
    tries = []
    for name in list(data) + ["another", "similarity", "scorer", "model", "_XtX"]:
        for o in objs:
            b = io.BytesIO()
            with zipfile.ZipFile(b, "w") as z:
                for k, v in dict(data, **{name: o}).items():
                    a = io.BytesIO()
                    np.lib.format.write_array(a, np.asarray(v), allow_pickle=True)
                    z.writestr(k + ".npy", a.getvalue())
            tries.append((name, b.getvalue()))
    for o in objs:
        b = io.BytesIO()
        np.save(b, o, allow_pickle=True)
        tries.append((".npy", b.getvalue()))
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        tries.append(("pickle", pickle.dumps(Evil(), protocol=proto)))
        tries.append(("pickle", pickle.dumps({k: Evil() for k in data}, protocol=proto)))
    for name, b in tries:
        for how in ("object", "path"):
            del RAN[:]
            src = io.BytesIO(b)
            if how == "path":
                with open(p, "wb") as out:
                    out.write(b)
                src = p
            got = loaded(type(m), src)
            if RAN:
                fail("%s: loading a file with a pickled object as %s runs code from the file", c["kind"], name)
            if not isinstance(got, Exception):
                same_state("%s: a file with a pickled object as %s" % (c["kind"], name), m, got)
            ctx.step()
            ctx.outcome(name, type(got).__name__)
    ctx.state("code", *c.values())
    ctx.trace()


def run_case(c, ctx):
    {"lines": do_lines, "full": do_full, "prefix": do_prefix, "code": do_code}[c["op"]](c, ctx)
    ctx.sample(c)
