"""Interrupting a call (Ctrl-C, out of memory) does not damage the model."""
import io
import os
import pickle
import sys

import numpy as np
import scipy.sparse as sp

from ..lib import fail
from .c19 import D, KINDS, base, make, model_snap, query_table, snap

META = dict(
    technique="exhaustive fault injection on the real code: each query, recalculation, save, evaluation and training call is interrupted by an exception at every "
              "executed Python line (of implicit, and of the libraries beneath it), and the model then compared with one that was never interrupted",
    bounds={"quick": "every query of 22 model settings, evaluation, pickling and saving, interrupted at every line of implicit's Python code, with cached values present or not, by KeyboardInterrupt or "
                     "MemoryError; for ALS and item-item also at every line of NumPy/SciPy code beneath; all queries asked afterwards; every line of fit and partial fit, followed by a completed one",
            "thorough": "every line of all Python code beneath for all settings, and pairs of interrupted queries"},
    assumptions=["an exception arrives between two lines of Python code (native code is not interrupted half way)"],
)
TREE = None


class Stop(KeyboardInterrupt):
    pass


class Memory(MemoryError):
    pass


def setup(tier, seed):
    global TREE
    TREE = os.environ["VP_TREE"] + "/implicit/"


def injected(f, at, everywhere, exc):
    """runs f, raising exc at the at-th line; returns (lines seen, raised, result)"""
    left = [at]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                raise exc()
        return local

    def glob(frame, event, arg):
        n = frame.f_code.co_filename
        if n.startswith(TREE) or (everywhere and ("site-packages" in n or "dist-packages" in n)):
            return local
        return None
    sys.settrace(glob)
    try:
        r = f()
        raised = False
    except BaseException:
        if left[0] > 0:
            raise
        r, raised = None, True                       # (a library may turn it into another exception)
    finally:
        sys.settrace(None)
    return at - left[0], raised, r


def queries(kind):
    q = dict(query_table(kind))

    def save(m):
        m.save(io.BytesIO())
        return ()
    if base(kind).rstrip("-") not in ("annoy", "nmslib", "faiss"):
        q["save"] = (save, [])
        q["pickle"] = (lambda m: (len(pickle.dumps(m)) * 0,), [])
    test = sp.csr_matrix((np.ones(4), ([0, 1, 3, 4], [2, 3, 1, 0])), shape=D.shape)
    train = sp.csr_matrix(D)

    def ev(m):
        from implicit.evaluation import ranking_metrics_at_k
        r = ranking_metrics_at_k(m, train, test, K=2, show_progress=False, num_threads=1)
        return (np.array([r[k] for k in sorted(r)]),)
    q["eval"] = (ev, [train, test])
    return q


def agree(w, got, want):
    got = got if isinstance(got, tuple) else (got,)
    want = want if isinstance(want, tuple) else (want,)
    for x, y in zip(got, want):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or (x.dtype.kind == "f" and not np.allclose(x, y, rtol=1e-5, atol=1e-6)):
            fail("%s: %s, without the interruption %s", w, x.tolist(), y.tolist())


def cases(tier):
    deep = tier != "quick"
    for kind in KINDS:
        for n in names(kind):
            for warm in (0, 1):
                yield dict(t="query", kind=kind, op=n, warm=warm, all=int(deep))
                if not deep and kind in ("als", "als:a", "cosine"):
                    yield dict(t="query", kind=kind, op=n, warm=warm, all=1)
        if deep:
            for n in names(kind):
                yield dict(t="pairs", kind=kind, op=n)
    for kind in ("als", "als:a", "als:b", "als:c", "als:d", "bpr", "lmf", "raw", "cosine", "tfidf", "bm25"):
        for o in ("fit", "fitY") + (("pu", "pi") if kind.startswith("als") else ()):
            yield dict(t="train", kind=kind, op=o, all=int(deep or kind in ("als", "cosine")))


def names(kind):
    """(without importing implicit)"""
    b = base(kind)
    mf, ann = b in ("als", "bpr", "lmf"), b.rstrip("-") in ("annoy", "nmslib", "faiss")
    out = ["rec1", "rec3", "rec_all", "rec_f", "sim1", "sim3", "sim_f", "eval"]
    if not ann or b.endswith("-"):
        out += ["rec_i", "rec1_i", "sim_i"]
    if mf:
        out += ["simu", "simu_f", "simu_i", "all"]
    if b == "als":
        out += ["rec_r", "ru", "ri", "sim_r", "expl", "expl2"]
    if not ann:
        out += ["save", "pickle"]
    return out


_base = {}


def answers(kind):
    if kind not in _base:
        q = queries(kind)
        _base[kind] = {n: q[n][0](make(kind)) for n in q}, model_snap(make(kind))
    return _base[kind]


def warmup(m, kind, q):
    for n in ("sim1", "simu", "rec_r", "sim_r", "rec1"):
        if n in q:
            q[n][0](m)


def do_query(c, ctx):
    kind, n = c["kind"], c["op"]
    q = queries(kind)
    want, before = answers(kind)
    f, args = q[n]
    f(make(kind))                                    # (imports are done)
    ann = base(kind).rstrip("-") in ("annoy", "nmslib", "faiss")
    m = None
    at = 0
    while True:
        at += 1
        if m is None or not ann:
            m = make(kind)
            if c["warm"]:
                warmup(m, kind, q)
        args0 = [snap(a) for a in args]
        lines, raised, r = injected(lambda: f(m), at, c["all"], Stop if at % 2 else Memory)
        w = "%s, %s interrupted at line %d%s" % (kind, n, at, " (cached values present)" if c["warm"] else "")
        if [snap(a) for a in args] != args0:
            fail("%s: its arguments are changed", w)
        if model_snap(m) != before:
            fail("%s: the model is changed", w)
        ctx.step()
        ctx.state(kind, n, c["warm"], c["all"], at)
        again = sorted(q) if not c["all"] and not ann else sorted({n, "sim1", sorted(q)[at % len(q)], sorted(q)[at * 7 % len(q)]})
        for x in again:
            agree("%s: %s afterwards" % (w, x), q[x][0](m), want[x])
        if lines < at:
            if raised:
                fail("%s: raised without being interrupted", w)
            break
        ctx.trace()
        ctx.outcome(raised)


def do_pairs(c, ctx):
    kind, n = c["kind"], c["op"]
    q = queries(kind)
    want, before = answers(kind)
    for n2 in sorted(q):
        at = 0
        while at < 400:
            at += 1
            m = make(kind)
            lines, _, _ = injected(lambda: q[n][0](m), at, 0, Stop)
            injected(lambda: q[n2][0](m), 1 + at * 3 % 40, 0, Memory)
            w = "%s, %s interrupted at line %d, then %s at line %d" % (kind, n, at, n2, 1 + at * 3 % 40)
            if model_snap(m) != before:
                fail("%s: the model is changed", w)
            for x in sorted({n, n2, "sim1"}):
                agree("%s: %s afterwards" % (w, x), q[x][0](m), want[x])
            ctx.step()
            ctx.state(kind, n, n2, at)
            if lines < at:
                break
    ctx.trace()


def trainer(kind, o):
    Y = sp.csr_matrix(np.array([[1, 0, 2], [0, 1, 4], [2, 0, 1], [0, 3, 0]], dtype=np.float32))
    X = sp.csr_matrix(D.astype(np.float32))
    if o == "fit":
        return lambda m: m.fit(X, show_progress=False), [X]
    if o == "fitY":
        return lambda m: m.fit(Y, show_progress=False), [Y]
    if o == "pu":
        return lambda m: m.partial_fit_users(np.array([1, len(m.user_factors)]), X[:2, :len(m.item_factors)]), [X]
    return lambda m: m.partial_fit_items(np.array([0, len(m.item_factors)]), X.T.tocsr()[:2, :len(m.user_factors)]), [X]


def do_train(c, ctx):
    """an interrupted training call, then a complete one: the model answers from what it learned"""
    kind, o = c["kind"], c["op"]
    q = queries(kind)
    f, args = trainer(kind, o)
    full, _ = trainer(kind, "fit")
    ref = make(kind)
    f(ref)
    ref = make(kind)
    full(ref)
    at = 0
    mf = base(kind) in ("als", "bpr", "lmf")
    while at < 5000:
        at += 1
        m = make(kind)
        warmup(m, kind, q)
        args0 = [snap(a) for a in args]
        lines, raised, _ = injected(lambda: f(m), at, c["all"], Stop if at % 2 else Memory)
        w = "%s, %s interrupted at line %d, then fit" % (kind, o, at)
        if [snap(a) for a in args] != args0:
            fail("%s: the arguments are changed", w)
        full(m)
        if mf:
            fresh = make(kind)
            fresh.user_factors, fresh.item_factors = m.user_factors.copy(), m.item_factors.copy()
            if m.user_factors.shape != ref.user_factors.shape or m.item_factors.shape != ref.item_factors.shape:
                fail("%s: factors %s %s", w, m.user_factors.shape, m.item_factors.shape)
        else:
            fresh = ref
            if (m.similarity != ref.similarity).nnz:
                fail("%s: other similarities than without the interruption", w)
        for x in sorted(q) if not c["all"] else ("rec3", "sim3", "sim1", sorted(q)[at % len(q)]):
            agree("%s: %s afterwards" % (w, x), q[x][0](m), q[x][0](fresh))
        ctx.step()
        ctx.state(kind, o, at)
        if lines < at:
            if raised:
                fail("%s: raised without being interrupted", w)
            break
        ctx.trace()


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)
