"""Concurrent queries on one fitted model do not affect each other."""
import io
import os
import pickle

import numpy as np
import scipy.sparse as sp

from ..core import fail
from ..lib import same_rows, scratch
from .c19 import model_snap

META = dict(
    technique="stateless model checking of the real code under a controlled scheduler: all interleavings of 2-3 query threads up to a preemption bound, "
              "switching at Python lines or bytecodes of the code under test, lock and GIL operations and conflicting native memory accesses; every "
              "result compared with the same call made alone",
    variant="sched",
    bounds={"quick": "every pair (and some triples) of query kinds on ALS, BPR, LMF and item-item models, right after fit, load, unpickling or a partial fit "
                     "(nothing cached yet), shared argument objects; 2 threads: preemption bound 2 at lines for cache-filling pairs on ALS and for equal pairs on "
                     "item-item models, 1 elsewhere, 1 at bytecodes; "
                     "3 threads: bound 1 at lines",
            "thorough": "preemption bound 2 for all models at lines and 2 at bytecodes for the cache-filling pairs, 3 threads with bound 2"},
    assumptions=["a NumPy/SciPy call is one step between the points of the code under test", "each model uses num_threads=1 for its own loops (C13 covers those)",
                 "native code is interrupted where it releases the GIL and at conflicting accesses outside the GIL"],
    cap={"quick": 400, "thorough": 7200},
)

TREE = None
USERS, ITEMS = 6, 7


def data():
    D = np.array([[3, 0, 2, 0, 1, 0, 0],
                  [0, 1, 4, 0, 0, 2, 0],
                  [2, 0, 0, 0, 3, 0, 1],
                  [0, 0, 0, 0, 0, 0, 0],
                  [1, 5, 0, 0, 0, 0, 2],
                  [0, 2, 1, 0, 4, 3, 0]], dtype=np.float32)
    return sp.csr_matrix(D)


def rows(C, ids, unsorted=False):
    R = C[ids]
    if unsorted:                             # valid CSR, columns of each row in descending order
        for r in range(R.shape[0]):
            s = slice(R.indptr[r], R.indptr[r + 1])
            R.indices[s], R.data[s] = R.indices[s][::-1].copy(), R.data[s][::-1].copy()
        R.has_sorted_indices = False
    return R


def build(c):
    """a new model in the state the case asks for, its caches still empty"""
    kind, how = c["model"], c["how"]
    key = (kind, how)
    C = data()
    if kind in ("als", "als64", "bpr", "lmf"):
        m = fitted(kind)
        if how == "fit":
            return m
        if how == "partial":
            m.partial_fit_users([1, 3], C[[0, 2]])
            m.partial_fit_items([2, 3], C.T.tocsr()[[0, 1]])
            return m
    else:
        m = fitted(kind)
        if how == "fit":
            return m
    if key not in _blob:
        if how == "pickle":
            _blob[key] = pickle.dumps(m)
        else:
            p = os.path.join(scratch(), "c12-%s.npz" % kind)
            m.save(p)
            _blob[key] = (type(m), open(p, "rb").read())
    if how == "pickle":
        return pickle.loads(_blob[key])
    cls, b = _blob[key]
    return cls.load(io.BytesIO(b))


_blob = {}


def fitted(kind):
    C = data()
    if kind in ("als", "als64"):
        from implicit.cpu.als import AlternatingLeastSquares
        dt = np.dtype("float64" if kind == "als64" else "float32")
        m = AlternatingLeastSquares(factors=2, iterations=1, regularization=0.1, alpha=2.0 if kind == "als64" else 1.0, num_threads=1, dtype=dt, random_state=3)
    elif kind == "bpr":
        from implicit.cpu.bpr import BayesianPersonalizedRanking
        m = BayesianPersonalizedRanking(factors=2, iterations=1, num_threads=1, random_state=3)
    elif kind == "lmf":
        from implicit.cpu.lmf import LogisticMatrixFactorization
        m = LogisticMatrixFactorization(factors=2, iterations=1, num_threads=1, random_state=3)
    else:
        from ..lib import knn_kinds
        m = knn_kinds()[kind](K=4, num_threads=1)
    m.fit(C, show_progress=False)
    return m


def ops(kind):
    mf = kind in ("als", "als64", "bpr", "lmf")
    als = kind.startswith("als")
    o = ["rec", "rec_batch", "rec_filter", "sim", "sim_batch"]
    o += ["rec_items"]
    if mf:
        o += ["users", "sim_items"]
    if als:
        o += ["rec_recalc", "sim_recalc", "explain", "recalc_item"]
    return o


def call(m, op, k, args):
    """the k-th concurrent call of this kind"""
    C, CT = args["C"], args["CT"]
    u = [0, 4, 5][k]
    i = [0, 2, 3][k]
    if op == "rec":
        return lambda: m.recommend(u, C[k], N=3)
    if op == "rec_batch":
        return lambda: m.recommend(args["batch"], C["batch"], N=3)
    if op == "rec_filter":
        return lambda: m.recommend(u, C[k], N=3, filter_items=args["filter"])
    if op == "rec_items":
        return lambda: m.recommend(u, C[k], N=2, items=args["items"])
    if op == "rec_recalc":
        return lambda: m.recommend(u, C[k], N=3, recalculate_user=True)
    if op == "sim":
        return lambda: m.similar_items(i, N=3)
    if op == "sim_batch":
        return lambda: m.similar_items(args["ibatch"], N=3)
    if op == "sim_items":
        return lambda: m.similar_items(i, N=3, items=args["items"])
    if op == "users":
        return lambda: m.similar_users(u, N=3)
    if op == "sim_recalc":
        return lambda: m.similar_items(i, N=3, recalculate_item=True, item_users=CT[k])
    if op == "recalc_item":
        return lambda: m.recalculate_item(args["ibatch"], CT["batch"])
    if op == "explain":
        return lambda: m.explain(0, C[k], [1, 3, 5][k], N=5)
    raise ValueError(op)


def arguments():
    C = data()
    CT = C.T.tocsr()
    return dict(C={0: rows(C, [0], True), 1: rows(C, [4], True), 2: rows(C, [5], True), "batch": rows(C, [0, 3, 5], True)},
                CT={0: rows(CT, [0], True), 1: rows(CT, [2], True), 2: rows(CT, [3]), "batch": rows(CT, [2, 3, 1], True)},
                batch=np.array([0, 3, 5]), ibatch=np.array([2, 3, 1]), items=np.array([5, 1, 3, 2]), filter=np.array([6, 4]))


def compare(what, op, a, b):
    """a: observed, b: alone"""
    if op == "explain":
        if not abs(a[0] - b[0]) <= 1e-6 * (1 + abs(b[0])) or [int(i) for i, _ in a[1]] != [int(i) for i, _ in b[1]] or \
                not np.allclose([s for _, s in a[1]], [s for _, s in b[1]], rtol=1e-5, atol=1e-7):
            fail("%s: explanation %s, alone %s", what, a[:2], b[:2])
        return
    if op == "recalc_item":
        if np.shape(a) != np.shape(b) or not np.allclose(a, b, rtol=1e-6, atol=1e-7):
            fail("%s: factors %s, alone %s", what, a, b)
        return
    A, B = [np.atleast_2d(x) for x in a], [np.atleast_2d(x) for x in b]
    if A[0].shape != B[0].shape or A[1].shape != B[1].shape:
        fail("%s: shape %s, alone %s", what, A[0].shape, B[0].shape)
    for r in range(A[0].shape[0]):
        same_rows(what, A[0][r], A[1][r], B[0][r], B[1][r])


FILLING = [("sim", "sim"), ("users", "users"), ("sim_recalc", "sim_recalc"), ("rec_recalc", "rec_recalc"), ("sim", "sim_batch"), ("rec_recalc", "explain"),
           ("explain", "explain"), ("sim_recalc", "recalc_item"), ("sim_items", "sim_recalc")]


def cases(tier):
    return sorted(enumerate_cases(tier), key=lambda c: (-c["bound"], -len(c["ops"]), -c["opcodes"]))


def enumerate_cases(tier):
    deep = tier == "thorough"
    hows = {"als": ["fit", "load", "partial", "pickle"], "als64": ["fit", "load"], "bpr": ["fit", "load"], "lmf": ["pickle", "load"]}
    for kind in ("als", "als64", "bpr", "lmf", "cosine", "bm25", "raw", "tfidf"):
        o = ops(kind)
        pairs = [(a, b) for x, a in enumerate(o) for b in o[x:]]
        for n, how in enumerate(hows.get(kind, ["fit", "pickle", "load"])):
            for p in pairs:
                main = n == 0 and (p in FILLING[:5] if kind == "als" else kind == "cosine" and p[0] == p[1] and "batch" not in p[0])
                if n and p not in FILLING and not (deep or p[0] == p[1]):
                    continue
                yield dict(model=kind, how=how, ops=list(p), bound=2 if main or deep else 1, opcodes=0)
                if kind not in ("tfidf", "raw") and (p in FILLING or p == ("rec", "rec") or deep):
                    yield dict(model=kind, how=how, ops=list(p), bound=2 if deep and p in FILLING else 1, opcodes=1)
        tri = [("rec", "sim", "rec"), ("sim", "sim", "sim")]
        if kind.startswith("als"):
            tri += [("rec_recalc", "explain", "rec_recalc"), ("users", "sim", "sim_recalc"), ("sim_recalc", "recalc_item", "explain")]
        for t in tri:
            yield dict(model=kind, how="fit", ops=list(t), bound=2 if deep else 1, opcodes=0)


def setup(tier, seed):
    global TREE
    from .. import pythreads
    TREE = pythreads.install()


def run_case(c, ctx):
    from .. import pythreads, sched
    names = c["ops"]
    args = arguments()
    base = []
    for k, op in enumerate(names):
        base.append(call(build(c), op, k, args)())
    args = arguments()
    snap = model_snap(build(c))
    holder = {}

    def body():
        return pythreads.run(holder["calls"], TREE, bool(c["opcodes"]))

    def prepared():
        holder["m"] = build(c)
        holder["calls"] = [call(holder["m"], op, k, args) for k, op in enumerate(names)]
    stats = {}
    prepared()
    gen = sched.explore(body, c["bound"], -1, 400000, stats, ctx.late, None)
    for r in gen:
        ctx.step(len(r.chosen) + 1)
        ctx.trace()
        ctx.state(c["model"], c["how"], tuple(names), c["opcodes"], r.key())
        what = "%s after %s, %s in parallel, schedule %s" % (c["model"], c["how"], names, r.show())
        for k, op in enumerate(names):
            if r.out[k][0] != "ok":
                fail("%s: call %d (%s) raises %s", what, k, op, r.out[k][1])
            compare("%s: call %d (%s)" % (what, k, op), op, r.out[k][1], base[k])
        if model_snap(holder["m"]) != snap:
            fail("%s: the model is changed afterwards", what)
        if stats["schedules"] % 8 == 1:      # and it still answers as before
            for k, op in enumerate(names):
                compare("%s: %s afterwards" % (what, op), op, call(holder["m"], op, k, args)(), base[k])
        prepared()
    for k, v in stats.items():
        ctx.count(k, v)
    ctx.sample(dict(case=c, schedules=stats["schedules"]))
