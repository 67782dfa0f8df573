"""Every way of writing the same call gives the same answer."""
import itertools
import warnings

import numpy as np
import scipy.sparse as sp

from ..lib import det_matrix, fail, knn_kinds, make_mf, same_rows
from .c02 import ann_model

META = dict(
    technique="exhaustive enumeration of the spellings of a call: every subset of optional arguments left out, given by position or by name, x types of ids, counts and flags, "
              "each compared with the same call written out in full",
    bounds={"quick": "14 model settings of 12 users x 14 items: every combination of {omitted, default, another value} of every optional argument of recommend, similar_items and similar_users, "
                     "by position and by name; ids of 8 integer types, as lists, strided and reversed arrays; counts and flags of NumPy types; empty exclusion lists; rank_items, recommend_all, "
                     "explain, recalculation, partial training, metrics and splits with their optional arguments left out",
            "thorough": "all of it for every user and item"},
    assumptions=["tuples are not used as lists of ids to query, uint64 not for ids to train, and the FAISS wrapper is asked for a Python int of results"],
)
NU, NI = 12, 14
KINDS = ["als", "als64", "bpr", "lmf", "raw", "cosine", "tfidf", "bm25", "annoy", "nmslib", "faiss", "annoy-", "nmslib-", "faiss-"]
D = (det_matrix(NU, NI, 5, 0, 3) % 2) * det_matrix(NU, NI, 6, 1, 4).astype(float)
D[4] = 0
D[5] = 0
D[5, 3] = 2
OPT = {"recommend": [("N", 10, 3), ("filter_already_liked_items", True, False), ("filter_items", None, [2, 11, 5]), ("recalculate_user", False, True), ("items", None, [13, 1, 7, 4, 2])],
       "similar_items": [("N", 10, 3), ("recalculate_item", False, True), ("item_users", None, "T"), ("filter_items", None, [2, 11, 5]), ("items", None, [13, 1, 7, 4, 2])],
       "similar_users": [("N", 10, 3), ("filter_users", None, [2, 11, 5]), ("users", None, [3, 1, 7, 4, 2])]}
TYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]


def cases(tier):
    for k in KINDS:
        for q in ([1, 7], [0, 5, 4], [9, 3]) if tier == "quick" else ([u, (u * 5 + 3) % 12] for u in range(NU)):
            for op in OPT:
                if op == "similar_users" and k not in ("als", "als64", "bpr", "lmf"):
                    continue
                yield dict(op="args", kind=k, call=op, q=q)
                yield dict(op="types", kind=k, call=op, q=q)
        yield dict(op="other", kind=k)
        if k.startswith("als"):
            yield dict(op="update", kind=k)
    yield dict(op="eval")


def model(k):
    if k in ("als", "als64", "bpr", "lmf"):
        f = {"als": 2, "als64": 2, "bpr": 3, "lmf": 4}[k]
        return make_mf(k[:3], det_matrix(NU, f, 1) / 2, det_matrix(NI, f, 2) / 2 + 0.01 * det_matrix(NI, f, 3), "float64" if k == "als64" else "float32")
    if k in ("raw", "cosine", "tfidf", "bm25"):
        m = knn_kinds()[k](K=9, num_threads=1)
        m.fit(sp.csr_matrix(D), show_progress=False)
        return m
    return ann_model(k.rstrip("-"), not k.endswith("-"), det_matrix(NI, 2, 2) / 2 + 0.01 * det_matrix(NI, 2, 3), det_matrix(NU, 2, 1) / 2)


def attempt(f):
    try:
        return f()
    except Exception as e:                                   # noqa: BLE001
        return e


def compare(what, got, ref):
    if isinstance(got, Exception) or isinstance(ref, Exception):
        if type(got) is not type(ref):
            fail("%s: %r, written out in full: %r", what, got, ref)
        return "refused"
    (a, b), (x, y) = got, ref
    a, b, x, y = (np.asarray(v) for v in (a, b, x, y))
    if a.shape != x.shape or b.shape != y.shape:
        fail("%s: shapes %s %s, written out in full: %s %s", what, a.shape, b.shape, x.shape, y.shape)
    if a.ndim == 1:
        a, b, x, y = a[None], b[None], x[None], y[None]
    for r in range(len(a)):
        same_rows("%s, row %d" % (what, r), a[r], b[r], x[r], y[r], 1e-6)
    return "answer"


def matrix(rows, call):
    if call == "recommend":
        return sp.csr_matrix(D[rows])
    return sp.csr_matrix(D.T[rows])


def do_args(c, ctx):
    m = model(c["kind"])
    opt = OPT[c["call"]]
    f = getattr(m, c["call"])
    n = 0
    for q in (c["q"][0], np.array(c["q"])):
        rows = [q] if np.isscalar(q) else list(q)
        X = matrix(rows, c["call"])
        first = [q, X] if c["call"] == "recommend" else [q]
        for pick in itertools.product(range(3), repeat=len(opt)):
            def value(j):
                v = opt[j][1 + (pick[j] == 2)]
                return X if isinstance(v, str) else v
            full = {o[0]: value(j) for j, o in enumerate(opt)}
            ref = attempt(lambda: f(*first, **full))
            given = {opt[j][0]: value(j) for j in range(len(opt)) if pick[j]}
            what = "%s.%s(%s, %s)" % (c["kind"], c["call"], q, {k: "matrix" if sp.issparse(v) else v for k, v in given.items()})
            ctx.outcome(compare(what, attempt(lambda: f(*first, **given)), ref))
            for cut in range(1, len(opt) + 1):               # the first `cut` optional arguments by position
                if 0 in pick[:cut]:
                    break
                pos = [value(j) for j in range(cut)]
                rest = {opt[j][0]: value(j) for j in range(cut, len(opt)) if pick[j]}
                compare(what + " with %d by position" % cut, attempt(lambda: f(*first, *pos, **rest)), ref)
                n += 1
            n += 1
    ctx.step(n)
    ctx.state("args", *map(str, c.values()))
    ctx.trace()


def forms(x, tuples=False):
    yield "list", list(x)
    if tuples:
        yield "tuple", tuple(x)
    for t in TYPES:
        yield t, np.array(x, dtype=t)
    yield "strided", np.array([v for a in x for v in (a, 9)])[::2]
    yield "reversed", np.array(x)[::-1].copy()[::-1]
    yield "numpy ints", [np.int64(v) for v in x]
    yield "numpy int32s", [np.int32(v) for v in x]


def do_types(c, ctx):
    m = model(c["kind"])
    call = c["call"]
    f = getattr(m, call)
    inc, exc = [o[0] for o in OPT[call] if o[0] in ("items", "users")][0], [o[0] for o in OPT[call] if o[0] in ("filter_items", "filter_users")][0]
    q, n = c["q"], 0
    base = 3

    def first(ids, rows):
        return [ids, matrix(rows, call)] if call == "recommend" else [ids]

    def recalc(rows):
        return {"recalculate_user": True} if call == "recommend" else {"recalculate_item": True, "item_users": matrix(rows, call)}
    variants = [{}] if call == "similar_users" else [{}, "recalc"]
    for var in variants:
        kw = recalc(q) if var else {}
        ref = attempt(lambda: f(*first(np.array(q), q), N=base, **kw))
        for name, a in forms(q):
            compare("%s.%s: ids as %s %s" % (c["kind"], call, name, kw and "recalculated"), attempt(lambda: f(*first(a, q), N=base, **kw)), ref)
            n += 1
        kw = recalc(q[:1]) if var else {}
        ref = attempt(lambda: f(*first(q[0], q[:1]), N=base, **kw))
        for t in TYPES:
            compare("%s.%s: id as %s %s" % (c["kind"], call, t, kw and "recalculated"), attempt(lambda: f(*first(np.dtype(t).type(q[0]), q[:1]), N=base, **kw)), ref)
            n += 1
    for arg in (inc, exc):
        for L in ([2], [5, 1], [7, 2, 11], [0, 1, 2, 3, 4, 5, 6, 7]):
            ref = attempt(lambda: f(*first(q[0], q[:1]), N=base, **{arg: np.array(L)}))
            for name, a in forms(L, True):
                compare("%s.%s: %s as %s" % (c["kind"], call, arg, name), attempt(lambda: f(*first(q[0], q[:1]), N=base, **{arg: a})), ref)
                n += 1
    ref = attempt(lambda: f(*first(q[0], q[:1]), N=base))
    for e in ([], (), np.array([], dtype=int), np.array([], dtype=np.int32)):
        compare("%s.%s: nothing excluded (%r)" % (c["kind"], call, e), attempt(lambda: f(*first(q[0], q[:1]), N=base, **{exc: e})), ref)
        n += 1
    if c["kind"] != "faiss":
        for N in (1, 2, 5, 14, 20):
            ref = attempt(lambda: f(*first(q[0], q[:1]), N=N))
            for t in ("int32", "int64"):
                compare("%s.%s: N as %s(%d)" % (c["kind"], call, t, N), attempt(lambda: f(*first(q[0], q[:1]), N=np.dtype(t).type(N))), ref)
                n += 1
    if call == "recommend":
        for flag in (True, False):
            for g in (np.bool_(flag), int(flag)):
                compare("%s: filter_already_liked_items=%r" % (c["kind"], g), attempt(lambda: f(*first(q[0], q[:1]), N=base, filter_already_liked_items=g)),
                        attempt(lambda: f(*first(q[0], q[:1]), N=base, filter_already_liked_items=flag)))
                n += 1
    ctx.step(n)
    ctx.state("types", *map(str, c.values()))
    ctx.trace()


def do_other(c, ctx):
    m, k = model(c["kind"]), c["kind"]
    n = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        X = sp.csr_matrix(D)
        for u in range(NU):
            for L in ([3], [8, 2, 5], list(range(NI))):
                ref = attempt(lambda: m.recommend(u, X[u], N=len(L), filter_already_liked_items=False, recalculate_user=False, items=L))
                compare("%s: rank_items(%d, %s)" % (k, u, L), attempt(lambda: m.rank_items(u, X[u], L)), ref)
                n += 1
        if hasattr(m, "recommend_all"):
            for kw in ({}, dict(N=3), dict(filter_already_liked_items=False), dict(filter_items=[1, 2]), dict(recalculate_user=True)):
                full = dict(dict(N=10, filter_already_liked_items=True, filter_items=None, recalculate_user=False), **kw)
                ref = attempt(lambda: m.recommend(np.arange(NU), X, **full))
                got = attempt(lambda: m.recommend_all(X, **kw))
                if isinstance(ref, Exception) or isinstance(got, Exception):
                    if type(ref) is not type(got):
                        fail("%s: recommend_all(%s) gives %r, recommend %r", k, kw, got, ref)
                else:
                    compare("%s: recommend_all(%s)" % (k, kw), (got, ref[1]), ref)
                n += 1
            for off in (1, 3):
                ref = attempt(lambda: m.recommend(np.arange(off, NU), X[off:], N=10))
                compare("%s: recommend_all, offset %d" % (k, off), (m.recommend_all(X[off:], users_items_offset=off), ref[1]), ref)
                n += 1
        if k.startswith("als"):
            Z = sp.csr_matrix(np.where(D > 0, D, 1.0))               # everything liked: more than 10 contributions
            for u in (0, 5, 11):
                for i in (0, 3, 13):
                    for mat in (X, Z):
                        s, top, w = m.explain(u, mat, i, None, 10)
                        for kw in ({}, dict(N=10), dict(user_weights=None), dict(user_weights=w)):
                            s2, top2, _ = m.explain(u, mat, i, **kw)
                            if abs(s - s2) > 1e-5 * (1 + abs(s)) or len(top) != len(top2):
                                fail("%s: explain(%d, %d, %s): score %r with %d items, written out in full %r with %d", k, u, i, list(kw), s2, len(top2), s, len(top))
                            n += 1
    ctx.step(n)
    ctx.state("other", k)
    ctx.trace()


def do_update(c, ctx):
    """recalculated factors and partial training, with ids of any type; new ids included"""
    n = 0
    for q in ([1, 7], [0, 5, 4], [9], [13, 2], [14, 15]):
        for call in ("recalculate_user", "recalculate_item", "partial_fit_users", "partial_fit_items"):
            side = D if "user" in call else D.T
            X = sp.csr_matrix(side[[r % len(side) for r in q]])

            def run(ids, X=X, call=call):
                m = model(c["kind"])
                r = getattr(m, call)(ids, X)
                return r if r is not None else (m.user_factors if "user" in call else m.item_factors).copy()
            ref = attempt(lambda: run(np.array(q)))
            alts = [("ids as " + name, a, X, ref) for name, a in forms(q) if name != "uint64"]
            if "partial" not in call:                           # a single id
                one = attempt(lambda: run(q[0], X[0]))
                alts += [("id as " + t, np.dtype(t).type(q[0]), X[0], one) for t in TYPES]
            for name, a, Y, want in alts:
                got = attempt(lambda: run(a, Y))
                if isinstance(got, Exception) or isinstance(want, Exception):
                    if type(got) is not type(want):
                        fail("%s.%s(%s): %s: %r, otherwise %r", c["kind"], call, q, name, got, want)
                elif got.shape != want.shape or np.abs(got - want).max() > 1e-6:
                    fail("%s.%s(%s): %s: shape %s, otherwise %s; values %s / %s", c["kind"], call, q, name, got.shape, want.shape, got.tolist(), want.tolist())
                n += 1
    ctx.step(n)
    ctx.state("update", c["kind"])
    ctx.trace()


def do_eval(c, ctx):
    from implicit.evaluation import (AUC_at_k, leave_k_out_split, mean_average_precision_at_k, ndcg_at_k, precision_at_k, ranking_metrics_at_k,
                                     train_test_split)
    m = model("als")
    n = 0
    X = sp.csr_matrix(D)
    test = sp.csr_matrix((det_matrix(NU, NI, 9, 0, 3) == 0).astype(float))
    for train in (X, sp.csr_matrix(X.shape)):
        full = {K: ranking_metrics_at_k(m, train, test, K=K, show_progress=False, num_threads=1) for K in (10, 3)}
        for name, fn in (("precision", precision_at_k), ("map", mean_average_precision_at_k), ("ndcg", ndcg_at_k), ("auc", AUC_at_k)):
            for K, call in ((10, lambda: fn(m, train, test, show_progress=False)), (10, lambda: fn(m, train, test, K=10, show_progress=False, num_threads=0)),
                            (3, lambda: fn(m, train, test, 3, False, 1)), (3, lambda: fn(m, train, test, K=np.int64(3), show_progress=False)),
                            (3, lambda: fn(m, train, test, K=3, show_progress=False, num_threads=2))):
                v = call()
                if abs(v - full[K][name]) > 1e-9:
                    fail("%s: %r, ranking_metrics_at_k says %r", name, v, full[K][name])
                n += 1
        v = ranking_metrics_at_k(m, train, test, show_progress=False)
        if any(abs(v[x] - full[10][x]) > 1e-9 for x in v):
            fail("ranking_metrics_at_k without K: %s, with K=10: %s", v, full[10])
        n += 1
    for s in range(5):
        for (a, b), (x, y) in [(train_test_split(X, random_state=s), train_test_split(X, train_percentage=0.8, random_state=s)),
                               (train_test_split(X, 0.5, s), train_test_split(X, train_percentage=0.5, random_state=s)),
                               (leave_k_out_split(X, random_state=s), leave_k_out_split(X, K=1, train_only_size=0.0, random_state=s)),
                               (leave_k_out_split(X, 2, 0.5, s), leave_k_out_split(X, K=2, train_only_size=0.5, random_state=s)),
                               (leave_k_out_split(X, K=np.int64(2), random_state=np.random.RandomState(s)), leave_k_out_split(X, K=2, random_state=np.random.RandomState(s)))]:
            if (a != x).nnz or (b != y).nnz:
                fail("a split with arguments left out differs from the same split written out in full (seed %d)", s)
            n += 1
    ctx.step(n)
    ctx.state("eval")
    ctx.trace()


def run_case(c, ctx):
    {"args": do_args, "types": do_types, "other": do_other, "update": do_update, "eval": do_eval}[c["op"]](c, ctx)
    ctx.sample(c)
