"""Arguments and models are not modified behind the caller's back."""
import copy
import io
import itertools

import numpy as np
import scipy.sparse as sp

from ..lib import det_matrix, fail, knn_kinds, make_mf, mf_kinds
from .c02 import ann_model
from .c17 import Stub

META = dict(
    technique="exhaustive enumeration of (operation x model kind x argument representation), and of all ordered pairs of queries, with snapshots of every "
              "argument and of the model before and after; returned arrays are overwritten and the query repeated",
    bounds={"quick": "every public operation of ALS (5 parameter settings), BPR and LMF (2 each) in both precisions, 4 item-item models (7 settings) and 3 ANN wrappers, evaluation, splits and weighting "
                     "functions, with list/int32/int64 ids, csr/csc/coo/unsorted matrices of float32/float64/int32; all ordered pairs of queries; "
                     "read-only argument arrays",
            "thorough": "all triples of queries"},
    assumptions=["sorting the indices inside a CSR matrix does not change its value"],
)
D = np.array([0, 0, 1, 2, 0, 5, 1])[det_matrix(6, 5, 4, 0, 6)].astype(float)
D[0] = [1, 0, 2, 0, 3]
D[1] = [0, 4, 0, 0, 0]
D[3] = 0
VARIANT = {
    "als:a": dict(alpha=2.0, use_cg=False), "als:b": dict(alpha=0.5, use_native=False, calculate_training_loss=True),
    "als:c": dict(alpha=40.0, use_cg=False, use_native=False, regularization=1.0), "als:d": dict(alpha=3.0, calculate_training_loss=True, threads=2),
    "bpr:n": dict(verify_negative_samples=False, threads=2), "lmf:n": dict(neg_prop=2, threads=2),
    "raw:1": dict(K=1), "bm25:1": dict(K=2, K1=100, B=0.3), "cosine:2": dict(K=20, num_threads=2)}
MFK = ("als", "bpr", "lmf")
KINDS = ("als", "als:a", "als:b", "als:c", "als:d", "bpr", "bpr:n", "lmf", "lmf:n", "raw:1", "bm25:1", "cosine:2", "raw", "cosine", "tfidf", "bm25", "annoy", "nmslib", "faiss", "annoy-", "nmslib-", "faiss-")


def unsorted(m):
    m = sp.csr_matrix(m)
    for r in range(m.shape[0]):
        s, e = m.indptr[r], m.indptr[r + 1]
        m.indices[s:e] = m.indices[s:e][::-1].copy()
        m.data[s:e] = m.data[s:e][::-1].copy()
    m.has_sorted_indices = False
    return m


FORM = {"csr": sp.csr_matrix, "csc": sp.csc_matrix, "coo": sp.coo_matrix, "unsorted": unsorted}
DT = ("float32", "float64", "int32")


def snap(x):
    if sp.issparse(x):
        return ("sparse", x.format, x.dtype.str, x.shape, x.toarray().tobytes(), x.nnz)
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes(), x.flags.c_contiguous)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, snap(v)) for k, v in sorted(x.items()))
    return repr(x)


def model_snap(m):
    """parameters and learned state"""
    out = {}
    inner = getattr(m, "model", None)
    if inner is not None and hasattr(inner, "item_factors"):
        out["inner"] = model_snap(inner)
    for k in ("user_factors", "item_factors", "factors", "regularization", "alpha", "iterations", "learning_rate", "num_threads", "neg_prop",
              "use_cg", "use_native", "cg_steps", "verify_negative_samples", "random_state", "K", "K1", "B", "max_norm", "similarity", "dtype"):
        if hasattr(m, k):
            out[k] = snap(getattr(m, k))
    return out


def base(kind):
    return kind.split(":")[0]


def make(kind, dt="float32"):
    kw = VARIANT.get(kind, {})
    kind = base(kind)
    if kind in MFK:
        f = {"als": 2, "bpr": 3, "lmf": 4}[kind]
        V = det_matrix(5, f, 2) / 2
        V[2] = 0
        return make_mf(kind, det_matrix(6, f, 1) / 2, V, dt, iterations=1, random_state=1, **kw)
    if kind in ("raw", "cosine", "tfidf", "bm25"):
        m = knn_kinds()[kind](**dict(dict(K=3, num_threads=1), **kw))
        m.fit(sp.csr_matrix(D), show_progress=False)
        return m
    V = det_matrix(5, 2, 2) / 2
    V[2] = 0
    return ann_model(kind.rstrip("-"), not kind.endswith("-"), V, det_matrix(6, 2, 1) / 2)


def ids(form, xs):
    return {"list": list(xs), "i32": np.array(xs, dtype=np.int32), "i64": np.array(xs, dtype=np.int64)}[form]


def query_table(kind, idf="i64", form="csr", mdt="float64"):
    """name -> (function of the model, list of arguments to watch)"""
    q = {}

    def M(rows):
        return FORM[form](D[rows].astype(mdt)) if form != "csr" else sp.csr_matrix(D[rows].astype(mdt))
    kind = base(kind)
    mf = kind in MFK
    ann = kind.rstrip("-") in ("annoy", "nmslib", "faiss")
    one, some = M([0]), M([0, 1, 3])
    u3, f2, c3 = ids(idf, [3, 0, 1]), ids(idf, [4, 1]), ids(idf, [4, 0, 2])
    q["rec1"] = (lambda m: m.recommend(0, one, N=3), [one])
    q["rec3"] = (lambda m: m.recommend(u3, some, N=3), [u3, some])
    q["rec_all"] = (lambda m: m.recommend(u3, some, N=9, filter_already_liked_items=False), [u3, some])
    q["rec_f"] = (lambda m: m.recommend(u3, some, N=3, filter_items=f2), [u3, some, f2])
    q["sim1"] = (lambda m: m.similar_items(1, N=3), [])
    q["sim3"] = (lambda m: m.similar_items(u3, N=3), [u3])
    q["sim_f"] = (lambda m: m.similar_items(u3, N=3, filter_items=f2), [u3, f2])
    if not ann or kind.endswith("-"):
        q["rec_i"] = (lambda m: m.recommend(u3, some, N=3, items=c3), [u3, some, c3])
        q["rec1_i"] = (lambda m: m.recommend(0, one, N=3, items=c3), [one, c3])
        q["sim_i"] = (lambda m: m.similar_items(1, N=3, items=c3), [c3])
    if mf:
        q["simu"] = (lambda m: m.similar_users(u3, N=4), [u3])
        q["simu_f"] = (lambda m: m.similar_users(2, N=4, filter_users=f2), [f2])
        q["simu_i"] = (lambda m: m.similar_users(u3, N=2, users=c3), [u3, c3])
        q["all"] = (lambda m: (m.recommend_all(M(range(6)), N=3),), [])
    if kind == "als":
        T = FORM[form](D.T[[0, 1, 3]].astype(mdt))
        q["rec_r"] = (lambda m: m.recommend(u3, some, N=3, recalculate_user=True), [u3, some])
        q["ru"] = (lambda m: (m.recalculate_user(u3, some),), [u3, some])
        q["ri"] = (lambda m: (m.recalculate_item(u3, T),), [u3, T])
        q["sim_r"] = (lambda m: m.similar_items(u3, N=3, recalculate_item=True, item_users=T), [u3, T])
        q["expl"] = (lambda m: (np.array(m.explain(0, some, 2, N=2)[0]),), [some])

        def again(m):
            w = m.explain(0, some, 2)[2]
            s = snap(w)
            r = m.explain(0, some, 1, user_weights=w)
            if snap(w) != s:
                fail("explain changed the user weights it was given")
            return (np.array(r[0]),)
        q["expl2"] = (again, [some])
    return q


def cases(tier):
    for kind in KINDS:
        for dt in ("float32", "float64") if base(kind) in MFK else ("float32",):
            for idf in ("list", "i32", "i64"):
                for form in ("csr", "unsorted"):
                    for mdt in DT:
                        yield dict(t="query", kind=kind, dt=dt, idf=idf, form=form, mdt=mdt)
            names = list(query_table(kind))
            for a in names:
                yield dict(t="pairs", kind=kind, dt=dt, a=a, deep=tier != "quick")
            for form in FORM:
                for mdt in DT:
                    yield dict(t="fit", kind=kind, dt=dt, form=form, mdt=mdt)
    for form in FORM:
        for mdt in DT:
            for kind in KINDS:
                if base(kind) == "als":
                    yield dict(t="partial", kind=kind, form=form, mdt=mdt)
            yield dict(t="eval", form=form, mdt=mdt)
            yield dict(t="weight", form=form, mdt=mdt)


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.state(sorted(c.items()))
    ctx.sample(c)


def scribble(res):
    for x in res:
        if isinstance(x, np.ndarray) and x.flags.writeable and x.ndim:
            x.fill(-7)


def same(a, b):
    return len(a) == len(b) and all(np.asarray(x).shape == np.asarray(y).shape and
                                    np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float), rtol=1e-5, atol=1e-6)
                                    for x, y in zip(a, b))


def guarded(m, name, f, args, what):
    """runs one query with snapshots; returns a copy of its result after overwriting the original"""
    before, ms = [snap(x) for x in args], model_snap(m)
    for x in args:
        if isinstance(x, np.ndarray):
            x.flags.writeable = True
    res = f(m)
    for x, b in zip(args, before):
        if snap(x) != b:
            fail("%s changed an argument: %s became %s", what, b, snap(x))
    after = model_snap(m)
    for k in ms:
        if after[k] != ms[k]:
            fail("%s changed the model's %s: %s became %s", what, k, ms[k], after[k])
    keep = tuple(np.array(x, copy=True) for x in res)
    scribble(res)
    if model_snap(m) != ms:
        fail("writing into the result of %s changed the model", what)
    for x, b in zip(args, before):
        if snap(x) != b:
            fail("writing into the result of %s changed an argument", what)
    return keep


def do_query(c, ctx):
    m = make(c["kind"], c["dt"])
    for name, (f, args) in query_table(c["kind"], c["idf"], c["form"], c["mdt"]).items():
        what = "%s %s (%s ids, %s %s)" % (c["kind"], name, c["idf"], c["mdt"], c["form"])
        a = guarded(m, name, f, args, what)
        b = guarded(m, name, f, args, what)
        if not same(a, b):
            fail("%s: repeating the query after writing into its result gives %s, before %s", what, b, a)
        ctx.step(2)
        ctx.trace()
        ctx.outcome(name, c["kind"], [x.tobytes() for x in a])


def do_pairs(c, ctx):
    q = query_table(c["kind"])
    m = make(c["kind"], c["dt"])
    ref = {n: guarded(m, n, f, a, n) for n, (f, a) in q.items()}
    for seq in itertools.product(q, repeat=2) if c["deep"] else [(n,) for n in q]:
        m = make(c["kind"], c["dt"]) if base(c["kind"]) in MFK + ("raw", "cosine") else m
        for n in (c["a"],) + tuple(seq):
            f, a = q[n]
            r = guarded(m, n, f, a, "%s %s in %s" % (c["kind"], n, (c["a"],) + tuple(seq)))
            if not same(r, ref[n]):
                fail("%s: %s after %s gives %s instead of %s", c["kind"], n, c["a"], r, ref[n])
            ctx.step()
        ctx.trace()


def do_fit(c, ctx):
    kind = c["kind"]
    if kind.endswith("-") or (base(kind) == "lmf" and c["dt"] == "float64"):      # LMF trains in single precision only
        return
    M = FORM[c["form"]](D.astype(c["mdt"]))
    s = snap(M)
    m = make(kind, c["dt"])
    if kind == "faiss" and c["form"] == "coo":
        return
    for rep in (0, 1):
        m.fit(M, show_progress=False)
        if snap(M) != s:
            fail("%s.fit changed the %s %s matrix it was given", kind, c["mdt"], c["form"])
        ctx.step()
    # and the model keeps no tie to it
    if sp.issparse(M) and hasattr(M, "data"):
        ms = model_snap(m)
        M.data[:] = 9
        if model_snap(m) != ms:
            fail("%s: writing into the training matrix after fit changed the model", kind)
    ctx.trace()


def do_partial(c, ctx):
    M, T = FORM[c["form"]](D[[0, 1]].astype(c["mdt"])), FORM[c["form"]](D.T[[0, 1]].astype(c["mdt"]))
    for dt in ("float32", "float64"):
        for idf in ("list", "i32", "i64"):
            for new in (1, 7):
                m = make(c["kind"], dt)
                u = ids(idf, [0, new])
                watch = [M, T, u]
                s = [snap(x) for x in watch]
                m.partial_fit_users(u, M)
                if [snap(x) for x in watch] != s:
                    fail("%s partial_fit_users changed an argument (%s %s)", c["kind"], c["mdt"], c["form"])
                m = make(c["kind"], dt)
                m.partial_fit_items(u, T)
                if [snap(x) for x in watch] != s:
                    fail("%s partial_fit_items changed an argument (%s %s)", c["kind"], c["mdt"], c["form"])
                f = io.BytesIO()
                ms = model_snap(m)
                m.save(f)
                if model_snap(m) != ms:
                    fail("save changed the model")
                ctx.step(3)
    ctx.trace()


def do_eval(c, ctx):
    from implicit import evaluation as e
    M = FORM[c["form"]](D.astype(c["mdt"]))
    O = np.roll(D, 1, axis=0)
    O[:, 3] = 0
    other = FORM[c["form"]](O.astype(c["mdt"]))
    s = [snap(M), snap(other)]

    def check(what):
        if [snap(M), snap(other)] != s:
            fail("%s changed its %s %s argument", what, c["mdt"], c["form"])
        ctx.step()
    for r in (e.train_test_split(M, 0.5, 3), e.leave_k_out_split(M, 1, 0.0, 3), e.leave_k_out_split(M, 1, 0.5, 3)):
        check("split")
        for x in r:
            x.data[:] = 77
        check("writing into the result of a split")
    for kind in ("als", "als:c", "als:d", "bpr", "lmf", "cosine", "cosine:2", "annoy", "annoy-"):
        m = make(kind)
        ms = model_snap(m)
        for K in (1, 3, 9):
            for f in (e.ranking_metrics_at_k, e.precision_at_k, e.AUC_at_k, e.ndcg_at_k, e.mean_average_precision_at_k):
                for thr in (0, 1, 3):
                    f(m, M, other, K=K, show_progress=False, num_threads=thr)
                    check("%s of %s" % (f.__name__, kind))
                    if model_snap(m) != ms:
                        fail("%s(num_threads=%d) changed the %s model", f.__name__, thr, kind)
    ctx.trace()


def do_weight(c, ctx):
    from implicit.nearest_neighbours import all_pairs_knn, bm25_weight, normalize, tfidf_weight
    M = FORM[c["form"]](D.astype(c["mdt"]))
    s = snap(M)
    for name, f in (("bm25_weight", bm25_weight), ("tfidf_weight", tfidf_weight), ("normalize", normalize),
                    ("all_pairs_knn", lambda x: all_pairs_knn(x, 3, show_progress=False)),
                    ("bm25_weight.T", lambda x: bm25_weight(x.T)), ("normalize(tfidf)", lambda x: normalize(tfidf_weight(x.T)))):
        r = f(M)
        if snap(M) != s:
            fail("%s changed its %s %s argument", name, c["mdt"], c["form"])
        if name != "all_pairs_knn":
            r.data[:] = 55
            if snap(M) != s:
                fail("writing into the result of %s changed its argument", name)
        ctx.step()
    ctx.trace()
