"""Invalid requests fail loudly and leave the model as it was."""
import itertools
import warnings

import numpy as np
import scipy.sparse as sp

from ..lib import csr, det_matrix, fail, knn_kinds, make_mf, mf_kinds
from .c19 import model_snap, query_table, same, snap, D as DATA

META = dict(
    technique="exhaustive enumeration of invalid requests (operation x kind of inconsistency x magnitude x argument form) per model, and of all sequences of two invalid requests with a valid "
              "query after each; every one must raise and leave the learned state and all answers unchanged",
    bounds={"quick": "about 60-90 invalid requests per model kind (ALS/BPR/LMF in both precisions, 4 item-item models, 6 ANN configurations), all ordered pairs of them; 5 sources of NaN x models; 9 dtypes",
            "thorough": "all ordered triples on one model per family"},
    assumptions=["which exception type is raised is not prescribed"],
)
MF = ("als", "bpr", "lmf")
KNN = ("raw", "cosine", "tfidf", "bm25")
ANN = ("annoy", "nmslib", "faiss", "annoy-", "nmslib-", "faiss-")
R = 6           # users
C = 5           # items


def make(kind, dt="float32"):
    from .c19 import make as mk
    return mk(kind, dt)


def invalid(kind):
    """name -> call; every call is inconsistent"""
    M = lambda rows: sp.csr_matrix(DATA[list(rows)].astype(np.float32))
    one, two, three = M([0]), M([0, 1]), M([0, 1, 2])
    u1, u2 = 1, np.array([0, 1])
    q = {}
    mf = kind in MF or kind in ANN
    exact = kind in MF or kind in KNN or kind.endswith("-")

    # wrong number of interaction rows
    for n, rows in ((0, M([])), (2, two), (3, three), (6, M(range(6)))):
        q["scalar rows %d" % n] = lambda m, rows=rows: m.recommend(u1, rows, N=2)
    for n, rows in ((0, M([])), (1, one), (3, three), (6, M(range(6)))):
        q["batch rows %d" % n] = lambda m, rows=rows: m.recommend(u2, rows, N=2)
        q["batch list rows %d" % n] = lambda m, rows=rows: m.recommend([0, 1], rows, N=2)
    # not CSR
    bad = {"csc": sp.csc_matrix(one), "coo": sp.coo_matrix(one), "lil": sp.lil_matrix(one), "dense": one.toarray(), "none": None, "list": [[1, 0, 2, 0, 3]]}
    for n, b in bad.items():
        q["not csr %s" % n] = lambda m, b=b: m.recommend(u1, b, N=2)
        q["not csr batch %s" % n] = lambda m, b=b: m.recommend(np.array([1]), b, N=2)
    # candidates outside the model
    for n, ids in (("one", [C]), ("mixed", [0, C, 1]), ("large", [0, 10 ** 6]), ("first", [C, 0]), ("negative", [-1, 0]), ("very negative", [-C - 1]), ("array", np.array([2, C])), ("i32", np.array([C + 3], dtype=np.int32))):
        for own in (True, False):
            q["items %s %s" % (n, own)] = lambda m, ids=ids, own=own: m.recommend(u1, one, N=2, items=ids, filter_already_liked_items=own)
            q["items batch %s %s" % (n, own)] = lambda m, ids=ids, own=own: m.recommend(u2, two, N=2, items=ids, filter_already_liked_items=own)
        q["similar items %s" % n] = lambda m, ids=ids: m.similar_items(1, N=2, items=ids)
        q["similar items batch %s" % n] = lambda m, ids=ids: m.similar_items(u2, N=2, items=ids)
        if kind in MF:
            us = [i + 1 if i >= C else i - 1 if i < -1 else i for i in list(ids)]
            q["similar users %s" % n] = lambda m, us=us: m.similar_users(1, N=2, users=us)
            q["similar users batch %s" % n] = lambda m, us=us: m.similar_users(u2, N=2, users=np.array(us))
    # interactions with items (users) the model does not know, where they are needed for the answer
    if kind in KNN or kind == "als":
        W = lambda n, ids, rows: sp.csr_matrix(np.vstack([np.isin(np.arange(n), ids)] * rows).astype(np.float32) * 2)
        for n, (wide, ids) in {"next": (C + 1, [0, C]), "only": (C + 1, [C]), "far": (10 ** 5, [1, 10 ** 5 - 1]), "all": (3 * C, range(3 * C))}.items():
            if kind in KNN:
                q["unknown liked %s" % n] = lambda m, w=W(wide, ids, 1): m.recommend(u1, w, N=2, filter_already_liked_items=False)
                q["unknown liked filtered %s" % n] = lambda m, w=W(wide, ids, 1): m.recommend(u1, w, N=2)
                q["unknown liked batch %s" % n] = lambda m, w=sp.vstack([W(wide, [0], 1), W(wide, ids, 1)]).tocsr(): m.recommend(u2, w, N=2, filter_already_liked_items=False)
                continue
            w1, w2 = W(wide, ids, 1), sp.vstack([W(wide, [0], 1), W(wide, ids, 1)]).tocsr()
            v1 = W(wide + 1, [i + 1 if i >= C else i for i in ids], 1)
            v2 = sp.vstack([W(wide + 1, [0], 1), v1]).tocsr()
            q["unknown recalculated %s" % n] = lambda m, w=w1: m.recommend(u1, w, N=2, recalculate_user=True, filter_already_liked_items=False)
            q["unknown recalculate_user %s" % n] = lambda m, w=w1: m.recalculate_user(u1, w)
            q["unknown recalculate_user batch %s" % n] = lambda m, w=w2: m.recalculate_user(u2, w)
            q["unknown recalculate_item %s" % n] = lambda m, w=v1: m.recalculate_item(u1, w)
            q["unknown similar recalculated %s" % n] = lambda m, w=v2: m.similar_items(u2, N=2, recalculate_item=True, item_users=w)
            q["unknown partial users %s" % n] = lambda m, w=w2: m.partial_fit_users(u2, w)
            q["unknown partial new users %s" % n] = lambda m, w=w2: m.partial_fit_users([0, R + 3], w)
            q["unknown partial items %s" % n] = lambda m, w=v2: m.partial_fit_items(u2, w)
            q["unknown explain %s" % n] = lambda m, w=w2: m.explain(1, w, 1)
    # both a candidate and a filter list
    q["both"] = lambda m: m.recommend(u1, one, N=2, items=[0, 1], filter_items=[2])
    q["both arrays"] = lambda m: m.recommend(u2, two, N=2, items=np.array([0, 1]), filter_items=np.array([2, 3]))
    q["similar both"] = lambda m: m.similar_items(1, N=2, items=[0, 1], filter_items=[2])
    if kind in MF:
        q["similar users both"] = lambda m: m.similar_users(1, N=2, users=[0, 1], filter_users=[2])
    # ids outside the model
    if mf:
        q["user id"] = lambda m: m.recommend(R, one, N=2)
        q["user id batch"] = lambda m: m.recommend(np.array([0, R]), two, N=2)
        q["item id"] = lambda m: m.similar_items(C, N=2)
        q["item id batch"] = lambda m: m.similar_items(np.array([0, C]), N=2)
    if kind in MF:
        q["similar user id"] = lambda m: m.similar_users(R, N=2)
        q["similar user id batch"] = lambda m: m.similar_users(np.array([0, R]), N=2)
    # unsupported options
    if not exact:
        q["ann items"] = lambda m: m.recommend(u1, one, N=2, items=[0, 1])
        q["ann similar items"] = lambda m: m.similar_items(1, N=2, items=[0, 1])
    if kind in KNN or kind in ANN:
        q["similar_users"] = lambda m: m.similar_users(1, N=2)
    if kind in KNN:
        q["recalculate_item"] = lambda m: m.similar_items(1, N=2, recalculate_item=True, item_users=csr(DATA.T[[1]]))
        q["callback"] = lambda m: m.fit(csr(DATA), show_progress=False, callback=lambda *a: None)
    if kind in ("bpr", "lmf"):
        q["recalculate_user"] = lambda m: m.recommend(u1, one, N=2, recalculate_user=True)
        q["recalculate_item"] = lambda m: m.similar_items(1, N=2, recalculate_item=True, item_users=csr(DATA.T[[1]]))
    if kind in ("bpr", "lmf") or kind in KNN:
        q["partial_fit"] = lambda m: m.partial_fit_users(u2, two)
        q["explain"] = lambda m: m.explain(0, two, 1)
    if kind == "als":
        T = sp.csr_matrix(DATA.T.astype(np.float32))
        for n, ids, rows in (("fewer", u2, one), ("more", u2, three), ("none", u2, M([])), ("scalar", 1, two)):
            q["recalculate rows %s" % n] = lambda m, ids=ids, rows=rows: m.recalculate_user(ids, rows)
            q["recommend recalculate rows %s" % n] = lambda m, ids=ids, rows=rows: m.recommend(ids, rows, N=2, recalculate_user=True)
            q["recommend recalculate only rows %s" % n] = lambda m, ids=ids, rows=rows: m.recommend(ids, rows, N=2, recalculate_user=True, filter_already_liked_items=False)
            k = rows.shape[0]
            q["recalculate item rows %s" % n] = lambda m, ids=ids, k=k: m.recalculate_item(ids, T[:k])
            q["similar recalculate rows %s" % n] = lambda m, ids=ids, k=k: m.similar_items(ids, N=2, recalculate_item=True, item_users=T[:k])
            if n != "scalar":
                q["partial users rows %s" % n] = lambda m, ids=ids, rows=rows: m.partial_fit_users(ids, rows)
                q["partial users new rows %s" % n] = lambda m, rows=rows: m.partial_fit_users(np.array([0, R + 2]), rows)
                q["partial items rows %s" % n] = lambda m, ids=ids, k=k: m.partial_fit_items(ids, T[:k])
                q["partial items new rows %s" % n] = lambda m, k=k: m.partial_fit_items([0, C + 2], T[:k])
        q["recalculate no interactions"] = lambda m: m.recommend(u1, None, N=2, recalculate_user=True)
        q["recalculate dense"] = lambda m: m.recalculate_user(u1, one.toarray())
        q["recalculate item none"] = lambda m: m.similar_items(1, N=2, recalculate_item=True)
        q["partial dense"] = lambda m: m.partial_fit_users(u2, two.toarray())
    if kind in MF or kind in KNN:
        q["fit dense"] = lambda m: m.fit([[1, 2], [3, 4]], show_progress=False)
        q["fit none"] = lambda m: m.fit(None, show_progress=False)
    return q


def cases(tier):
    for kind in MF + KNN + ANN:
        for dt in ("float32", "float64") if kind in MF else ("float32",):
            names = list(invalid(kind))
            for k in range(8):
                yield dict(t="pairs", kind=kind, dt=dt, part=k, of=8)
    if tier == "thorough":
        for kind in ("als", "cosine", "bpr"):
            for k in range(32):
                yield dict(t="triples", kind=kind, dt="float32", part=k, of=32)
    for where in range(5):
        for kind in ("als", "als-direct", "als-py", "als-pydirect", "bpr", "lmf"):
            yield dict(t="nan", kind=kind, where=where)
    for kind in ("als", "als-direct", "bpr"):
        for dt in ("float16", "int32", "int64", "uint8", "complex64", "bool", "object", "longdouble", "S4"):
            yield dict(t="dtype", kind=kind, dt=dt)
    yield dict(t="split")
    for zero in range(4):
        yield dict(t="singular", zero=zero)


def run_case(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def refused(what, f, *a):
    try:
        r = f(*a)
    except Exception as e:
        return type(e).__name__
    fail("%s did not raise but returned %s", what, snap(r) if not isinstance(r, tuple) else [snap(x) for x in r])


def setup_model(c):
    m = make(c["kind"], c["dt"])
    q = query_table(c["kind"])
    # the simplest queries decide whether the answers stayed the same
    keep = [n for n in ("rec", "rec1", "rec_f", "sim", "simu", "ru", "rec_r") if n in q] or list(q)[:4]
    return m, q, keep


def answers(m, q, keep):
    out = []
    for n in keep:
        r = q[n][0](m)
        out.append(tuple(np.array(x, copy=True) for x in r))
    return out


def do_pairs(c, ctx, rep=2):
    m, q, keep = setup_model(c)
    names = list(invalid(c["kind"]))
    bad = invalid(c["kind"])
    ref, ms = answers(m, q, keep), model_snap(m)
    for k, seq in enumerate(itertools.product(names, repeat=rep)):
        if k % c["of"] != c["part"]:
            continue
        for n in seq:
            e = refused("%s %s (after %s)" % (c["kind"], n, seq[:-1]), bad[n], m)
            ctx.step()
            ctx.outcome(c["kind"], n, e)
        if model_snap(m) != ms:
            fail("%s: the refused requests %s changed the model", c["kind"], seq)
        if k % (8 if rep == 2 else 64) == c["part"] % 8 or seq[0] == seq[1]:
            for a, b, n in zip(answers(m, q, keep), ref, keep):
                if not same(a, b):
                    fail("%s: after the refused requests %s %s gives %s instead of %s", c["kind"], seq, n, a, b)
        ctx.trace()
        ctx.state(c["kind"], c["dt"], seq)


def do_triples(c, ctx):
    do_pairs(c, ctx, 3)


def nan_data(where):
    M = sp.csr_matrix(np.abs(DATA).astype(np.float32))
    if where == 0:
        M.data[0] = np.nan
    elif where == 1:
        M.data[-1] = np.nan
    elif where == 2:
        M.data[:] = np.nan
    elif where == 3:
        M.data[M.nnz // 2] = np.nan
    else:
        M.data[0] = np.inf
    return M


def do_nan(c, ctx):
    k = mf_kinds()
    kind, where = c["kind"], c["where"]
    kw = dict(num_threads=1, random_state=3)
    for its in (1, 2):
        for pre in (False, True):
            M = nan_data(where)
            if kind.startswith("als"):
                m = k["als"](factors=3, iterations=its, use_cg="direct" not in kind, use_native="py" not in kind, **kw)
            elif kind == "bpr":
                # BPR ignores the values: make the factors overflow instead
                m = k["bpr"](factors=3, iterations=4 * its, learning_rate=(1e38, 1e30, 3e38, 1e35, float("inf"))[where], **kw)
                M = csr(np.abs(DATA))
            else:
                m = k["lmf"](factors=3, iterations=its, **kw)
            if pre:
                if kind == "bpr":
                    continue
                m.fit(csr(np.abs(DATA)), show_progress=False)
            raised = False
            try:
                m.fit(M, show_progress=False)
            except Exception as e:
                raised = type(e).__name__
            finite = not (np.isnan(m.user_factors).any() or np.isnan(m.item_factors).any())
            if not raised and not finite:
                fail("%s: training left NaN in the factors without an error (%s)", kind, c)
            if kind.startswith("als") and where < 4 and not raised:
                fail("%s: training on NaN did not raise (%s)", kind, c)
            ctx.step()
            ctx.count("nan_raised", 1 if raised else 0)
    # NaN on one side only, planted by a callback after the last half-step
    for side in ("user_factors", "item_factors"):
        for row in (0, -1):
            m = (k["als"](factors=3, iterations=1, **kw) if kind.startswith("als") else k[kind](factors=3, iterations=1, **kw))

            def cb(*a, m=m):
                getattr(m, side)[row, -1] = np.nan
            refused("%s: NaN in %s" % (kind, side), lambda: m.fit(csr(np.abs(DATA)), show_progress=False, callback=cb))
            ctx.step()
    ctx.trace()
    ctx.state(kind, where)


def do_dtype(c, ctx):
    k = mf_kinds()

    def go():
        if c["kind"] == "bpr":
            m = k["bpr"](factors=2, iterations=1, dtype=np.dtype(c["dt"]), num_threads=1)
        else:
            m = k["als"](factors=2, iterations=1, dtype=np.dtype(c["dt"]), use_cg=c["kind"] == "als", num_threads=1)
        m.fit(csr(DATA), show_progress=False)
        return m.recommend(0, csr(DATA[[0]]), N=2)
    refused("%s with dtype %s" % (c["kind"], c["dt"]), go)
    ctx.step()
    ctx.trace()
    ctx.state(c["kind"], c["dt"])


def do_split(c, ctx):
    from implicit.evaluation import leave_k_out_split
    M = csr(DATA)
    for K in (0, -1, -5):
        refused("leave_k_out_split K=%d" % K, leave_k_out_split, M, K)
        ctx.step()
    for f in (1.0, 1.5, -0.1, 2.0, -1.0, float("nan"), 100.0):
        refused("leave_k_out_split train_only_size=%s" % f, leave_k_out_split, M, 1, f)
        ctx.step()
        ctx.state("split", f)
    ctx.trace()


def do_singular(c, ctx):
    """an unsolvable recalculation raises and a partial fit then changes nothing"""
    m = mf_kinds()["als"](factors=2, regularization=0.0, num_threads=1)
    U, V = np.zeros((4, 2), dtype=np.float32), np.zeros((3, 2), dtype=np.float32)
    if c["zero"] & 1:
        U[:, 0] = [1, 2, 3, 4]
    if c["zero"] & 2:
        V[:, 0] = [1, 2, 3]
    m.user_factors, m.item_factors = U, V
    ms = model_snap(m)
    for ids in ([0], [1, 9], np.array([3, 2])):
        rows = csr(np.eye(3)[[0, 1][:len(ids)]])
        refused("recalculate_user of a singular system", m.recalculate_user, ids, rows)
        refused("partial_fit_users of a singular system", m.partial_fit_users, ids, rows)
        rows = csr(np.eye(4)[[0, 1][:len(ids)]])
        refused("recalculate_item of a singular system", m.recalculate_item, ids, rows)
        refused("partial_fit_items of a singular system", m.partial_fit_items, ids, rows)
        if model_snap(m) != ms:
            fail("a failed partial fit changed the model")
        ctx.step(4)
        ctx.state("singular", c["zero"], list(ids))
    ctx.trace()
