"""A batched call equals the same calls made one at a time."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..lib import SENT, SENT_SIM, csr, det_matrix, fail, knn_kinds, likes_csr, make_mf, same_rows
from .c02 import ann_model

META = dict(
    technique="exhaustive enumeration of id vectors (all words up to length 4 over 4 ids) and of batch sizes across the "
              "internal block boundaries; each batch execution compared with the scalar executions",
    bounds={"quick": "all id vectors of length 1..4 over 4 ids (duplicates, every order; all pairings with interaction rows for length 2, shifted rows above), recommend/similar_items/"
                     "similar_users, all model kinds incl. ANN wrappers, with and without likes/filters/candidates/"
                     "recalculation, list/array/int32/int64 ids; batch sizes {1..301 around 100,200,300; 500,1000,1001} "
                     "in 4 orders, threads {0,1,2,3}; factors scaled by 2^-40..2^40; catalogues of 33000 and 70000 items",
            "thorough": "additionally every batch size from 1 to 420"},
    assumptions=["order of exact ties is unspecified"],
)
KINDS = ("als", "bpr", "lmf", "raw", "cosine", "tfidf", "bm25", "annoy", "nmslib", "faiss")
DATA = np.array([[2, 0, 1, 0, 3, 0], [0, 1, 0, 0, 1, 2], [1, 1, 1, 0, 0, 0], [0, 0, 0, 0, 0, 0]], dtype=float)


def cases(tier):
    for kind in KINDS:
        for L in range(1, 5):
            for w in itertools.product(range(4), repeat=L):
                if L == 4 and kind not in ("als", "cosine") and sum(w) % 4:
                    continue
                yield dict(t="word", kind=kind, w=w)
                # the rows of interactions needn't be those of the ids
                if L == 2:
                    for rw in itertools.product(range(4), repeat=L):
                        yield dict(t="word", kind=kind, w=w, rw=rw)
                elif L > 2:
                    for shift in (1, 2):
                        yield dict(t="word", kind=kind, w=w, rw=[(x + shift * j) % 4 for j, x in enumerate(w)])
    sizes = [1, 2, 7, 8, 9, 50, 64, 98, 99, 100, 101, 102, 128, 150, 198, 199, 200, 201, 202, 256, 299, 300, 301, 399, 400,
             401, 500, 512, 1000, 1001]
    if tier == "thorough":
        sizes = sorted(set(sizes) | set(range(1, 421)))
    for k, s in enumerate(sizes):
        for order in ("asc", "desc", "dup", "stride"):
            for kind in ("als", "bpr", "lmf", "cosine"):
                yield dict(t="size", kind=kind, size=s, order=order, threads=[0, 1, 2, 3][k % 4],
                           dt=["float32", "float64"][k % 2])
    for kind in ("als", "bpr", "lmf"):
        for L in (1, 2, 3):
            for w in itertools.product(range(4), repeat=L):
                for e in (-40, -12, 12, 40):
                    yield dict(t="scale", kind=kind, w=w, e=e, dt=["float32", "float64"][sum(w) % 2])
    for kind in ("als", "bpr", "lmf") + ("raw", "cosine", "tfidf", "bm25"):
        for n in (33000, 70000):
            yield dict(t="catalogue", kind=kind, n=n)
    for kind in ("annoy", "nmslib", "faiss"):
        for s in (1, 2, 99, 100, 101, 201):
            yield dict(t="size", kind=kind, size=s, order="stride", threads=1, dt="float32")


CACHE = {}


def catalogue(c, ctx):
    """ids that don't fit into 16 bits"""
    kind, n = c["kind"], c["n"]
    k = np.arange(40)
    # 40 users, items spread over the whole catalogue
    cols = [(u * 37 + j * (n // 13)) % n for u in k for j in range(9)] + [n - 1 - u % 3 for u in k]
    rws = [u for u in k for j in range(9)] + list(k)
    X = sp.csr_matrix((np.arange(len(cols)) % 4 + 1.0, (rws, cols)), shape=(40, n))
    X.sum_duplicates()
    X.sort_indices()
    mf = kind in ("als", "bpr", "lmf")
    if mf:
        m = make_mf(kind, det_matrix(40, 3, 3) + 0.5, det_matrix(n, 3, 4, -999, 999) / 100.0, "float32", 1)
    else:
        m = knn_kinds()[kind](K=5, num_threads=1)
        m.fit(X, show_progress=False)
    us = (k * 7 + 3) % 40
    for opt in (dict(), dict(filter_already_liked_items=False), dict(filter_items=[n - 1, n - 2, 5]), dict(items=np.arange(3, n, 1001))):
        b = m.recommend(us, X[us], N=6, **opt)
        cmp("%s recommend of %d items, %s" % (kind, n, list(opt)), kind, b, [m.recommend(int(u), X[int(u)], N=6, **opt) for u in us], SENT)
        ctx.step(41)
    its = np.array(sorted(set(cols)))[::-7]
    for opt in (dict(), dict(filter_items=[n - 1, n - 2])):
        b = m.similar_items(its, 4, **opt)
        cmp("%s similar_items of %d items, %s" % (kind, n, list(opt)), kind, b, [m.similar_items(int(i), 4, **opt) for i in its], SENT_SIM if mf else SENT)
        ctx.step(1 + len(its))
    ctx.trace()
    ctx.state("catalogue", kind, n)


def scale(c, ctx):
    """factors of other magnitudes: all the products are exact, so a batch has to give exactly what the single calls give"""
    kind, w, e = c["kind"], list(c["w"]), c["e"]
    U, V = det_matrix(4, 3, 1), det_matrix(6, 3, 2)
    m = make_mf(kind, U * 2.0 ** e, V * 2.0 ** e, c["dt"], 1)
    rows = csr(DATA[w], dtype=np.float32)

    def up(r):
        s = np.asarray(r[1], dtype=float)
        return r[0], np.where(s < -1e37, -np.inf, s * 2.0 ** (-2 * e))
    for opt in (dict(), dict(filter_already_liked_items=False), dict(filter_items=[0, 5]), dict(items=[5, 0, 2])):
        b = m.recommend(w, rows, N=6, **opt)
        cmp("%s factors x 2^%d recommend(%s, %s)" % (kind, e, w, opt), kind, up(b), [up(m.recommend(u, rows[j], N=6, **opt)) for j, u in enumerate(w)], SENT)
    for f in (m.similar_items, m.similar_users):
        b = f(w, 4)
        cmp("%s factors x 2^%d %s(%s)" % (kind, e, f.__name__, w), kind, b, [f(u, 4) for u in w], SENT_SIM)
    ctx.step(6 * (1 + len(w)))
    ctx.trace()
    ctx.state("scale", kind, tuple(w), e)
    ctx.sample(c)


def model(kind, U=None, V=None, dt="float32", threads=1):
    key = (kind, dt, threads, None if U is None else (len(U), len(V)))
    if key in CACHE:
        return CACHE[key]
    if U is None:
        U, V = det_matrix(4, 3, 1), det_matrix(6, 3, 2)
        U[1] = 0
        V[3] = 0
    if kind in ("als", "bpr", "lmf"):
        m = make_mf(kind, U, V, dt, threads)
        if kind == "als":
            m.regularization = 0.5
    elif kind in knn_kinds():
        m = knn_kinds()[kind](K=3, num_threads=threads)
        m.fit(csr(DATA if len(V) == 6 else big_data(len(U), len(V)), dtype=np.float64), show_progress=False)
    else:
        V = np.array(V, dtype=float)
        V[(V == 0).all(axis=1)] = 1
        m = ann_model(kind, True, V, U)
    if len(CACHE) > 40:
        CACHE.clear()
    CACHE[key] = m
    return m


def big_data(u, n):
    return (det_matrix(u, n, 3, 0, 4) > 3) * det_matrix(u, n, 4, 1, 3)


def tol(kind):
    return 2e-3 if kind in ("annoy", "nmslib", "faiss") else 2e-6


def cmp(what, kind, batch, scalars, sent):
    ids, sc = batch
    if len(ids) != len(scalars) or len(sc) != len(scalars):
        fail("%s: %d rows for %d ids", what, len(ids), len(scalars))
    for r, (i, s) in enumerate(scalars):
        same_rows("%s row %d" % (what, r), ids[r], sc[r], i, s, tol(kind), sent)


def run_case(c, ctx):
    kind = c["kind"]
    mf, ann = kind in ("als", "bpr", "lmf"), kind in ("annoy", "nmslib", "faiss")
    if c["t"] == "catalogue":
        return catalogue(c, ctx)
    if c["t"] == "scale":
        return scale(c, ctx)
    if c["t"] == "word":
        m = model(kind)
        w = tuple(c["w"])
        rw = tuple(c.get("rw") or w)
        rows = csr(DATA[list(rw)], dtype=np.float64 if not mf else np.float32)
        forms = [list(w), np.array(w), np.array(w, dtype=np.int32)]
        k = sum(w) + len(w)
        ctx.state(kind, w, rw)
        opts = [dict(), dict(filter_already_liked_items=False), dict(filter_items=[0, 5]),
                dict(filter_items=np.array([1])), dict(filter_already_liked_items=False, filter_items=[2])]
        if not ann:
            opts += [dict(items=[5, 0, 2]), dict(items=np.array([1, 3, 4, 5]), filter_already_liked_items=False)]
        if kind == "als":
            opts += [dict(recalculate_user=True), dict(recalculate_user=True, items=[4, 1, 0])]
        for o, opt in enumerate(opts):
            for N in (1 + (k + o) % 3, 6):
                if ann and N == 6:
                    N = 4
                ids = forms[(k + o) % 3]
                b = m.recommend(ids, rows, N=N, **opt)
                sc = [m.recommend(u, rows[j], N=N, **opt) for j, u in enumerate(w)]
                ctx.step(1 + len(w))
                cmp("%s recommend(%s, N=%d, %s)" % (kind, ids, N, opt), kind, b, sc, SENT)
                ctx.trace()
                ctx.outcome(np.asarray(b[0]).tobytes(), o)
        if rw != w:
            return
        opts = [dict(), dict(filter_items=[0, 3])]
        if not ann:
            opts += [dict(items=[5, 0, 2])]
        for o, opt in enumerate(opts):
            for N in (1, 3):
                ids = forms[(k + o) % 3]
                b = m.similar_items(ids, N, **opt)
                sc = [m.similar_items(u, N, **opt) for u in w]
                cmp("%s similar_items(%s, N=%d, %s)" % (kind, ids, N, opt), kind, b, sc, SENT_SIM if mf else SENT)
                if mf:
                    o2 = {k2.replace("item", "user"): [x % 4 for x in v] for k2, v in opt.items()}
                    b = m.similar_users(ids, N, **o2)
                    sc = [m.similar_users(u, N, **o2) for u in w]
                    cmp("%s similar_users(%s, N=%d, %s)" % (kind, ids, N, o2), kind, b, sc, SENT_SIM)
                ctx.step(1 + len(w))
                ctx.trace()
        if kind == "als":
            iu = csr(DATA.T[list(w), :4])
            b = m.similar_items(list(w), 4, recalculate_item=True, item_users=iu)
            sc = [m.similar_items(u, 4, recalculate_item=True, item_users=iu[j]) for j, u in enumerate(w)]
            cmp("als similar_items(recalculated %s)" % (w,), kind, b, sc, SENT_SIM)
            bf = m.recalculate_user(list(w), rows)
            for j, u in enumerate(w):
                if not np.allclose(bf[j], m.recalculate_user(u, rows[j]), atol=1e-6):
                    fail("recalculate_user(%s) row %d differs from the single call", w, j)
            bf = m.recalculate_item(list(w), iu)
            for j, u in enumerate(w):
                if not np.allclose(bf[j], m.recalculate_item(u, iu[j]), atol=1e-6):
                    fail("recalculate_item(%s) row %d differs from the single call", w, j)
        ctx.sample(c)
        return
    # large batches
    n_u, n_i, size = 330, 20, c["size"]
    U, V = det_matrix(n_u, 4, 5), det_matrix(n_i, 4, 6)
    m = model(kind, U, V, c["dt"], c["threads"])
    D = big_data(n_u, n_i)
    base = np.arange(size)
    ids = {"asc": base % n_u, "desc": (base[::-1]) % n_u, "dup": (base // 3) % n_u, "stride": (base * 7 + 3) % n_u}[c["order"]]
    rows = csr(D, dtype=np.float64)[ids]
    probe = sorted({0, 1, 49, 98, 99, 100, 101, 127, 128, 199, 200, 201, 255, 256, 299, 300, size - 2, size - 1} & set(range(size)))
    if kind in ("annoy", "nmslib", "faiss"):
        probe = probe[:8]
    ctx.state("size", kind, size, c["order"], c["dt"], c["threads"])
    for opt in (dict(), dict(filter_already_liked_items=False, filter_items=[0, 7])):
        for N in (5,):
            b = m.recommend(ids, rows, N=N, **opt)
            if len(b[0]) != size:
                fail("%s: %d rows for a batch of %d", kind, len(b[0]), size)
            for j in probe:
                s = m.recommend(int(ids[j]), rows[j], N=N, **opt)
                same_rows("%s recommend batch of %d row %d %s" % (kind, size, j, opt), b[0][j], b[1][j], s[0], s[1],
                          tol(kind), SENT)
            ctx.step(1 + len(probe))
            ctx.trace()
    it = ids % n_i
    b = m.similar_items(it, 6)
    for j in probe:
        s = m.similar_items(int(it[j]), 6)
        same_rows("%s similar_items batch of %d row %d" % (kind, size, j), b[0][j], b[1][j], s[0], s[1], tol(kind),
                  SENT_SIM if mf else SENT)
    if mf:
        b = m.similar_users(ids, 6)
        for j in probe:
            s = m.similar_users(int(ids[j]), 6)
            same_rows("%s similar_users batch of %d row %d" % (kind, size, j), b[0][j], b[1][j], s[0], s[1], tol(kind), SENT_SIM)
    if kind == "als":
        b = m.recommend(ids, rows, N=6, recalculate_user=True)
        for j in probe:
            s = m.recommend(int(ids[j]), rows[j], N=6, recalculate_user=True)
            same_rows("als recalculated batch of %d row %d" % (size, j), b[0][j], b[1][j], s[0], s[1], 1e-4, SENT)
    ctx.step(3)
    ctx.trace()
