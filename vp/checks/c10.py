"""Item-item similarities."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..core import short
from ..lib import det_matrix, fail, knn_kinds, knn_weight
from .c01 import nth

META = dict(
    technique="exhaustive enumeration of small count matrices x weighting x K x parameters; the learned similarity of every item and "
              "every similar_items answer compared with float64 inner products of the weighted columns",
    bounds={"quick": "all 3x3 matrices over {0,1,2}, all 2x4 and 4x2 over {0,1,3}, all 1x4, 4x1, 1x1 over {0,1,2,7}, for raw/cosine/TF-IDF/"
                     "BM25, K in {1,2,3,20} (0 and 10^6 .. 2^32-1 for three sizes) and BM25 (K1,B) in 5 settings in rotation, threads {0,1,2,3}; every query and N; large values of 6 types; 1..130 items "
                     "around the work chunk size",
            "thorough": "every K for each matrix, all 3x4 matrices over {0,1,2}"},
    assumptions=["counts are non-negative; which of several equal similarities is kept at position K is unspecified"],
)
BM = [(1.2, 0.75), (100, 0.8), (0.5, 0.0), (2.0, 1.0), (1.2, 0.5)]
KS = [1, 2, 3, 20]
LAT = [(3, 3, [0, 1, 2]), (2, 4, [0, 1, 3]), (4, 2, [0, 1, 3]), (1, 4, [0, 1, 2, 7]), (4, 1, [0, 1, 2, 7]), (1, 1, [0, 1, 2, 7])]


def cases(tier):
    for kind in ("raw", "cosine", "tfidf", "bm25"):
        for u, i, vals in LAT + ([(3, 4, [0, 1, 2])] if tier != "quick" else []):
            total = len(vals) ** (u * i)
            for s in range(0, total, 243):
                yield dict(t="lat", kind=kind, u=u, i=i, vals=vals, lo=s, hi=min(total, s + 243), ks=-1 if tier != "quick" else s // 243)
        for i in (1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 63, 64, 65, 129):
            for K in (1, 2, 7, 20, 200):
                for thr in (0, 1, 2, 4):
                    yield dict(t="big", kind=kind, u=13, i=i, K=K, thr=thr)
        for i in (1, 7, 64):            # no neighbours at all, or more than could ever be stored
            for K in (0, 10 ** 6, 2 ** 30, 10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
                yield dict(t="big", kind=kind, u=13, i=i, K=K, thr=1)
        for u in (1, 8, 9, 65, 200):
            yield dict(t="big", kind=kind, u=u, i=11, K=3, thr=2)
        yield dict(t="scale", kind=kind)


def make(kind, K, thr, bm=(1.2, 0.75)):
    if kind == "bm25":
        return knn_kinds()[kind](K=K, K1=bm[0], B=bm[1], num_threads=thr)
    return knn_kinds()[kind](K=K, num_threads=thr)


def check_model(what, m, D, kind, K, bm, ctx, ns=None, tol0=1e-9):
    W = knn_weight(kind, D, *bm)
    S = W.T.dot(W)
    scale = np.sqrt(np.outer(np.diag(S), np.diag(S)))      # bounds the summands
    tol = tol0 * (scale + 1e-30)
    n = D.shape[1]
    sim = sp.csr_matrix(m.similarity)
    if sim.shape != (n, n):
        fail("%s: similarity has shape %s", what, sim.shape)
    if sim.nnz and not np.isfinite(sim.data).all():
        fail("%s: non-finite similarity for %s", what, short(D, 400))
    if kind in ("cosine", "tfidf") and sim.nnz and sim.data.max() > 1 + 1e-9:
        fail("%s: similarity %r exceeds one for %s", what, sim.data.max(), short(D, 400))
    for i in range(n):
        row = {}
        for p in range(sim.indptr[i], sim.indptr[i + 1]):
            j = int(sim.indices[p])
            if j in row:
                fail("%s: neighbour %d of %d stored twice", what, j, i)
            row[j] = float(sim.data[p])
        check_row("%s: neighbours of item %d" % (what, i), row, S[i], tol[i], K, D)
        for N in ns or (1, 2, n + 1):
            ids, sc = m.similar_items(i, N=N)
            ids, sc = np.asarray(ids).tolist(), np.asarray(sc).tolist()
            if len(set(ids)) != len(ids) or len(ids) > N:
                fail("%s: similar_items(%d, N=%d) = %s", what, i, N, ids)
            if any(a < b - 1e-15 for a, b in zip(sc, sc[1:])):
                fail("%s: similar_items(%d) not sorted: %s", what, i, sc)
            check_row("%s: similar_items(%d, N=%d)" % (what, i, N), dict(zip(ids, sc)), S[i], tol[i], min(K, N), D)
            ctx.step()


def check_row(what, row, true, tol, K, D):
    pos = [j for j in range(len(true)) if true[j] > 1e-13 * (1 + abs(true).max()) and true[j] > tol[j]]
    for j, v in row.items():
        if not 0 <= j < len(true):
            fail("%s: id %r of %d items", what, j, len(true))
        if v != v or abs(v - true[j]) > tol[j] + 1e-15:
            fail("%s: similarity to %d is %r, should be %r; counts %s", what, j, v, float(true[j]), short(D, 400))
    got = [j for j in pos if j in row]
    if len(row) > K or len(got) < min(K, len(pos)):
        fail("%s: %d neighbours, should be %d: %s, all: %s; counts %s", what, len(got), min(K, len(pos)), row, short(true, 300), short(D, 400))
    extra = [j for j in row if j not in pos]
    if extra and any(true[j] == 0 for j in extra):
        fail("%s: %s share nothing with it: %s; counts %s", what, extra, row, short(D, 400))
    left = [true[j] for j in pos if j not in row]
    if left and got and max(left) > min(row[j] for j in got) + max(tol[j] for j in got):
        fail("%s: kept %s, but the similarities are %s; counts %s", what, row, short(true, 300), short(D, 400))


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def do_lat(c, ctx):
    u, i, kind = c["u"], c["i"], c["kind"]
    for k in range(c["lo"], c["hi"]):
        D = np.array(nth(c["vals"], k, u * i), dtype=float).reshape(u, i)
        for K in KS if c["ks"] < 0 else [KS[(c["ks"] + k) % 4]]:
            thr = (k // 3) % 4
            bm = BM[k % 5]
            m = make(kind, K, thr, bm)
            m.fit(sp.csr_matrix(D), show_progress=False)
            check_model("%s K=%d%s" % (kind, K, " K1=%g B=%g" % bm if kind == "bm25" else ""), m, D, kind, K, bm, ctx, ns=((2, i + 1)[k % 2],))
            ctx.state(kind, u, i, k, K, bm if kind == "bm25" else 0)
            ctx.trace()
            ctx.step()


def do_big(c, ctx):
    D = np.array([0, 1, 0, 2, 0, 5, 0, 0])[det_matrix(c["u"], c["i"], c["i"] + 2, 0, 7)].astype(float)
    if c["u"] > 4:
        D[3] = 0
    for bm in BM if c["kind"] == "bm25" else BM[:1]:
        m = make(c["kind"], c["K"], c["thr"], bm)
        for again in (0, 1):
            m.fit(sp.csr_matrix(D), show_progress=False)
            check_model("%s %dx%d K=%d threads=%d" % (c["kind"], c["u"], c["i"], c["K"], c["thr"]), m, D, c["kind"], c["K"], bm, ctx,
                        ns=(3,))
            ctx.state(c["kind"], c["u"], c["i"], c["K"], c["thr"], bm, again)
            ctx.trace()
            ctx.step()


def do_scale(c, ctx):
    """very different magnitudes of counts"""
    for s in (1e-6, 1e-3, 1.0, 1e3, 1e6):
        D = np.array([0, 1, 0, 2, 0, 5, 0, 1e3])[det_matrix(9, 7, 5, 0, 7)].astype(float) * s
        for K in (1, 3, 20):
            m = make(c["kind"], K, 1)
            m.fit(sp.csr_matrix(D), show_progress=False)
            check_model("%s scale %g" % (c["kind"], s), m, D, c["kind"], K, BM[0], ctx)
            ctx.state("scale", c["kind"], s, K)
            ctx.trace()
            ctx.step()
    for dt, big in (("int8", 100), ("uint8", 200), ("int16", 30000), ("int32", 100000), ("int64", 10 ** 9), ("float32", 1e6)):
        D = np.array([0, 1, 0, 2, 0, 5, 0, big])[det_matrix(9, 7, 6, 0, 7)]
        for K in (1, 20):
            m = make(c["kind"], K, 1)
            m.fit(sp.csr_matrix(D.astype(dt)), show_progress=False)
            check_model("%s, %s values up to %g" % (c["kind"], dt, big), m, D.astype(float), c["kind"], K, BM[0], ctx, tol0=3e-6 if dt == "float32" else 1e-9)
            ctx.state("type", c["kind"], dt, K)
            ctx.trace()
            ctx.step()
