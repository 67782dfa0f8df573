"""Helpers and reference semantics used by the checks (float64, plain Python/numpy)."""
import itertools
import os

import numpy as np
import scipy.sparse as sp

from .core import Violation, fail  # noqa: F401

F32MAX = float(np.finfo(np.float32).max)
SENT = -1e25          # recommend scores below this are "unfilled slot" sentinels
SENT_SIM = -1.5       # cosine scores below this are sentinels


def csr(rows, shape=None, dtype=np.float32):
    """CSR matrix from a dense nested list (entries equal to 0 are not stored)."""
    m = np.array(rows, dtype=np.float64)
    if m.ndim == 1:
        m = m.reshape(1, -1)
    if shape is not None:
        m = m.reshape(shape)
    return sp.csr_matrix(m.astype(dtype))


def likes_csr(n_items, liked, dtype=np.float32):
    """one CSR row per list of liked ids"""
    indptr = np.cumsum([0] + [len(x) for x in liked]).astype(np.int32)
    ind = np.array([i for x in liked for i in x], dtype=np.int32)
    return sp.csr_matrix((np.ones(len(ind), dtype=dtype), ind, indptr), shape=(len(liked), n_items))


def mf_kinds():
    from implicit.cpu.als import AlternatingLeastSquares
    from implicit.cpu.bpr import BayesianPersonalizedRanking
    from implicit.cpu.lmf import LogisticMatrixFactorization
    return {"als": AlternatingLeastSquares, "bpr": BayesianPersonalizedRanking,
            "lmf": LogisticMatrixFactorization}


def make_mf(kind, U, V, dtype="float32", threads=1, **kw):
    """A matrix factorization model holding exactly these factors."""
    V = np.array(V, dtype=dtype)
    U = np.array(U, dtype=dtype)
    extra = {"als": 0, "bpr": 1, "lmf": 2}[kind]
    m = mf_kinds()[kind](factors=max(1, V.shape[1] - extra), num_threads=threads, dtype=np.dtype(dtype), **kw)
    m.user_factors, m.item_factors = U, V
    return m


def true_scores(U, V):
    return np.asarray(U, dtype=np.float64).dot(np.asarray(V, dtype=np.float64).T)


def cosines(Q, V):
    Q, V = np.asarray(Q, dtype=np.float64), np.asarray(V, dtype=np.float64)
    qn, vn = np.linalg.norm(Q, axis=1), np.linalg.norm(V, axis=1)
    qn[qn == 0] = 1
    vn[vn == 0] = 1
    return (Q / qn[:, None]).dot((V / vn[:, None]).T)


def check_topn(what, ids, scores, true, eligible, N, tol=1e-5, sent=SENT, exact_count=True, floor=1.0):
    """ids/scores must be the N best of the eligible entries of `true` (a 1-d float64 array).

    eligible: boolean mask or None.  Entries at or below `sent` are unfilled slots: they must come
    last and say nothing.  Returns the list of filled ids.
    """
    ids, scores = np.asarray(ids), np.asarray(scores)
    n = len(true)
    if ids.ndim != 1 or scores.shape != ids.shape:
        fail("%s: shapes %s %s", what, ids.shape, scores.shape)
    if len(ids) > N:
        fail("%s: %d results for N=%d", what, len(ids), N)
    idl, sl = ids.tolist(), scores.tolist()
    k = len(sl)
    filled = 0
    prev = None
    seen = set()
    for j in range(k):
        s = sl[j]
        if s != s:
            fail("%s: NaN score for id %s: ids=%s scores=%s", what, idl[j], idl, sl)
        if s < sent:
            continue
        if filled != j:
            fail("%s: result after an unfilled slot: ids=%s scores=%s", what, idl, sl)
        i = idl[j]
        if i != int(i) or not 0 <= i < n:
            fail("%s: id %r out of range: ids=%s scores=%s", what, i, idl, sl)
        i = int(i)
        if i in seen:
            fail("%s: duplicate id %d: ids=%s scores=%s", what, i, idl, sl)
        seen.add(i)
        if eligible is not None and not eligible[i]:
            fail("%s: excluded id %d returned: ids=%s scores=%s", what, i, idl, sl)
        t = float(true[i])
        if abs(s - t) > tol * (floor + abs(t)):
            fail("%s: score of id %d is %r, should be %r: ids=%s scores=%s", what, i, s, t, idl, sl)
        if prev is not None and s > prev + tol * 0.01 * (floor + abs(prev)):
            fail("%s: scores not sorted: ids=%s scores=%s", what, idl, sl)
        prev = s
        filled += 1
    if exact_count:
        left = [i for i in range(n) if (eligible is None or eligible[i]) and i not in seen]
        want = min(N, len(left) + filled)
        if filled != want:
            fail("%s: %d results, should be %d (N=%d): ids=%s scores=%s", what, filled, want, N, idl, sl)
        if left and filled:
            best = max(float(true[i]) for i in left)
            worst = min(float(true[i]) for i in seen)
            if best > worst + tol * (floor + abs(best)):
                i = max(left, key=lambda x: true[x])
                fail("%s: id %d (score %r) left out: ids=%s scores=%s", what, i, best, idl, sl)
    return idl[:filled]


def same_rows(what, ids_a, sc_a, ids_b, sc_b, tol=1e-6, sent=SENT):
    """Two result rows agree: same filled scores; same ids except among (near) ties."""
    def filled(ids, sc):
        ids, sc = np.asarray(ids).tolist(), np.asarray(sc).tolist()
        return [(i, s) for i, s in zip(ids, sc) if not s < sent]
    a, b = filled(ids_a, sc_a), filled(ids_b, sc_b)
    if len(a) != len(b):
        fail("%s: different number of results: %s / %s", what, a, b)
    for (i, s), (j, t) in zip(a, b):
        if not abs(s - t) <= tol * (1 + abs(t)):
            fail("%s: scores differ: %s / %s", what, a, b)
    # ids inside a group of equal scores may be ordered differently; the last group may be cut
    k = 0
    while k < len(a):
        e = k + 1
        while e < len(a) and abs(a[e][1] - a[k][1]) <= 4 * tol * (1 + abs(a[k][1])):
            e += 1
        if e < len(a) and sorted(i for i, _ in a[k:e]) != sorted(i for i, _ in b[k:e]):
            fail("%s: ids differ: %s / %s", what, a, b)
        k = e


def det_ints(n, seed, lo, hi):
    """deterministic integers in [lo, hi] (a fixed LCG, not a random choice)"""
    xs = np.zeros(max(n, 1), dtype=np.uint64)
    xs[0] = (1664525 * ((seed * 2654435761 + 12345) & 0xFFFFFFFF) + 1013904223) & 0xFFFFFFFF
    A, C, k = 1664525, 1013904223, 1                      # x[i + k] = A x[i] + C
    while k < n:
        e = min(n, 2 * k)
        xs[k:e] = (np.uint64(A) * xs[:e - k] + np.uint64(C)) & np.uint64(0xFFFFFFFF)
        A, C, k = A * A & 0xFFFFFFFF, (A * C + C) & 0xFFFFFFFF, 2 * k
    return (lo + (xs[:n] >> np.uint64(8)).astype(np.int64) % (hi - lo + 1)).astype(np.int64)


def det_matrix(rows, cols, seed, lo=-3, hi=3):
    return det_ints(rows * cols, seed, lo, hi).reshape(rows, cols)


def powerset(xs):
    xs = list(xs)
    return itertools.chain.from_iterable(itertools.combinations(xs, r) for r in range(len(xs) + 1))


# ---------------------------------------------------------------- ALS reference

def normal_eq(Y, row, reg, alpha=1.0):
    """A, b of the regularized normal equations for one user; row: dict item -> confidence"""
    Y = np.asarray(Y, dtype=np.float64)
    f = Y.shape[1]
    A = Y.T.dot(Y) + reg * np.eye(f)
    b = np.zeros(f)
    for i, c in row.items():
        c = alpha * c
        if c > 0:
            b += c * Y[i]
        else:
            c = -c
        A += (c - 1) * np.outer(Y[i], Y[i])
    return A, b


def als_solve(Y, row, reg, alpha=1.0):
    if not row:
        return np.zeros(np.asarray(Y).shape[1])
    A, b = normal_eq(Y, row, reg, alpha)
    return np.linalg.solve(A, b)


def cg_solve(Y, row, x, reg, steps, alpha=1.0):
    """the textbook conjugate gradient iteration started from x"""
    x = np.array(x, dtype=np.float64)
    if not row:
        return np.zeros_like(x)
    A, b = normal_eq(Y, row, reg, alpha)
    r = b - A.dot(x)
    p = r.copy()
    rs = r.dot(r)
    for _ in range(steps):
        if rs < 1e-20:
            break
        Ap = A.dot(p)
        a = rs / p.dot(Ap)
        x = x + a * p
        r = r - a * Ap
        rn = r.dot(r)
        p = r + (rn / rs) * p
        rs = rn
    return x


def rows_of(m, binary=False):
    """dict rows of a sparse/dense matrix"""
    m = sp.csr_matrix(m)
    return [{int(i): float(v) for i, v in zip(m.indices[m.indptr[u]:m.indptr[u + 1]],
                                              m.data[m.indptr[u]:m.indptr[u + 1]])}
            for u in range(m.shape[0])]


def als_loss(C, X, Y, reg, alpha=1.0):
    X, Y = np.asarray(X, dtype=np.float64), np.asarray(Y, dtype=np.float64)
    D = np.asarray(sp.csr_matrix(C).todense(), dtype=np.float64) * alpha
    conf = np.where(D == 0, 1.0, np.abs(D))
    pref = (D > 0).astype(np.float64)
    err = (conf * (pref - X.dot(Y.T)) ** 2).sum()
    return (err + reg * ((X ** 2).sum() + (Y ** 2).sum())) / conf.sum()


def close(a, b, tol):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# ---------------------------------------------------------------- item-item reference

def knn_weight(kind, D, K1=1.2, B=0.75):
    """weighted users x items matrix for a dense users x items count matrix"""
    D = np.asarray(D, dtype=np.float64)
    users, items = D.shape
    W = D.copy()
    present = D != 0
    if kind == "raw":
        return W
    if kind == "cosine":
        pass
    elif kind in ("tfidf", "bm25"):
        df = present.sum(axis=1)                      # items per user
        idf = np.log(float(items)) - np.log1p(df)
        if kind == "tfidf":
            W = np.sqrt(D) * idf[:, None]
        else:
            lens = D.sum(axis=0)
            ln = (1.0 - B) + B * lens / lens.mean()
            with np.errstate(all="ignore"):
                W = np.where(present, D * (K1 + 1.0) / (K1 * ln[None, :] + D) * idf[:, None], 0.0)
            return W
    n = np.sqrt((W ** 2).sum(axis=0))
    n[n == 0] = 1.0
    return W / n[None, :]


def knn_kinds():
    from implicit.nearest_neighbours import (BM25Recommender, CosineRecommender,
                                             ItemItemRecommender, TFIDFRecommender)
    return {"raw": ItemItemRecommender, "cosine": CosineRecommender, "tfidf": TFIDFRecommender,
            "bm25": BM25Recommender}


def scratch():
    d = os.path.join(os.environ["VP_SCRATCH"], "w" + os.environ.get("VP_WORKER", "0"))
    os.makedirs(d, exist_ok=True)
    return d
