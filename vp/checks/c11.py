"""Item-item recommend, call after call."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..core import short
from ..lib import SENT, check_topn, det_matrix, fail, knn_kinds, powerset

META = dict(
    technique="exhaustive exploration of call histories on one model (all sequences of queries up to a depth, including failing calls) and of "
              "all user rows over a weight alphabet; each answer compared with the similarity-weighted sum computed for that call alone",
    bounds={"quick": "all user rows of length 4 over {missing,1,2.5,-0.7,0.1} x likes filtered or not x N in {0,1,2,3,5} for 7 count matrices and "
                     "4 models; all sequences of length 3 over 12 queries (single, batch, filters, candidates, negative weights, empty rows, "
                     "failing calls) with K in {1,2,20}; all ordered pairs of liked sets of 5 items; float32/float64/int weights",
            "thorough": "all sequences of length 4"},
    assumptions=["items whose weighted sum is (nearly) zero may be listed or not"],
)
NI = 5
MATS = [det_matrix(6, NI, s, 0, 3) for s in range(4)]
MATS[1][:, 2] = 0
MATS[2][1:4] = 0
MATS.append(np.eye(NI, dtype=int)[:, ::-1] * 2)
MATS.append(np.ones((3, NI), dtype=int))
# with a small K an item isn't always among its own neighbours: 0 -> 1 -> 2, 3 -> 4
MATS.append(np.array([[1, 5, 0, 0, 0], [0, 5, 50, 0, 0], [0, 0, 0, 1, 4], [0, 0, 0, 0, 3]]))
KIND = ("raw", "cosine", "tfidf", "bm25")
ALPH = [0, 1, 2.5, -0.7, 0.1]


def cases(tier):
    for kind in KIND:
        for mat in range(len(MATS)):
            for K in (2, 20):
                yield dict(t="rows", kind=kind, mat=mat, K=K)
        for mat, K in ((0, 20), (1, 20), (2, 20), (6, 1), (6, 2)) + (((0, 1), (1, 2), (6, 20)) if tier != "quick" else ()):
            n = len(QUERIES)
            for a in range(n):
                if tier == "quick":
                    yield dict(t="seq", kind=kind, mat=mat, K=K, pre=[a], depth=2)
                else:
                    for b in range(n):
                        yield dict(t="seq", kind=kind, mat=mat, K=K, pre=[a, b], depth=2)
    for kind in KIND:
        for mat in range(len(MATS)):
            for K in (1, 2, 20):
                yield dict(t="rowpairs", kind=kind, mat=mat, K=K)
    for kind in KIND:
        for n in (8, 9, 33, 64, 200, 1100, 2100):
            yield dict(t="wide", kind=kind, n=n)


def fitted(kind, mat, K=20):
    m = knn_kinds()[kind](K=K, num_threads=1)
    m.fit(sp.csr_matrix(MATS[mat].astype(float)), show_progress=False)
    return m


def csr_row(vals, dtype=np.float64):
    return sp.csr_matrix(np.array([vals], dtype=dtype))


def expect(what, S, row, liked_out, N, ids, sc, filt=(), items=None, batch=False):
    """S: dense similarity; row: dict id -> weight"""
    n = S.shape[0]
    total = np.zeros(n)
    mass = np.zeros(n)
    reach = np.zeros(n, dtype=bool)
    for i, w in row.items():
        total += w * S[i]
        mass += np.abs(w * S[i])
        reach |= S[i] != 0
    elig = np.ones(n, dtype=bool)
    if items is not None:
        elig[:] = False
        elig[list(items)] = True
    elig[list(filt)] = False
    if liked_out:
        elig[list(row)] = False
    ids, sc = np.asarray(ids), np.asarray(sc)
    if ids.ndim != 1 or ids.shape != sc.shape or len(ids) > N:
        fail("%s: shapes %s %s for N=%d", what, ids.shape, sc.shape, N)
    tol = 1e-9 * (1 + mass) if not batch else 1e-6 * (1 + mass)
    seen = set()
    prev = None
    tail = False
    for i, s in zip(ids.tolist(), sc.tolist()):
        if s != s:
            fail("%s: NaN: %s %s", what, ids.tolist(), sc.tolist())
        if s < SENT:
            tail = True
            if i >= 0 and items is None:
                fail("%s: id %d with a sentinel score", what, i)
            if i >= 0 and (i in seen or not elig[i] and not (liked_out and i in row) or reach[i] and mass[i] > 1e-12 and abs(total[i]) > tol[i] and elig[i]):
                fail("%s: candidate %d has a score of %r but is listed as unreachable: %s %s", what, i, total[i], ids.tolist(), sc.tolist())
            continue
        if tail:
            fail("%s: result after an unfilled slot: %s %s", what, ids.tolist(), sc.tolist())
        if not 0 <= i < n or i in seen:
            fail("%s: id %r: %s", what, i, ids.tolist())
        seen.add(i)
        if not elig[i]:
            fail("%s: excluded id %d: %s", what, i, ids.tolist())
        if abs(s - total[i]) > tol[i]:
            fail("%s: score of %d is %r, the weighted sum is %r: row %s ids %s scores %s", what, i, s, total[i], row, ids.tolist(), sc.tolist())
        if not reach[i]:
            fail("%s: id %d isn't similar to anything the user has: %s", what, i, ids.tolist())
        if prev is not None and s > prev + 1e-12:
            fail("%s: not sorted: %s", what, sc.tolist())
        prev = s
    sure = [i for i in range(n) if elig[i] and reach[i] and abs(total[i]) > 4 * tol[i]]
    left = [i for i in sure if i not in seen]
    if left and len(seen) < N:
        fail("%s: %s left out (scores %s) with %d < N=%d results: row %s ids %s", what, left, total[left], len(seen), N, row, ids.tolist())
    if left and seen:
        best = max(left, key=lambda i: total[i])
        if total[best] > prev + 2 * tol[best]:
            fail("%s: id %d (score %r) left out: row %s ids %s scores %s", what, best, total[best], row, ids.tolist(), sc.tolist())


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def do_rows(c, ctx):
    m = fitted(c["kind"], c["mat"], c["K"])
    S = m.similarity.toarray()
    k = 0
    for vals in itertools.product(ALPH, repeat=4):
        vals = vals[:2] + (0,) + vals[2:]
        row = {i: v for i, v in enumerate(vals) if v}
        for N in (0, 1, 2, 3, 5):
            for out in (True, False):
                k += 1
                dt = (np.float64, np.float32)[k % 2]
                row = {i: float(dt(v)) for i, v in enumerate(vals) if v}
                ids, sc = m.recommend(0, csr_row(vals, dt), N=N, filter_already_liked_items=out)
                expect("%s matrix %d K=%d recommend(N=%d, filter_liked=%s)" % (c["kind"], c["mat"], c["K"], N, out), S, row, out, N, ids, sc)
                ctx.step()
        ctx.state(c["kind"], c["mat"], c["K"], vals)
        ctx.trace()


R = {"a": [1, 0, 0, 2, 0], "b": [0, 3, 0, 0, -1], "c": [0, 0, 0, 0, 0], "d": [1, 1, 1, 1, 1], "e": [0, 0, -2, 0, 0], "f": [0, 0.5, 4, 0, 0]}
QUERIES = [("one", "a", {}), ("one", "b", dict(filter_already_liked_items=False)), ("one", "c", {}), ("one", "d", dict(N=2)),
           ("one", "e", dict(filter_already_liked_items=False, N=5)), ("one", "a", dict(filter_items=[1, 2])),
           ("one", "f", dict(items=[0, 3, 4])), ("batch", "abc", {}), ("batch", "fda", dict(N=1, filter_already_liked_items=False)),
           ("bad", "both", {}), ("bad", "rows", {}), ("sim", "1", {})]


def ask(m, S, q, tag):
    how, rows, kw = q
    kw = dict(kw)
    N = kw.setdefault("N", 3)
    out = kw.get("filter_already_liked_items", True)
    if how == "one":
        v = R[rows]
        ids, sc = m.recommend(1, csr_row(v), **kw)
        expect(tag, S, {i: x for i, x in enumerate(v) if x}, out, N, ids, sc, kw.get("filter_items", ()), kw.get("items"))
    elif how == "batch":
        M = sp.csr_matrix(np.array([R[r] for r in rows], dtype=float))
        ids, sc = m.recommend(np.arange(len(rows)), M, **kw)
        for k, r in enumerate(rows):
            expect(tag + " row %d" % k, S, {i: x for i, x in enumerate(R[r]) if x}, out, N, ids[k], sc[k], batch=True)
    elif how == "sim":
        m.similar_items(1, N=3)
    elif how == "bad":
        try:
            if rows == "both":
                m.recommend(0, csr_row(R["a"]), filter_items=[1], items=[2])
            else:
                m.recommend([0, 1], csr_row(R["d"]))
        except Exception:
            return
        fail("%s: inconsistent call was accepted", tag)


def do_seq(c, ctx):
    for tail in itertools.product(range(len(QUERIES)), repeat=c["depth"]):
        seq = list(c["pre"]) + list(tail)
        m = fitted(c["kind"], c["mat"], c["K"])
        S = m.similarity.toarray()
        for k, q in enumerate(seq):
            ask(m, S, QUERIES[q], "%s matrix %d K=%d, call %d of %s" % (c["kind"], c["mat"], c["K"], k + 1, [QUERIES[x] for x in seq]))
            ctx.step()
        ctx.state("seq", c["kind"], c["mat"], c["K"], seq)
        ctx.trace()


def do_rowpairs(c, ctx):
    """every set of likes after every other one"""
    S = fitted(c["kind"], c["mat"], c["K"]).similarity.toarray()
    rows = [{i: [1.0, -2.0, 0.5, 3.0, 1.5][i] for i in w} for w in powerset(range(NI))]
    mats = [csr_row([r.get(i, 0) for i in range(NI)]) for r in rows]
    for a in range(len(rows)):
        m = fitted(c["kind"], c["mat"], c["K"])
        for b in range(len(rows)):
            for first in (True, False):
                m.recommend(0, mats[a], N=2, filter_already_liked_items=first)
                out = bool((a + b) % 2) != first
                ids, sc = m.recommend(0, mats[b], N=NI, filter_already_liked_items=out)
                expect("%s matrix %d K=%d, recommend(filter_liked=%s) after likes %s (filter_liked=%s)" % (c["kind"], c["mat"], c["K"], out, rows[a], first),
                       S, rows[b], out, NI, ids, sc)
                ctx.step(2)
            ctx.state("pair", c["kind"], c["mat"], c["K"], a, b)
        ctx.trace()


def do_wide(c, ctx):
    n = c["n"]
    D = np.array([0, 0, 1, 0, 2, 0])[det_matrix(40, n, n, 0, 5)].astype(float)
    m = knn_kinds()[c["kind"]](K=7, num_threads=2)
    m.fit(sp.csr_matrix(D), show_progress=False)
    S = m.similarity.toarray()
    if n > 1000:
        D[0] = 1
        D[1, ::2] = 0.3
        D[2, 1::2] = -0.3
    for u in range(40 if n < 1000 else 3):
        row = {int(i): D[u, i] for i in np.flatnonzero(D[u])}
        for N in (1, 10, n):
            for out in (True, False):
                ids, sc = m.recommend(u, sp.csr_matrix(D[u:u + 1]), N=N, filter_already_liked_items=out)
                expect("%s %d items user %d N=%d" % (c["kind"], n, u, N), S, row, out, N, ids, sc)
                for kw in (dict(items=list(range(n - 1, -1, -2))), dict(filter_items=list(range(0, n, 2)))):
                    ids, sc = m.recommend(u, sp.csr_matrix(D[u:u + 1]), N=N, filter_already_liked_items=out, **kw)
                    expect("%s %d items user %d N=%d %s" % (c["kind"], n, u, N, list(kw)), S, row, out, N, ids, sc, kw.get("filter_items", ()), kw.get("items"))
                ctx.step()
    ids, sc = m.recommend(np.arange(40), sp.csr_matrix(D), N=10)
    for u in range(40):
        expect("%s %d items batch" % (c["kind"], n), S, {int(i): D[u, i] for i in np.flatnonzero(D[u])}, True, 10, ids[u], sc[u], batch=True)
    ctx.state("wide", c["kind"], n)
    ctx.trace(40)
