"""Excluded items are never recommended; filtering does nothing else."""
import itertools
import warnings

import numpy as np

from ..lib import (SENT, SENT_SIM, check_topn, cosines, csr, det_matrix, fail, knn_kinds, likes_csr, make_mf,
                   powerset, true_scores)

META = dict(
    technique="exhaustive enumeration of (liked set x filter set | candidate set x N x call shape) states for "
              "every model kind, each query executed on the real code against the set-theoretic reference",
    bounds={"quick": "catalogue of 4-5 items: all liked subsets x all filter subsets, all liked subsets x all candidate "
                     "subsets, N in {1,2,n,n+1}, list/array arguments, scalar and batch, ALS/BPR/LMF in both precisions, 4 "
                     "item-item models, Annoy/NMSLib/Faiss wrappers; batches of up to 230 users with per-user likes; catalogues of up to 2100 items with filter, candidate and liked lists up to all of them",
            "thorough": "catalogue of 6 items for matrix factorization, all N"},
    assumptions=["an interaction row stores no explicit zeros or duplicates"],
)
UV = [[1.0, 0.0], [-1.0, 1.0], [0.0, 2.0]]
ITEMS = [[3, 1], [1, 1], [-2, 0], [3, 1], [0, -1], [2, 2]]


def cases(tier):
    n = 5 if tier == "quick" else 6
    for kind, dt in itertools.product(("als", "bpr", "lmf"), ("float32", "float64")):
        for liked in powerset(range(n)):
            yield dict(t="mf", kind=kind, dt=dt, n=n, liked=list(liked), tier=tier)
        for own in range(n):
            yield dict(t="sim", kind=kind, dt=dt, n=n, q=own)
    for kind in ("raw", "cosine", "tfidf", "bm25"):
        for mat in range(6):
            for liked in powerset(range(5)):
                yield dict(t="knn", kind=kind, mat=mat, liked=list(liked))
            yield dict(t="knnsim", kind=kind, mat=mat)
    for lib in ("annoy", "nmslib", "faiss"):
        for approx in (True, False):
            for liked in powerset(range(5)):
                yield dict(t="ann", lib=lib, approx=approx, liked=list(liked))
    for kind in ("als", "bpr", "lmf", "cosine"):
        for u in (7, 100, 101, 130, 200, 201, 230):
            for thr in (1, 3):
                yield dict(t="big", kind=kind, u=u, threads=thr)
    for kind in ("als", "bpr", "lmf"):
        for n in (8, 16, 33, 64, 65, 100, 129, 256, 300, 1100, 2100):
            yield dict(t="wide", kind=kind, n=n)
    for kind in ("raw", "cosine", "tfidf", "bm25"):
        for n in (64, 300, 1100, 2100):
            yield dict(t="knnwide", kind=kind, n=n)
    for kind in ("als", "bpr", "lmf", "annoy", "nmslib", "faiss"):
        for n in (65, 300, 600, 1100):
            yield dict(t="simwide", kind=kind, n=n)


def elig(n, liked=(), filt=(), items=None):
    e = np.ones(n, dtype=bool)
    if items is not None:
        e[:] = False
        e[list(items)] = True
    e[list(liked)] = False
    e[list(filt)] = False
    return e


def both_refused(what, f):
    try:
        f()
    except Exception:  # any refusal will do
        return
    fail("%s: candidate list together with a filter list was accepted", what)


def forms(xs):
    """list and array forms of an id list; alternates so that both are covered over the enumeration"""
    xs = list(xs)
    if not xs:
        return [xs]
    return [xs, np.array(xs[::-1])] if len(xs) % 2 else [xs[::-1], np.array(xs, dtype=np.int32)]


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def do_mf(c, ctx):
    n, liked = c["n"], c["liked"]
    V, U = np.array(ITEMS[:n], dtype=float), np.array(UV)
    m = make_mf(c["kind"], U, V, c["dt"])
    T = true_scores(U, V)
    vals = np.array([1.0, -2.0, 0.5, 3.0, 1.0, 7.0])[:n]
    row = likes_csr(n, [liked])
    row.data[:] = vals[liked]
    u = len(liked) % 3
    Ns = (1, 2, n, n + 1) if c["tier"] == "quick" else range(1, n + 2)
    # other rows of the batch have other likes
    other = [sorted(set(range(n)) - set(liked)), liked, liked[:1]]
    brow = likes_csr(n, other)
    bu = np.array([2, u, 0])
    for filt in powerset(range(n)):
        ctx.state(c["kind"], c["dt"], liked, "filter", filt)
        for N in Ns:
            for f in forms(filt):
                for own in (True, False):
                    w = "liked=%s filter_items=%s own=%s N=%d" % (liked, f, own, N)
                    ids, sc = m.recommend(u, row, N=N, filter_items=f, filter_already_liked_items=own)
                    ctx.step()
                    check_topn(w, ids, sc, T[u], elig(n, liked if own else (), filt), N)
            ids, sc = m.recommend(bu, brow, N=N, filter_items=f)
            for r in range(3):
                check_topn("batch row %d %s" % (r, w), ids[r], sc[r], T[bu[r]], elig(n, other[r], filt), N)
            ctx.outcome(np.asarray(ids).tobytes(), np.asarray(sc).tobytes())
            ctx.trace(4)
        if len(filt) == 2:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ids = m.recommend_all(brow, N=2, filter_items=list(filt))
            for r in range(3):
                e = elig(n, other[r], filt)
                k = min(2, e.sum())
                check_topn("recommend_all %s" % (filt,), ids[r][:k], T[r][ids[r][:k]], T[r], e, 2)
    for items in powerset(range(n)):
        if not items:
            continue
        ctx.state(c["kind"], c["dt"], liked, "items", items)
        for N in Ns:
            for f in forms(items):
                for own in (True, False):
                    w = "liked=%s items=%s own=%s N=%d" % (liked, f, own, N)
                    ids, sc = m.recommend(u, row, N=N, items=f, filter_already_liked_items=own)
                    ctx.step()
                    check_topn(w, ids, sc, T[u], elig(n, liked if own else (), (), items), N)
            ids, sc = m.recommend(bu, brow, N=N, items=f)
            for r in range(3):
                check_topn("batch row %d %s" % (r, w), ids[r], sc[r], T[bu[r]], elig(n, other[r], (), items), N)
            ctx.trace(4)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ids, sc = m.rank_items(u, row, list(items))
        check_topn("rank_items %s" % (items,), ids, sc, T[u], elig(n, (), (), items), len(items))
        both_refused("recommend", lambda: m.recommend(u, row, items=list(items), filter_items=[0]))
        both_refused("recommend", lambda: m.recommend(u, row, items=np.array(items), filter_items=np.array([0])))
        both_refused("recommend", lambda: m.recommend(u, row, items=np.array(items), filter_items=np.array([1, 2])))
        ids, sc = m.recommend(u, row, N=2, items=list(items), filter_items=[])
        check_topn("empty filter + items", ids, sc, T[u], elig(n, liked, (), items), 2)


def do_sim(c, ctx):
    n, q = c["n"], c["q"]
    V = np.array(ITEMS[:n], dtype=float)
    m = make_mf(c["kind"], V, V, c["dt"])
    C = cosines(V, V)
    for name, call in (("items", lambda i, N, f, s: m.similar_items(i, N, filter_items=f, items=s)),
                       ("users", lambda i, N, f, s: m.similar_users(i, N, filter_users=f, users=s))):
        for sub in powerset(range(n)):
            ctx.state(c["kind"], c["dt"], name, q, sub)
            for N in (1, 2, n, n + 1):
                for f in forms(sub):
                    for mode in ("filter", "select"):
                        if mode == "select" and not sub:
                            continue
                        w = "similar_%s(%d, N=%d) %s=%s" % (name, q, N, mode, f)
                        a = (f, None) if mode == "filter" else (None, f)
                        e = elig(n, (), sub) if mode == "filter" else elig(n, (), (), sub)
                        ids, sc = call(q, N, *a)
                        check_topn(w, ids, sc, C[q], e, N, 1e-5, SENT_SIM)
                        ids, sc = call(np.array([q, (q + 1) % n]), N, *a)
                        for r in range(2):
                            check_topn("batch " + w, ids[r], sc[r], C[(q + r) % n], e, N, 1e-5, SENT_SIM)
                        ctx.step(2)
                        ctx.trace()
            if sub:
                both_refused("similar_" + name, lambda: call(q, 2, [0], list(sub)))
                both_refused("similar_" + name, lambda: call(q, 2, np.array([0]), np.array(sub)))


KMATS = [
    [[1, 1, 0, 0, 0], [0, 1, 1, 0, 0], [0, 0, 1, 1, 0], [0, 0, 0, 1, 1]],
    [[2, 0, 1, 0, 3], [0, 1, 0, 0, 1], [1, 1, 1, 0, 0], [0, 0, 2, 0, 1]],
    [[1, 1, 1, 1, 1], [1, 0, 0, 0, 0], [0, 2, 0, 0, 0], [0, 0, 0, 5, 1]],
    [[1, 0, 0, 0, 0], [0, 1, 0, 0, 0], [0, 0, 1, 0, 0], [0, 0, 0, 0, 0]],
    [[3, 1, 0, 0, 2], [1, 4, 0, 0, 0], [0, 0, 1, 2, 0], [0, 0, 2, 1, 0]],
    [[1, -1, 0, 2, 0], [0, 2, -1, 0, 1], [1, 0, 1, -1, 0], [0, 0, 0, 1, -2]],
]


def knn_model(kind, mat, K):
    D = np.array(KMATS[mat], dtype=float)
    if kind == "tfidf":
        D = np.abs(D)
    m = knn_kinds()[kind](K=K, num_threads=1)
    m.fit(csr(D, dtype=np.float64), show_progress=False)
    return m, np.asarray(m.similarity.todense())


def do_knn(c, ctx):
    liked, n = c["liked"], 5
    for K in ((2, 5)[(c["mat"] + len(liked)) % 2],):
        m, S = knn_model(c["kind"], c["mat"], K)
        w8 = np.array([1.0, 2.0, 1.0, -1.0, 0.5])
        row = likes_csr(n, [liked], np.float64)
        row.data[:] = w8[liked]
        stored = (S != 0)
        T = np.zeros(n)
        reach = np.zeros(n, dtype=bool)
        for i in liked:
            T += w8[i] * S[i]
            reach |= stored[i]
        b = likes_csr(n, [liked, [], liked[:1]], np.float64)
        b.data[:len(liked)] = w8[liked]
        for mode in ("filter", "items"):
            for sub in powerset(range(n)):
                if mode == "items" and not sub:
                    continue
                ctx.state(c["kind"], c["mat"], K, liked, mode, sub)
                for N in (1, 3, 6):
                    for own in (True, False):
                        for f in forms(sub):
                            kw = {"filter_items" if mode == "filter" else "items": f}
                            w = "liked=%s own=%s N=%d %s" % (liked, own, N, kw)
                            e = elig(n, liked if own else (), sub if mode == "filter" else (),
                                     sub if mode == "items" else None) & reach
                            ids, sc = m.recommend(0, row, N=N, filter_already_liked_items=own, **kw)
                            # an item reached only through exact cancellation may or may not be listed
                            check_topn(w, ids, sc, T, e | (zero_ok(S, liked, T) & elig(
                                n, liked if own else (), sub if mode == "filter" else (), sub if mode == "items" else None)),
                                N, 1e-6, SENT, exact_count=False)
                            count(w, ids, sc, e, T, N)
                            ctx.step()
                        ids2, sc2 = m.recommend(np.array([0, 1, 2]), b, N=N, filter_already_liked_items=own, **kw)
                        check_topn("batch " + w, ids2[0], sc2[0], T, e | (zero_ok(S, liked, T) & elig(
                            n, liked if own else (), sub if mode == "filter" else (), sub if mode == "items" else None)),
                            N, 1e-5, SENT, exact_count=False)
                        for s in sc2[1]:
                            if s >= SENT:
                                fail("batch %s: a user without interactions got %s %s", w, ids2[1], sc2[1])
                        ctx.trace(2)
                if mode == "items":
                    both_refused("knn recommend", lambda: m.recommend(0, row, items=list(sub), filter_items=[0]))


def zero_ok(S, liked, T):
    return np.abs(T) < 1e-12


def count(w, ids, sc, e, T, N):
    """every reachable eligible item with a non-zero score must be listed, best first, up to N"""
    filled = [int(i) for i, s in zip(ids, sc) if s >= SENT]
    must = [i for i in range(len(T)) if e[i] and abs(T[i]) > 1e-12]
    left = [i for i in must if i not in filled]
    if left and len(filled) < N:
        fail("%s: item %d dropped: ids=%s scores=%s", w, left[0], ids, sc)
    if left and filled and max(T[i] for i in left) > min(T[i] for i in filled) + 1e-6:
        fail("%s: better item left out: ids=%s scores=%s", w, ids, sc)


def do_knnsim(c, ctx):
    n = 5
    for K in (2, 5):
        m, S = knn_model(c["kind"], c["mat"], K)
        for q in range(n):
            for mode in ("filter_items", "items"):
                for sub in powerset(range(n)):
                    if mode == "items" and not sub:
                        continue
                    ctx.state(c["kind"], c["mat"], K, q, mode, sub)
                    for N in (1, 3, 6):
                        for f in forms(sub):
                            e = (S[q] != 0) & (elig(n, (), sub) if mode == "filter_items" else elig(n, (), (), sub))
                            w = "similar_items(%d,N=%d,%s=%s)" % (q, N, mode, f)
                            ids, sc = m.similar_items(q, N, **{mode: f})
                            check_topn(w, ids, sc, S[q], e, N, 1e-6, SENT)
                            ids, sc = m.similar_items([q, q], N, **{mode: f})
                            for r in range(2):
                                check_topn("batch " + w, ids[r], sc[r], S[q], e, N, 1e-5, SENT)
                            ctx.step(2)
                            ctx.trace()
            both_refused("knn similar", lambda: m.similar_items(q, items=[0, 1], filter_items=[2]))


def ann_model(lib, approx, V, U):
    import contextlib
    import io

    class Fixed:
        """a matrix factorization model whose fit keeps the given factors"""
    base = make_mf("als", U, V, "float32")
    base.iterations = 0
    D = csr(np.ones((len(U), len(V))))
    if lib == "annoy":
        from implicit.ann.annoy import AnnoyModel
        m = AnnoyModel(base, approximate_similar_items=approx, approximate_recommend=approx)
    elif lib == "nmslib":
        from implicit.ann.nmslib import NMSLibModel
        m = NMSLibModel(base, approximate_similar_items=approx, approximate_recommend=approx)
    else:
        from implicit.ann.faiss import FaissModel
        m = FaissModel(base, approximate_similar_items=approx, approximate_recommend=approx, nlist=1, nprobe=1)
    m.fit(D, show_progress=False)
    return m


ANNCACHE = {}


def do_ann(c, ctx):
    n, liked = 5, c["liked"]
    V, U = np.array(ITEMS[:n], dtype=float), np.array(UV)
    key = (c["lib"], c["approx"])
    if key not in ANNCACHE:
        ANNCACHE[key] = ann_model(c["lib"], c["approx"], V, U)
    m = ANNCACHE[key]
    T, C = true_scores(U, V), cosines(V, V)
    row = likes_csr(n, [liked])
    brow = likes_csr(n, [liked, sorted(set(range(n)) - set(liked))])
    for filt in powerset(range(n)):
        ctx.state(c["lib"], c["approx"], liked, filt)
        for N in (1, 2, 5):
            for f in forms(filt):
                for own in (True, False):
                    u = (len(filt) + N) % 3
                    w = "%s liked=%s filter_items=%s own=%s N=%d" % (c["lib"], liked, f, own, N)
                    e = elig(n, liked if own else (), filt)
                    ids, sc = m.recommend(u, row, N=N, filter_items=f, filter_already_liked_items=own)
                    check_topn(w, ids, sc, T[u], e, N, 1e-3, SENT, exact_count=False)
                    ids, sc = m.recommend(np.array([u, 0]), brow, N=N, filter_items=f, filter_already_liked_items=own)
                    check_topn("batch " + w, ids[0], sc[0], T[u], e, N, 1e-3, SENT, exact_count=False)
                    e2 = elig(n, set(range(n)) - set(liked) if own else (), filt)
                    check_topn("batch row 1 " + w, ids[1], sc[1], T[0], e2, N, 1e-3, SENT, exact_count=False)
                    ctx.step(2)
                w = "%s similar_items filter_items=%s N=%d" % (c["lib"], f, N)
                q = (len(liked) + N) % n
                ids, sc = m.similar_items(q, N, filter_items=f)
                check_topn(w, ids, sc, C[q], elig(n, (), filt), N, 1e-3, SENT_SIM, exact_count=False)
                ids, sc = m.similar_items(np.array([q, 0]), N, filter_items=f)
                check_topn("batch " + w, ids[0], sc[0], C[q], elig(n, (), filt), N, 1e-3, SENT_SIM, exact_count=False)
                check_topn("batch " + w, ids[1], sc[1], C[0], elig(n, (), filt), N, 1e-3, SENT_SIM, exact_count=False)
                ctx.step(2)
                ctx.trace()
    both_refused("ann recommend", lambda: m.recommend(0, row, items=[1, 2], filter_items=[0]))
    both_refused("ann similar_items", lambda: m.similar_items(0, items=[1, 2], filter_items=[0]))


def subsets(n):
    return [[0], [n - 1], list(range(n // 2)), list(range(n // 2, n)), list(range(n - 1, 0, -1)), list(range(0, n, 3)), list(range(n))]


def do_knnwide(c, ctx):
    n = c["n"]
    D = np.array([0, 0, 1, 0, 2, 0, 0, 3])[det_matrix(40, n, n, 0, 7)].astype(float)
    m = knn_kinds()[c["kind"]](K=5, num_threads=2)
    m.fit(csr(D, dtype=np.float64), show_progress=False)
    S = m.similarity.toarray()
    likes = [np.flatnonzero(D[5]), np.arange(n), np.arange(0, n, 2), np.arange(n - n // 3, n), np.array([n - 1]), np.array([0])]
    for li, liked in enumerate(likes + [np.arange(1, n, 2), np.arange(n // 4, n)]):
        row = likes_csr(n, [liked.tolist()], np.float64)
        row.data[:] = (1 + np.arange(len(liked)) % 3) * (1 if li < len(likes) else -1)
        T = np.asarray(row.dot(m.similarity).todense())[0]
        reach = (S[liked] != 0).any(axis=0)
        for sub in [None] + subsets(n):
            for mode in ("filter_items", "items") if sub else ("filter_items",):
                for own in (True, False):
                    e0 = elig(n, liked.tolist() if own else (), (sub or ()) if mode == "filter_items" else (), sub if mode == "items" else None)
                    for N in (3, n):
                        w = "%s %d items, %d liked, %d %s, own=%s N=%d" % (c["kind"], n, len(liked), len(sub or ()), mode, own, N)
                        ids, sc = m.recommend(0, row, N=N, filter_already_liked_items=own, **({mode: sub} if sub else {}))
                        check_topn(w, ids, sc, T, e0 & (reach | (np.abs(T) < 1e-12)), N, 1e-6, SENT, exact_count=False)
                        count(w, ids, sc, e0 & reach, T, N)
                        ctx.step()
                ctx.trace()
            ctx.state("knnwide", c["kind"], n, len(liked), sub and len(sub))
    for q in (0, n // 2, n - 1):
        for sub in subsets(n):
            for mode in ("filter_items", "items"):
                e = (S[q] != 0) & (elig(n, (), sub) if mode == "filter_items" else elig(n, (), (), sub))
                for N in (2, n):
                    ids, sc = m.similar_items(q, N, **{mode: sub})
                    check_topn("%s %d items similar_items(%d, N=%d) %d %s" % (c["kind"], n, q, N, len(sub), mode), ids, sc, S[q], e, N, 1e-6, SENT)
                    ctx.step()


def do_simwide(c, ctx):
    n, kind = c["n"], c["kind"]
    ann = kind in ("annoy", "nmslib", "faiss")
    V, U = det_matrix(n, 6, n) + 0.25, det_matrix(n // 2, 6, n + 1) + 0.125
    m = ann_model(kind, True, V, U) if ann else make_mf(kind, U, V, "float32", 2)
    C, CU, T = cosines(V, V), cosines(U, U), true_scores(U, V)
    qs = np.array([0, n // 2, n - 1])
    for sub in subsets(n):
        for N in (3, 40):
            e = elig(n, (), sub)
            w = "%s similar_items N=%d, %d of %d filtered" % (kind, N, len(sub), n)
            ids, sc = m.similar_items(qs, N, filter_items=sub)
            for r, q in enumerate(qs):
                check_topn(w, ids[r], sc[r], C[q], e, N, 1e-3 if ann else 1e-5, SENT_SIM, exact_count=not ann)
            ids, sc = m.similar_items(int(qs[1]), N, filter_items=sub)
            check_topn(w, ids, sc, C[qs[1]], e, N, 1e-3 if ann else 1e-5, SENT_SIM, exact_count=not ann)
            ctx.step(2)
            liked = [list(range(n // 3)), list(range(0, n, 2))]
            rows = likes_csr(n, liked)
            ids, sc = m.recommend(np.array([1, 4]), rows, N=N, filter_items=sub)
            for r, u in enumerate((1, 4)):
                check_topn("%s recommend N=%d, %d of %d filtered" % (kind, N, len(sub), n), ids[r], sc[r], T[u], elig(n, liked[r], sub), N,
                           1e-3 if ann else 1e-5, SENT, exact_count=not ann)
            ids, sc = m.recommend(4, rows[1], N=N, filter_items=sub)
            check_topn("%s recommend N=%d, %d of %d filtered" % (kind, N, len(sub), n), ids, sc, T[4], elig(n, liked[1], sub), N,
                       1e-3 if ann else 1e-5, SENT, exact_count=not ann)
            ctx.step(2)
            if not ann:
                ids, sc = m.similar_items(qs, N, items=sub)
                for r, q in enumerate(qs):
                    check_topn("%s similar_items N=%d, %d of %d candidates" % (kind, N, len(sub), n), ids[r], sc[r], C[q], elig(n, (), (), sub), N,
                               1e-5, SENT_SIM)
                us = [i for i in sub if i < n // 2]
                ids, sc = m.similar_users(0, N, filter_users=us)
                check_topn("%s similar_users N=%d, %d filtered" % (kind, N, len(us)), ids, sc, CU[0], elig(n // 2, (), us), N, 1e-5, SENT_SIM)
                ctx.step(2)
        ctx.state("simwide", kind, n, len(sub))
        ctx.trace()


def do_big(c, ctx):
    n, u = 12, c["u"]
    L = det_matrix(u, n, u, 0, 1)
    liked = [np.flatnonzero(L[i] if i % 7 else L[i] * 0).tolist() for i in range(u)]
    rows = likes_csr(n, liked, np.float64)
    ids_in = np.arange(u)[::-1].copy()
    if c["kind"] == "cosine":
        m = knn_kinds()["cosine"](K=12, num_threads=c["threads"])
        m.fit(rows, show_progress=False)
        T = np.asarray((rows.dot(m.similarity)).todense())
    else:
        U, V = det_matrix(u, 3, 2), det_matrix(n, 3, 4)
        m = make_mf(c["kind"], U, V, "float32", c["threads"])
        T = true_scores(U, V)
    for N in (1, 5, n):
        for kw, ex in (({}, ()), ({"filter_items": [0, 3, 11]}, (0, 3, 11))):
            ids, sc = m.recommend(ids_in, rows[ids_in], N=N, **kw)
            for r, i in enumerate(ids_in):
                e = elig(n, liked[i], ex)
                check_topn("batch of %d row %d %s" % (u, r, kw), ids[r], sc[r], T[i], e if c["kind"] != "cosine" else e,
                           N, 1e-5, SENT, exact_count=c["kind"] != "cosine")
            ctx.step()
            ctx.trace()
            ctx.state("big", c["kind"], u, N, ex)
        sel = [10, 1, 2, 7, 5]
        ids, sc = m.recommend(ids_in, rows[ids_in], N=N, items=sel)
        for r, i in enumerate(ids_in):
            e = elig(n, liked[i], (), sel)
            check_topn("batch of %d row %d items" % (u, r), ids[r], sc[r], T[i], e, N, 1e-5, SENT,
                       exact_count=c["kind"] != "cosine")


def do_wide(c, ctx):
    n = c["n"]
    U, V = det_matrix(3, 4, n), det_matrix(n, 4, n + 1)
    m = make_mf(c["kind"], U, V, "float32")
    T = true_scores(U, V)
    for liked in ([], [0], [n - 1], [0, n - 1], list(range(0, n, 2)), list(range(1, n)), list(range(n))):
        row = likes_csr(n, [liked])
        for sub in ([0], [n - 1], list(range(n // 2)), list(range(n // 2, n)), list(range(n)), [n // 2, 0, n - 1]):
            for N in (1, n // 2, n, n + 5) if n < 1000 else (3, n):
                for u in range(3) if n < 1000 else (1,):
                    ids, sc = m.recommend(u, row, N=N, filter_items=sub)
                    check_topn("n=%d liked=%s filter=%s" % (n, liked, sub), ids, sc, T[u], elig(n, liked, sub), N)
                    ids, sc = m.recommend(u, row, N=N, items=sub)
                    check_topn("n=%d liked=%s items=%s" % (n, liked, sub), ids, sc, T[u], elig(n, liked, (), sub), N)
                    ctx.step(2)
                    ctx.trace()
            ctx.state("wide", c["kind"], n, liked, sub)
