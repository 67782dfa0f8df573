"""Parallel training and batch queries do not depend on the thread schedule."""
import numpy as np
import scipy.sparse as sp

from ..core import fail
from ..lib import det_ints, det_matrix

META = dict(
    technique="stateless model checking of the real native code under a controlled scheduler (own OpenMP runtime, every memory access "
              "instrumented): all assignments of loop chunks to threads and all interleavings at conflicting accesses, locks and GIL hand-overs up to "
              "a preemption bound; every execution's result compared with the single threaded one",
    variant="sched",
    bounds={"quick": "ALS (CG, Cholesky, loss, float32/64, fit and batched recalculation), the 4 item-item models, LMF, batched recommend/similar "
                     "on inputs of 2-3 chunks; 1-3 threads; decisions varied in one parallel region at a time (regions are separated by joins); preemption "
                     "bound 2 for 2 threads, 1 for 3 threads (0 for batched queries on 3 threads); singular rows in every chunk position must raise under every schedule; at most "
                     "6000 schedules per region",
            "thorough": "4-5 chunks for 2 threads, preemption bound 3 (2 for 3 threads), at most 60000 schedules per region"},
    assumptions=["sequentially consistent interleavings; a BLAS call is one step", "BPR is lock free by design and not part of the property",
                 "regions are explored one at a time: when every schedule of each region gives the same state, so does every combination"],
)


def cases(tier):
    deep = tier == "thorough"
    for T in (2, 3):
        bound = (3 if deep else 2) if T == 2 else (2 if deep else 1)
        lim = 60000 if deep else 6000
        base = dict(T=T, bound=bound, limit=lim, sec=600 if deep else 40)
        for dt in ("float32", "float64"):
            for cg in (0, 1):
                small = T == 3 and not deep
                yield dict(base, t="als", dt=dt, cg=cg, users=14 if small else 20, items=9 if small else 17, loss=1)
                yield dict(base, t="als", dt=dt, cg=cg, users=9, items=24, loss=0)
            for side in ("user", "item"):
                yield dict(base, t="recalc", dt=dt, side=side, rows=19)
            yield dict(base, t="lmf", dt=dt)
        for kind in ("raw", "cosine", "tfidf", "bm25"):
            yield dict(base, t="knn", kind=kind, users=12, items=17 if T == 2 else 10, K=[3, 50, 1, 4][len(kind) % 4])
        for q in ("recommend", "filter", "items", "similar_items", "similar_users"):
            for dt in ("float32", "float64"):
                b = bound if T == 2 or deep else 0
                yield dict(base, t="topk", q=q, dt=dt, rows=250 if T == 2 else 210, bound=b)
        for bad in ([0], [7], [8], [16], [19], [0, 19], [3, 12], [2, 5], [9, 17], [1, 8, 18]):
            for dt in ("float32", "float64"):
                yield dict(base, t="error", bad=bad, dt=dt, bound=1 if T == 2 else 0)
        yield dict(base, t="knn", kind="raw", users=3, items=9, K=2)
        if deep:
            if T == 2:
                for cg in (0, 1):
                    yield dict(base, t="als", dt="float64", cg=cg, users=40, items=33, loss=1)
                yield dict(base, t="knn", kind="cosine", users=15, items=33, K=4, bound=2)
                yield dict(base, t="topk", q="recommend", dt="float32", rows=450)
            for bad in [[i] for i in range(20)] + [[i, j] for i in range(0, 20, 3) for j in range(i + 1, 20, 2)]:
                yield dict(base, t="error", bad=bad, dt="float64", bound=1)


def data(users, items, seed=1):
    D = (det_ints(users * items, seed, 0, 4) == 0) * det_ints(users * items, seed + 1, 1, 3)
    D = D.reshape(users, items).astype(np.float64)
    D[5 % users] = 0                        # a user without interactions
    D[:, 3 % items] = 0
    return D


def scenario(c):
    """returns run(threads) -> list of arrays"""
    t = c["t"]
    if t == "als":
        from implicit.cpu.als import AlternatingLeastSquares
        D = data(c["users"], c["items"])
        D[2 % len(D)] *= -1
        C = sp.csr_matrix(D.astype(np.float32))
        U = det_matrix(c["users"], 3, 7, 1, 5) / 8.0
        V = det_matrix(c["items"], 3, 8, 1, 5) / 8.0

        def run(T):
            m = AlternatingLeastSquares(factors=3, regularization=0.1, use_cg=bool(c["cg"]), iterations=1, dtype=np.dtype(c["dt"]),
                                        num_threads=T, calculate_training_loss=bool(c["loss"]))
            m.user_factors, m.item_factors = U.astype(c["dt"]), V.astype(c["dt"])
            losses = []
            m.fit(C, show_progress=False, callback=lambda i, s, loss: losses.append(loss))
            return [m.user_factors, m.item_factors] + ([np.array(losses, dtype=float)] if c["loss"] else [])
        return run
    if t in ("recalc", "error"):
        from implicit.cpu.als import AlternatingLeastSquares
        side = c.get("side", "user")
        rows = c.get("rows", 20)
        F = det_matrix(6, 2, 8, 1, 5) / 8.0
        D = data(rows, 6, 3)
        if t == "error":
            # one item per factor
            F = np.array([[1.0, 0], [0, 0], [0, 0], [0, 0], [0, 0], [0, 1.0]])
            D = np.zeros((rows, 6))
            D[:, 0] = 2
            D[:, 5] = 3
        C = sp.csr_matrix(D.astype(np.float32))
        if t == "error":
            # a confidence of (nearly) zero removes the contribution of the only item with this factor
            for r in c["bad"]:
                C.data[C.indptr[r] + 1] = 1e-20

        def run(T):
            m = AlternatingLeastSquares(factors=2, regularization=0.0 if t == "error" else 0.1, dtype=np.dtype(c["dt"]), num_threads=T)
            m.user_factors = m.item_factors = F.astype(c["dt"])
            ids = np.arange(rows)
            return [m.recalculate_user(ids, C) if side == "user" else m.recalculate_item(ids, C)]
        return run
    if t == "knn":
        from ..lib import knn_kinds
        D = data(c["users"], c["items"], 5)
        D[:, 1] = 1
        C = sp.csr_matrix(D)

        def run(T):
            m = knn_kinds()[c["kind"]](K=c["K"], num_threads=T)
            m.fit(C, show_progress=False)
            return [canonical(m.similarity)]
        return run
    if t == "lmf":
        from implicit.cpu.lmf import LogisticMatrixFactorization
        C = sp.csr_matrix(data(7, 8, 2).astype(np.float32))

        def run(T):
            m = LogisticMatrixFactorization(factors=2, iterations=1, neg_prop=2, num_threads=T, random_state=5, dtype=np.dtype(c["dt"]))
            m.fit(C, show_progress=False)
            return [m.user_factors, m.item_factors]
        return run
    if t == "topk":
        from ..lib import make_mf
        n, items = c["rows"], 7
        U, V = det_matrix(n, 3, 4) + 0.5, det_matrix(items, 3, 9) * np.array([1, 10, 100.0])
        C = sp.csr_matrix(data(n, items, 6).astype(np.float32))

        def run(T):
            if c["q"] in ("similar_items", "similar_users"):
                m = make_mf("als", U[:21], U[5:26], c["dt"], T)
                call = m.similar_users if c["q"] == "similar_users" else m.similar_items
                ids, sc = call(np.arange(n) * 5 % 21, 3)
                return [sc]
            m = make_mf("als", U, V, c["dt"], T)
            kw = {"recommend": {}, "filter": dict(filter_items=[0, 2]), "items": dict(items=[1, 2, 3, 5])}[c["q"]]
            ids, sc = m.recommend(np.arange(n), C, N=3, **kw)
            return [ids, sc]
        return run
    raise ValueError(t)


def canonical(S):
    """rows of a similarity matrix as sorted values (which of equal similarities is kept is unspecified)"""
    S = S.tocsr()
    n = S.shape[0]
    out = np.zeros((n, 60))
    for i in range(n):
        v = np.sort(S.data[S.indptr[i]:S.indptr[i + 1]])[::-1]
        out[i, :len(v)] = v
    return out


def same(a, b, tol=2e-6):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        d = np.abs(x.astype(np.float64) - y.astype(np.float64))
        if not np.all((d <= tol * (1 + np.abs(y.astype(np.float64)))) | (x == y)):
            return False
    return True


def setup(tier, seed):
    from .. import sched
    sched.install()
    sched.LIB.vp_default_threads(2)


def outcome(run, T):
    try:
        return ("ok", run(T))
    except ValueError as e:
        return ("error", str(e)[:60])


def run_case(c, ctx):
    from .. import sched
    T = c["T"]
    run = scenario(c)
    base = outcome(run, 1)
    if c["t"] == "error":
        if base[0] != "error":
            fail("singular rows %s: no exception on one thread", c["bad"])
    elif base[0] != "ok":
        fail("%s: %s", c["t"], base[1])
    if c["t"] == "lmf":                      # depends on the number of threads by definition
        base = sched.Run(lambda: outcome(run, T), [], 0, -1).out
    focus, regions = 0, 1
    stats = {}
    while focus < regions:
        for r in sched.explore(lambda: outcome(run, T), c["bound"], focus, c["limit"], stats, ctx.late, c["sec"]):
            regions = max(regions, r.regions)
            ctx.step(len(r.chosen) + 1)
            ctx.trace()
            ctx.state(c["t"], repr(sorted(c.items(), key=str)), focus, r.key())
            if base[0] != r.out[0]:
                fail("%s with %d threads, region %d, schedule %s: %s instead of %s", c["t"], T, focus, r.show(), r.out[0] if r.out[0] == "ok" else r.out,
                     base[0] if base[0] == "ok" else base)
            if base[0] == "ok" and not same(r.out[1], base[1]):
                k = next(i for i in range(len(base[1])) if not same([r.out[1][i]], [base[1][i]]))
                x, y = np.asarray(r.out[1][k], dtype=float), np.asarray(base[1][k], dtype=float)
                if x.shape == y.shape:
                    bad = np.argwhere(~(np.abs(x - y) <= 2e-6 * (1 + np.abs(y))))[0]
                    x, y = "[%s]=%r" % (bad.tolist(), x[tuple(bad)]), repr(y[tuple(bad)])
                fail("%s with %d threads: under the schedule %s of parallel region %d result %d differs from the single threaded one: %s / %s",
                     c["t"], T, r.show(), focus, k, x, y)
        focus += 1
    for k, v in stats.items():
        ctx.count(k, v)
    ctx.count("parallel_regions", regions)
    ctx.sample(dict(case=c, schedules=stats.get("schedules")))
