"""recommend() is an exact top-N by inner product."""
import itertools
import warnings

import numpy as np

from ..lib import SENT, check_topn, csr, det_matrix, fail, make_mf, mf_kinds, true_scores

META = dict(
    technique="explicit-state enumeration of model states (factor lattices, score sequences, size/thread "
              "grid) with every recommend() transition executed on the real code against a brute-force top-N",
    bounds={
        "quick": "all item factor matrices: n<=4 items x 2 factors over {-1,0,2}, n<=5 x 1 over {-2,0,1,3}; all "
                 "score sequences of length <=8 over {-1,0,1}; all N in 1..n+2; all users over the lattice; "
                 "float32/64; scalar and batch; factors of magnitude 1e-15..1e15 with near ties, 2..129 factors; grid of sizes: users 1..2001, items 1..5000, threads 0..4",
        "thorough": "n<=5 items x 2 factors over {-1,0,2}, n<=6 x 1 over {-2,0,1,3}; score sequences of length "
                    "<=10 over {-1,0,1}; the same size grid with every kind and precision"},
    assumptions=["numpy/BLAS matrix products are correct", "factor values outside the lattice behave alike"],
)
SEQ = [-1, 0, 1]
BLK = 81


def cases(tier):
    lat = [(1, 1, [-2, 0, 1, 3]), (2, 1, [-2, 0, 1, 3]), (3, 1, [-2, 0, 1, 3]), (4, 1, [-2, 0, 1, 3]),
           (1, 2, [-1, 0, 2]), (2, 2, [-1, 0, 2]), (3, 2, [-1, 0, 2]), (5, 1, [-2, 0, 1, 3]), (4, 2, [-1, 0, 2])]
    if tier == "thorough":
        lat += [(6, 1, [-2, 0, 1, 3]), (5, 2, [-1, 0, 2])]
    for kind in ("als", "bpr", "lmf"):
        for f4 in (True, False):
            for n, f, vals in lat:
                if kind != "als" and n * f > 4:
                    continue
                total = len(vals) ** (n * f)
                for s in range(0, total, BLK):
                    yield dict(t="lat", kind=kind, dt="float32" if f4 else "float64", n=n, f=f, vals=vals,
                               lo=s, hi=min(total, s + BLK))
    for L in range(1, 9 if tier == "quick" else 11):
        total = 3 ** L
        for s in range(0, total, 243):
            yield dict(t="seq", L=L, lo=s, hi=min(total, s + 243), dt="float32" if L % 2 else "float64")
    users = [1, 2, 3, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 128, 199, 200, 201, 256, 299, 300, 301,
             401, 499, 501, 512, 799, 801, 1000, 1001, 2001]
    items = [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513,
             1000, 1023, 1024, 1025, 2049, 5000]
    for k, (u, n) in enumerate(itertools.product(users, items)):
        for r in range(6 if tier == "thorough" else 1):
            yield dict(t="size", u=u, n=n, f=[1, 3, 8, 16, 17][k % 5], dt=["float32", "float64"][(k + r) % 2],
                       kind=["als", "bpr", "lmf"][(k + r // 2) % 3], threads=[0, 1, 2, 3, 4][(k // 3) % 5])
    for kind in ("als", "bpr", "lmf"):
        for dt in ("float32", "float64"):
            for thr in (1, 3):
                yield dict(t="fit", kind=kind, dt=dt, threads=thr)
    for kind in ("als", "bpr", "lmf"):
        yield dict(t="recalc", kind=kind)
    k = 0
    for su, sv in itertools.product((1e-15, 1e-8, 1e-3, 1.0, 1e3, 1e8, 1e15), repeat=2):
        for dt in ("float32", "float64"):
            for n, f in ((5, 2), (12, 7), (60, 33), (101, 129)):
                k += 1
                yield dict(t="scale", kind=("als", "bpr", "lmf")[k % 3], dt=dt, su=su, sv=sv, n=n, f=f, threads=k % 3)


def nth(vals, k, L):
    out = []
    for _ in range(L):
        out.append(vals[k % len(vals)])
        k //= len(vals)
    return out


def ask(model, U, V, N, ctx, what, rows=None, scalar=False, tol=1e-6, floor=1.0, sent=SENT):
    T = true_scores(U, V)
    if scalar:
        for u in (range(len(U)) if rows is None else rows):
            ids, sc = model.recommend(u, None, N=N, filter_already_liked_items=False)
            ctx.step()
            check_topn("%s recommend(%d, N=%d)" % (what, u, N), ids, sc, T[u], None, N, tol, sent, floor=floor)
    else:
        sel = np.arange(len(U)) if rows is None else np.array(rows)
        ids, sc = model.recommend(sel, None, N=N, filter_already_liked_items=False)
        ctx.step()
        if len(ids) != len(sel):
            fail("%s: %d rows for %d users", what, len(ids), len(sel))
        for r, u in enumerate(sel):
            check_topn("%s recommend(batch row %d user %d, N=%d)" % (what, r, u, N), ids[r], sc[r], T[u], None, N, tol, sent, floor=floor)
        ctx.outcome(np.asarray(ids).tobytes(), N)
    ctx.trace()


def all_users(m, U, V, N, off, ctx):
    """recommend_all: ids only, for the users starting at an offset"""
    T = true_scores(U, V)
    rows = csr(np.zeros((len(U) - off, len(V))))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ids = m.recommend_all(rows, N=N, users_items_offset=off)
    ctx.step()
    if len(ids) != len(U) - off:
        fail("recommend_all: %d rows for %d users", len(ids), len(U) - off)
    for r in range(len(ids)):
        t = T[r + off]
        k = min(N, len(V))
        check_topn("recommend_all(N=%d, offset %d) row %d" % (N, off, r), ids[r][:k], t[ids[r][:k]], t, None, N, 1e-6)


def run_case(c, ctx):
    t = c["t"]
    if t == "lat":
        n, f = c["n"], c["f"]
        U = np.array(list(itertools.product(c["vals"], repeat=f)), dtype=float)
        for k in range(c["lo"], c["hi"]):
            V = np.array(nth(c["vals"], k, n * f), dtype=float).reshape(n, f)
            m = make_mf(c["kind"], U, V, c["dt"])
            ctx.state(c["kind"], c["dt"], n, f, k)
            for N in range(0 if k % 4 == 0 else 1, n + 3):
                ask(m, U, V, N, ctx, "items=%s" % V.tolist())
            N = k % (n + 2)
            ask(m, U, V, N, ctx, "items=%s" % V.tolist(), scalar=True, rows=range(k % 2, len(U), 2))
            all_users(m, U, V, N, k % len(U), ctx)
            ctx.sample(dict(item_factors=V, users=len(U), N="0..%d" % (n + 2)))
    elif t == "seq":
        U = np.array([[1.0], [-1.0], [0.0]])
        for k in range(c["lo"], c["hi"]):
            V = np.array(nth(SEQ, k, c["L"]), dtype=float).reshape(-1, 1)
            m = make_mf("als", U, V, c["dt"])
            ctx.state("seq", c["L"], k)
            for N in range(1, c["L"] + 2):
                ask(m, U, V, N, ctx, "scores=%s" % V.ravel().tolist())
    elif t == "size":
        U = det_matrix(c["u"], c["f"], c["u"] * 7 + c["n"])
        V = det_matrix(c["n"], c["f"], c["n"] * 13 + c["f"])
        m = make_mf(c["kind"], U, V, c["dt"], c["threads"])
        ctx.state("size", c["u"], c["n"], c["f"])
        for N in sorted({1, 2, 10, c["n"] - 1, c["n"], c["n"] + 1} - {0}):
            if N * c["u"] > 60000:
                continue
            ask(m, U, V, N, ctx, "%s users x %s items, %s threads" % (c["u"], c["n"], c["threads"]))
    elif t == "scale":
        # factors that aren't exactly representable, of any magnitude, with near ties
        n, f = c["n"], c["f"]
        U = (np.sin(det_matrix(n + 3, f, n * 7 + f) + 0.3) * c["su"]).astype(c["dt"])
        V = (np.sin(det_matrix(n, f, n * 13 + f) + 0.1) * c["sv"]).astype(c["dt"])
        V[1::3] = V[0::3][:len(V[1::3])] * np.dtype(c["dt"]).type(1 + (1e-9 if c["dt"] == "float64" else 3e-4))
        m = make_mf(c["kind"], U, V, c["dt"], c["threads"])
        ctx.state("scale", c["su"], c["sv"], c["dt"], n, f)
        tol = (1e-13 if c["dt"] == "float64" else 1e-6) * (3 + f ** 0.5)
        for N in sorted({1, 3, 10, n}):
            for scalar in (False, True):
                ask(m, U, V, N, ctx, "%s factors of size %g and %g" % (c["dt"], c["su"], c["sv"]), scalar=scalar, tol=tol, floor=c["su"] * c["sv"] * f ** 0.5,
                    sent=-3e38)
    elif t == "fit":
        m = mf_kinds()[c["kind"]](factors=3, iterations=3, num_threads=c["threads"], dtype=np.dtype(c["dt"]),
                                  random_state=3)
        D = (det_matrix(130, 9, 5, 0, 5) > 3) * 2.0
        D[3] = 0
        m.fit(csr(D), show_progress=False)
        ctx.state("fit", c["kind"], c["dt"])
        for N in (0, 1, 5, 9, 12):
            ask(m, m.user_factors, m.item_factors, N, ctx, "fitted " + c["kind"], tol=1e-5)
            ask(m, m.user_factors, m.item_factors, N, ctx, "fitted " + c["kind"], scalar=True, rows=range(0, 130, 13), tol=1e-5)
    else:
        # recalculated users: the scores are those of the recalculated factor (ALS), or refused
        m = mf_kinds()[c["kind"]](factors=2, iterations=2, num_threads=1, random_state=1)
        D = np.array([[1, 0, 2, 0, 0], [0, 3, 0, 1, 0], [0, 0, 0, 0, 0], [1, 1, 1, 0, 0]], dtype=float)
        m.fit(csr(D), show_progress=False)
        for row in itertools.product([0, 1, 4], repeat=3):
            r = csr([list(row) + [0, 1]])
            try:
                f = m.recalculate_user(0, r)
            except NotImplementedError:
                try:
                    m.recommend(0, r, recalculate_user=True)
                except NotImplementedError:
                    continue
                fail("%s: recalculate_user accepted in recommend only", c["kind"])
            for N in (1, 3, 6):
                ids, sc = m.recommend(0, r, N=N, recalculate_user=True, filter_already_liked_items=False)
                ctx.step()
                check_topn("recalculated %s" % (row,), ids, sc, true_scores([f], m.item_factors)[0], None, N, 1e-5)
                ids, sc = m.recommend([0, 7], csr([list(row) + [0, 1], [1, 0, 0, 0, 0]]), N=N, recalculate_user=True,
                                      filter_already_liked_items=False)
                check_topn("recalculated batch %s" % (row,), ids[0], sc[0], true_scores([f], m.item_factors)[0], None, N, 1e-5)
            ctx.state("recalc", row)
            ctx.trace()
