"""similar_items / similar_users rank by exact cosine similarity."""
import itertools

import numpy as np

from ..lib import SENT_SIM, check_topn, cosines, csr, det_matrix, fail, make_mf, mf_kinds, powerset
from .c01 import nth

META = dict(
    technique="explicit-state enumeration of factor lattices (incl. zero rows) with every similarity query executed "
              "on the real code against brute-force cosines",
    bounds={"quick": "all factor matrices n<=4 x 2 over {-1,0,2}, n<=3 x 1 over {-2,0,1,3}, n<=2 x 3 over {-1,0,1}; all "
                     "queries, N in 0..n+1, float32/64, scalar and batch; magnitudes 1e-15..1e15; every ordered candidate or filter "
                     "list of 4 ids; recalculated items for all rows over {0,1,-2,5}^3; sizes to 1025 rows and 301 queries; threads 0..3",
            "thorough": "n<=5 x 2 over {-1,0,2}"},
    assumptions=["vectors are compared up to rounding at the model's precision"],
)


TOL = {"float32": 1e-5, "float64": 1e-12}


def cases(tier):
    lat = [(1, 1, [-2, 0, 1, 3]), (2, 1, [-2, 0, 1, 3]), (3, 1, [-2, 0, 1, 3]), (1, 2, [-1, 0, 2]), (2, 2, [-1, 0, 2]),
           (3, 2, [-1, 0, 2]), (4, 2, [-1, 0, 2]), (1, 3, [-1, 0, 1]), (2, 3, [-1, 0, 1])]
    if tier == "thorough":
        lat += [(5, 2, [-1, 0, 2])]
    for kind in ("als", "bpr", "lmf"):
        for dt in ("float32", "float64"):
            for n, f, vals in lat:
                if kind != "als" and n * f > 4:
                    continue
                total = len(vals) ** (n * f)
                for s in range(0, total, 81):
                    yield dict(t="lat", kind=kind, dt=dt, n=n, f=f, vals=vals, lo=s, hi=min(total, s + 81))
    for kind in ("als", "bpr", "lmf"):
        for dt in ("float32", "float64"):
            for scale in (1e-15, 1e-11, 1e-8, 1e-6, 1e-4, 1e-2, 1e2, 1e4, 1e8, 1e15):
                yield dict(t="scale", kind=kind, dt=dt, scale=scale)
    n = 5 if tier == "thorough" else 4
    subs = [w for L in range(1, n + 1) for w in itertools.permutations(range(n), L)]
    for kind in ("als", "bpr", "lmf"):
        for dt in ("float32", "float64"):
            for i in range(0, len(subs), 16):
                yield dict(t="cand", kind=kind, dt=dt, n=n, subs=subs[i:i + 16])
    rows = list(itertools.product([0, 1, -2, 5], repeat=3))
    for i in range(0, len(rows), 8):
        for dt in ("float32", "float64"):
            yield dict(t="recalc", rows=rows[i:i + 8], dt=dt)
    sizes = [1, 2, 8, 9, 31, 33, 64, 65, 99, 100, 101, 128, 129, 200, 201, 257, 300, 301, 513, 1025]
    for k, n in enumerate(sizes):
        for thr in (0, 1, 2, 3):
            yield dict(t="size", n=n, threads=thr, kind=["als", "bpr", "lmf"][(k + thr) % 3],
                       dt=["float32", "float64"][k % 2])


def ask(m, V, Q, ids_q, N, ctx, what, which=("items", "users"), scalar=True):
    tol = TOL[str(m.item_factors.dtype)]
    C = cosines(Q, V)
    for name in which:
        call = m.similar_items if name == "items" else m.similar_users
        arr = np.array(ids_q)
        ids, sc = call(arr, N)
        ctx.step()
        if len(ids) != len(arr):
            fail("%s similar_%s: %d rows for %d ids", what, name, len(ids), len(arr))
        for r, q in enumerate(ids_q):
            check_topn("%s similar_%s(batch, id %d, N=%d)" % (what, name, q, N), ids[r], sc[r], C[q], None, N, tol, SENT_SIM)
        ctx.outcome(np.asarray(ids).tobytes(), name)
        if scalar:
            for q in ids_q:
                ids, sc = call(q, N)
                ctx.step()
                check_topn("%s similar_%s(%d, N=%d)" % (what, name, q, N), ids, sc, C[q], None, N, tol, SENT_SIM)
        ctx.trace()


def run_case(c, ctx):
    t = c["t"]
    if t == "lat":
        n, f = c["n"], c["f"]
        for k in range(c["lo"], c["hi"]):
            V = np.array(nth(c["vals"], k, n * f), dtype=float).reshape(n, f)
            U = V[::-1] * 3
            m = make_mf(c["kind"], U, V, c["dt"])
            ctx.state(c["kind"], c["dt"], n, f, k)
            Ns = range(0, n + 2) if n * f <= 6 else (k % (n + 2), n)
            for N in Ns:
                ask(m, V, V, range(n), N, ctx, "items=%s" % V.tolist(), which=("items",), scalar=N in Ns[:2])
                ask(m, U, U, range(n), N, ctx, "users=%s" % U.tolist(), which=("users",), scalar=N in Ns[:2])
            ctx.sample(dict(item_factors=V))
    elif t == "scale":
        V = (np.sin(det_matrix(7, 3, 3) + 0.5) * c["scale"]).astype(c["dt"])
        V[2] = 0
        V[4] = V[0] * 2
        U = (np.sin(det_matrix(6, 3, 9) + 0.25) * c["scale"]).astype(c["dt"])
        m = make_mf(c["kind"], U, V, c["dt"])
        for N in (0, 1, 4, 9):
            ask(m, V, V, range(7), N, ctx, "scale %g" % c["scale"], which=("items",))
            ask(m, U, U, range(6), N, ctx, "scale %g" % c["scale"], which=("users",))
        if c["scale"] <= 1e8:                        # mixed magnitudes
            V2 = V * (10.0 ** np.arange(7)).astype(c["dt"])[:, None]
            m = make_mf(c["kind"], U, V2, c["dt"])
            ask(m, V2, V2, range(7), 7, ctx, "mixed scale", which=("items",))
        ctx.state("scale", c["scale"], c["dt"])
    elif t == "cand":
        n = c["n"]
        V, U = det_matrix(n, 3, 21), det_matrix(n, 3, 34)
        V[2] = 0
        m = make_mf(c["kind"], U, V, c["dt"])
        for name, F, call in (("items", V, m.similar_items), ("users", U, m.similar_users)):
            C = cosines(F, F)
            for sub in c["subs"]:
                for mode in (name, "filter_" + name):
                    e = np.zeros(n, bool)
                    e[list(sub)] = True
                    e = e if mode == name else ~e
                    for N in (0, 1, 2, n, n + 2):
                        what = "similar_%s(%s=%s, N=%d)" % (name, mode, sub, N)
                        for arg in (list(sub), np.array(sub, dtype=np.int32)):
                            bi, bs = call(np.arange(n)[::-1].copy(), N, **{mode: arg})
                            ctx.step()
                            for r, q in enumerate(range(n - 1, -1, -1)):
                                check_topn("%s batch, id %d" % (what, q), bi[r], bs[r], C[q], e, N, TOL[c["dt"]], SENT_SIM)
                        for q in range(n):
                            ids, sc = call(q, N, **{mode: list(sub)})
                            ctx.step()
                            check_topn("%s id %d" % (what, q), ids, sc, C[q], e, N, TOL[c["dt"]], SENT_SIM)
                    ctx.state("cand", name, mode, sub, c["kind"], c["dt"])
                    ctx.trace()
    elif t == "recalc":
        m = mf_kinds()["als"](factors=2, regularization=0.1, iterations=0, num_threads=1, dtype=np.dtype(c["dt"]))
        m.user_factors = np.array([[1, 0], [0, 1], [1, 1]], dtype=c["dt"])
        m.item_factors = np.array([[1, 0], [1, 2], [0, 0], [-1, 1]], dtype=c["dt"])
        fs = []
        for row in c["rows"]:
            r = csr([row])
            f = m.recalculate_item(1, r)
            fs.append(f)
            Cs = cosines([f], m.item_factors)[0]
            for N in (1, 3, 5):
                for sub in powerset(range(4)):
                    for mode in ("filter_items", "items"):
                        if mode == "items" and not sub:
                            continue
                        e = np.zeros(4, bool)
                        e[list(sub)] = True
                        e = e if mode == "items" else ~e
                        ids, sc = m.similar_items(1, N, recalculate_item=True, item_users=r, **{mode: list(sub)})
                        ctx.step()
                        check_topn("recalculated item %s %s=%s" % (row, mode, sub), ids, sc, Cs, e, N, TOL[c["dt"]], SENT_SIM)
            ctx.state("recalc", row, c["dt"])
            ctx.trace()
        b = csr(c["rows"])
        ids, sc = m.similar_items(np.arange(len(c["rows"])) % 4, 3, recalculate_item=True, item_users=b)
        for r in range(len(fs)):
            check_topn("recalculated batch %s" % c["rows"][r], ids[r], sc[r], cosines([fs[r]], m.item_factors)[0], None, 3,
                       TOL[c["dt"]], SENT_SIM)
    else:
        n = c["n"]
        V = det_matrix(n, 5, n)
        V[::11] = 0
        U = det_matrix(n, 5, n + 1)
        m = make_mf(c["kind"], U, V, c["dt"], c["threads"])
        ctx.state("size", n, c["kind"])
        qs = list(range(n))[::-1][:301]
        for N in sorted({1, 10, n, n + 1}):
            if N * len(qs) > 40000:
                continue
            ask(m, V, V, qs, N, ctx, "%d rows" % n, which=("items",), scalar=False)
            ask(m, U, U, qs, N, ctx, "%d rows" % n, which=("users",), scalar=False)
            ask(m, V, V, qs[::37], N, ctx, "%d rows" % n, which=("items",), scalar=True)
        if n > 8:
            CV, CU = cosines(V, V), cosines(U, U)
            for sub in (list(range(n - 1)), list(range(0, n, 2)), list(range(n - 1, n // 2, -1)), list(range(n))):
                for name, C, call in (("items", CV, m.similar_items), ("users", CU, m.similar_users)):
                    for mode in (name, "filter_" + name):
                        e = np.zeros(n, bool)
                        e[sub] = True
                        e = e if mode == name else ~e
                        for N in (1, 20):
                            ids, sc = call(np.array([n - 1, 0, n // 2]), N, **{mode: sub})
                            ctx.step()
                            for r, q in enumerate((n - 1, 0, n // 2)):
                                check_topn("%d rows similar_%s(%d, N=%d) with %d %s" % (n, name, q, N, len(sub), mode), ids[r], sc[r], C[q], e, N,
                                           TOL[c["dt"]], SENT_SIM)
