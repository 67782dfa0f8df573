"""ALS direct solves satisfy the regularized normal equations."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..core import short
from ..lib import det_matrix, fail, mf_kinds
from .c01 import nth

META = dict(
    technique="exhaustive enumeration of interaction rows over a confidence alphabet (all rows of a bounded length at once) x "
              "factor lattices x solver configurations; every produced vector is checked against float64 normal equations",
    bounds={"quick": "all interaction rows of length 3 over {missing,1,0.5,2,7,-1,-0.5,-4} for every 3x2 factor matrix over "
                     "{-1,0,1} and 3x1 over {-2,0,1,3}, rows of length 4 over {missing,1,3,-2}; alpha {1,0.5,3,40}, reg {0.01,1,10}, "
                     "float32/64, threads {0,1,2,3}, native and Python; up to 3 alternations; recalculate/partial_fit of both "
                     "sides; factors up to 200, up to 2050 users",
            "thorough": "every 3x2 factor matrix over {-1,0,1,2}, all alpha x reg x precision x thread combinations"},
    assumptions=["agreement is judged by the backward error of each solution at the working precision"],
)
ALPHA = [1.0, 0.5, 3.0, 40.0]
REG = [0.01, 1.0, 10.0]
A8 = [0, 1, 0.5, 2, 7, -1, -0.5, -4]


def all_rows(n, vals):
    return np.array(list(itertools.product(vals, repeat=n)), dtype=float)


R3 = all_rows(3, A8)
R4 = all_rows(4, [0, 1, 3, -2])


def cases(tier):
    k = 0
    for n, f, vals, rows in ((3, 2, [-1, 0, 1] if tier == "quick" else [-1, 0, 1, 2], "R3"), (3, 1, [-2, 0, 1, 3], "R3"),
                             (4, 1, [-1, 0, 2], "R4")):
        total = len(vals) ** (n * f)
        for s in range(0, total, 27):
            cfgs = list(itertools.product(ALPHA, REG, ("float32", "float64"), (0, 1, 2, 3)))
            if tier == "quick":
                cfgs = [cfgs[(k * 5 + j * 7) % len(cfgs)] for j in range(8)]
            for a, r, dt, thr in cfgs:
                yield dict(t="lat", n=n, f=f, vals=vals, lo=s, hi=min(total, s + 27), rows=rows, alpha=a, reg=r, dt=dt, thr=thr,
                           native=True)
            k += 1
    for a, r, dt in itertools.product(ALPHA, REG, ("float32", "float64")):
        yield dict(t="lat", n=3, f=2, vals=[-1, 0, 1], lo=300, hi=306, rows="R3", alpha=a, reg=r, dt=dt, thr=1, native=False)
        yield dict(t="iter", alpha=a, reg=r, dt=dt, native=True)
        yield dict(t="iter", alpha=a, reg=r, dt=dt, native=False)
    for f in (1, 2, 3, 5, 8, 16, 17, 33, 64, 65, 100, 128, 129, 200):
        for dt in ("float32", "float64"):
            for thr in (1, 3):
                yield dict(t="wide", f=f, dt=dt, thr=thr)
    for u in (1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 100, 129, 257, 1025, 2050):
        for thr in (0, 1, 2, 4):
            yield dict(t="long", u=u, thr=thr)
    for f in (1, 2, 3):
        for dt in ("float32", "float64"):
            for native in (True, False):
                yield dict(t="sing", f=f, dt=dt, native=native)


def batch_eq(Y, D, reg, alpha):
    """A [rows,f,f], b [rows,f] for all interaction rows of the dense matrix D"""
    Y = np.asarray(Y, dtype=np.float64)
    D = np.asarray(D, dtype=np.float64) * alpha
    f = Y.shape[1]
    w = np.where(D != 0, np.abs(D) - 1, 0.0)
    A = Y.T.dot(Y)[None] + reg * np.eye(f)[None] + np.einsum("ui,if,ig->ufg", w, Y, Y)
    b = np.where(D > 0, D, 0.0).dot(Y)
    return A, b


def check_solution(what, X, Y, D, reg, alpha, dt, empty_zero=True):
    X = np.asarray(X, dtype=np.float64)
    if X.shape != (len(D), np.asarray(Y).shape[1]):
        fail("%s: factors have shape %s", what, X.shape)
    if not np.isfinite(X).all():
        fail("%s: non-finite factors", what)
    A, b = batch_eq(Y, D, reg, alpha)
    D = np.asarray(D)
    empty = (D == 0).all(axis=1)
    if empty_zero and np.any(X[empty]):
        fail("%s: row without interactions is not zero: %s", what, X[empty][0])
    r = np.linalg.norm(np.einsum("ufg,ug->uf", A, X) - b, axis=1)
    eps = 1.2e-7 if dt == "float32" else 1e-10     # input confidences are single precision
    Yn = np.asarray(Y, dtype=np.float64)
    mass = (np.abs(D) * abs(alpha) + 1).dot((Yn ** 2).sum(axis=1)) + reg   # bounds the sums that were rounded
    bmass = np.where(D > 0, D * abs(alpha), 0.0).dot(np.linalg.norm(Yn, axis=1))
    bound = 30 * eps * Yn.shape[1] * (mass * np.linalg.norm(X, axis=1) + bmass + mass * 1e-6)
    bad = np.flatnonzero(r > bound)
    if len(bad):
        u = bad[0]
        try:
            want = np.linalg.solve(A[u], b[u])
        except np.linalg.LinAlgError:
            want = "singular"
        fail("%s: row %s -> %s, the minimiser is %s (residual %.3g > %.3g; Y=%s)", what, short(D[u], 200), X[u].tolist(), want,
             r[u], bound[u], short(Y, 300))


def model(f, alpha, reg, dt, thr, native=True, iters=1):
    return mf_kinds()["als"](factors=f, regularization=reg, alpha=alpha, dtype=np.dtype(dt), use_native=native, use_cg=False,
                             iterations=iters, num_threads=thr, random_state=1)


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample({k: v for k, v in c.items()})


def do_lat(c, ctx):
    D = R3 if c["rows"] == "R3" else R4
    n, f, dt = c["n"], c["f"], c["dt"]
    C = sp.csr_matrix(D.astype(np.float32))
    for k in range(c["lo"], c["hi"]):
        Y = np.array(nth(c["vals"], k, n * f), dtype=dt).reshape(n, f)
        w = "alpha=%g reg=%g %s threads=%d native=%s" % (c["alpha"], c["reg"], dt, c["thr"], c["native"])
        m = model(f, c["alpha"], c["reg"], dt, c["thr"], c["native"])
        ctx.state(n, f, k, c["alpha"], c["reg"], dt, c["thr"], c["native"])
        m.item_factors = Y.copy()
        m.user_factors = det_matrix(len(D), f, k).astype(dt)
        m.fit(C, show_progress=False)
        check_solution("fit users " + w, m.user_factors, Y, D, c["reg"], c["alpha"], dt)
        check_solution("fit items " + w, m.item_factors, m.user_factors, D.T, c["reg"], c["alpha"], dt)
        ctx.step(2)
        ctx.trace(len(D) + n)
        if k % 3 == 0 and c["native"]:
            # the other orientation: many items, few users
            m = model(f, c["alpha"], c["reg"], dt, c["thr"])
            m.item_factors = det_matrix(len(D), f, k + 7).astype(dt)
            Y0 = m.item_factors.copy()
            m.user_factors = Y.copy()
            m.fit(C.T.tocsr(), show_progress=False)
            check_solution("fit users (transposed) " + w, m.user_factors, Y0, D.T, c["reg"], c["alpha"], dt)
            check_solution("fit items (transposed) " + w, m.item_factors, m.user_factors, D, c["reg"], c["alpha"], dt)
            ctx.step(2)
        # recalculation and partial fits against fixed factors
        m = model(f, c["alpha"], c["reg"], dt, c["thr"], c["native"])
        m.item_factors, m.user_factors = Y.copy(), Y.copy() + 1
        X = m.recalculate_user(np.arange(len(D)), C)
        check_solution("recalculate_user " + w, X, Y, D, c["reg"], c["alpha"], dt)
        X = m.recalculate_item(np.arange(len(D)), C)
        check_solution("recalculate_item " + w, X, Y + 1, D, c["reg"], c["alpha"], dt)
        j = (k * 37) % len(D)
        check_solution("recalculate_user(single) " + w, m.recalculate_user(5, C[j])[None], Y, D[j:j + 1], c["reg"], c["alpha"], dt)
        check_solution("recalculate_item(single) " + w, m.recalculate_item(5, C[j])[None], Y + 1, D[j:j + 1], c["reg"],
                       c["alpha"], dt)
        sel = np.arange(k % 5, len(D), 5)
        m.partial_fit_users(sel, C[sel])
        check_solution("partial_fit_users " + w, m.user_factors[sel], Y, D[sel], c["reg"], c["alpha"], dt)
        m = model(f, c["alpha"], c["reg"], dt, c["thr"], c["native"])
        m.item_factors, m.user_factors = Y.copy(), Y.copy() + 1
        m.partial_fit_items(sel, C[sel])
        check_solution("partial_fit_items " + w, m.item_factors[sel], Y + 1, D[sel], c["reg"], c["alpha"], dt)
        ctx.step(6)
        ctx.trace(2 * len(D) + 2 * len(sel))


def do_iter(c, ctx):
    for seed in range(3):
        D = np.array([0, 1, 0.5, 4, -2, 0, 0])[det_matrix(9, 6, seed, 0, 6)]
        D[4] = 0
        D[:, 2] = 0
        m = model(2, c["alpha"], c["reg"], c["dt"], 2, c["native"], 3)
        m.user_factors = (det_matrix(9, 2, seed + 1) / 2).astype(c["dt"])
        m.item_factors = (det_matrix(6, 2, seed + 2) / 2).astype(c["dt"])
        hist = [(m.user_factors.copy(), m.item_factors.copy())]
        m.fit(sp.csr_matrix(D), show_progress=False,
              callback=lambda i, t, loss: hist.append((m.user_factors.copy(), m.item_factors.copy())))
        if len(hist) != 4:
            fail("callback ran %d times for 3 iterations", len(hist) - 1)
        for i in range(1, 4):
            w = "iteration %d alpha=%g reg=%g %s native=%s" % (i, c["alpha"], c["reg"], c["dt"], c["native"])
            check_solution(w + " users", hist[i][0], hist[i - 1][1], D, c["reg"], c["alpha"], c["dt"], c["native"])
            check_solution(w + " items", hist[i][1], hist[i][0], D.T, c["reg"], c["alpha"], c["dt"], c["native"])
            ctx.step(2)
        if not (np.array_equal(hist[3][0], m.user_factors) and np.array_equal(hist[3][1], m.item_factors)):
            fail("factors changed after the last iteration")
        ctx.state("iter", seed, c["alpha"], c["reg"], c["dt"], c["native"])
        ctx.trace()


def do_wide(c, ctx):
    f, dt = c["f"], c["dt"]
    D = np.array([0, 1, 0.5, 4, -2, 0, 0])[det_matrix(21, 19, f, 0, 6)]
    D[3] = 0
    m = model(f, 2.0, 0.5, dt, c["thr"])
    m.user_factors = (det_matrix(21, f, 1) / 4).astype(dt)
    m.item_factors = (det_matrix(19, f, 2) / 4).astype(dt)
    Y = m.item_factors.copy()
    C = sp.csr_matrix(D)
    m.fit(C, show_progress=False)
    check_solution("%d factors users" % f, m.user_factors, Y, D, 0.5, 2.0, dt)
    check_solution("%d factors items" % f, m.item_factors, m.user_factors, D.T, 0.5, 2.0, dt)
    check_solution("%d factors recalculated" % f, m.recalculate_user(np.arange(21), C), m.item_factors, D, 0.5, 2.0, dt)
    ctx.state("wide", f, dt)
    ctx.step(3)
    ctx.trace()


def do_long(c, ctx):
    u = c["u"]
    D = np.array([0, 1, 0.5, 4, -2, 0, 0])[det_matrix(u, 5, u, 0, 6)]
    for dt in ("float32", "float64"):
        m = model(3, 1.0, 0.1, dt, c["thr"])
        m.item_factors = det_matrix(5, 3, 2).astype(dt)
        m.user_factors = det_matrix(u, 3, 4).astype(dt)
        Y = m.item_factors.copy()
        m.fit(sp.csr_matrix(D), show_progress=False)
        check_solution("%d users" % u, m.user_factors, Y, D, 0.1, 1.0, dt)
        check_solution("%d users (items)" % u, m.item_factors, m.user_factors, D.T, 0.1, 1.0, dt)
        ctx.state("long", u, c["thr"], dt)
        ctx.step(2)
        ctx.trace()


def do_sing(c, ctx):
    """no factors and no regularization: nothing to solve, so an error (never numbers)"""
    f, dt = c["f"], c["dt"]
    for row in itertools.product([0, 1, 3, -2], repeat=2):
        m = model(f, 1.0, 0.0, dt, 1, c["native"])
        m.item_factors = np.zeros((2, f), dtype=dt)
        m.user_factors = np.ones((1, f), dtype=dt)
        D = np.array([row], dtype=float)
        if not any(row):
            continue
        for name, call in (("fit", lambda: m.fit(sp.csr_matrix(D), show_progress=False)),
                           ("recalculate_user", lambda: m.recalculate_user(0, sp.csr_matrix(D)))):
            try:
                got = call()
            except Exception:
                got = "raised"
            if not (isinstance(got, str) and got == "raised"):
                fail("%s returned %s for the singular system of %s", name, got, row)
            ctx.step()
        ctx.state("sing", f, row, dt)
        ctx.trace()
