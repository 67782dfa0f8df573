"""ALS conjugate gradient half-steps."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..core import short
from ..lib import det_matrix, fail, mf_kinds
from .c01 import nth
from .c05 import R3, all_rows, batch_eq

META = dict(
    technique="exhaustive enumeration of interaction rows over a confidence alphabet x factor lattices x starting vectors x CG step "
              "counts; every half-step is compared with a float64 textbook CG model and with the row objective",
    bounds={"quick": "all interaction rows of length 3 over {missing,1,0.5,2,7,-1,-0.5,-4} for every 3x2 factor matrix over "
                     "{-1,0,1}, 3x1 over {-2,0,1,3}, and 3x3 identity-like lattices; cg_steps 0..5; up to 3 alternations; alpha "
                     "{1,3}, reg {0.125,1,8}, float32/64, threads {0,1,2,3}, native and Python; factors up to 129, user counts up to 2050, also  "
                     "around the work chunk size",
            "thorough": "every 3x2 factor matrix over {-1,0,1,2}, all step x alpha x reg x precision x thread combinations"},
    assumptions=["agreement is up to rounding scaled by the condition number of the row's system"],
)
RQ = all_rows(3, [0, 1, 0.5, 7, -2])
STEPS = (0, 1, 2, 3, 4, 5)


def cases(tier):
    k = 0
    cfgs = list(itertools.product(STEPS, (1.0, 3.0), (0.125, 1.0, 8.0), ("float32", "float64"), (0, 1, 2, 3)))
    for n, f, vals in ((3, 2, [-1, 0, 1] if tier == "quick" else [-1, 0, 1, 2]), (3, 1, [-2, 0, 1, 3]), (3, 3, [0, 1])):
        total = len(vals) ** (n * f)
        for s in range(0, total, 27):
            sel = cfgs if tier != "quick" else [cfgs[(k * 11 + j * 19) % len(cfgs)] for j in range(12)]
            for st, a, r, dt, thr in sel:
                yield dict(t="lat", n=n, f=f, vals=vals, lo=s, hi=min(total, s + 27), steps=st, alpha=a, reg=r, dt=dt, thr=thr,
                           rows="Q" if tier == "quick" else "R")
            k += 1
    for st, a, r, dt in itertools.product(STEPS, (1.0, 3.0), (0.125, 1.0), ("float32", "float64")):
        for native in (True, False):
            for f in (1, 2, 3):
                yield dict(t="iter", steps=st, alpha=a, reg=r, dt=dt, native=native, f=f)
    for f in (1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 100, 129):
        for st in (1, 2, 3, 5):
            for dt in ("float32", "float64"):
                yield dict(t="wide", f=f, steps=st, dt=dt)
    for u in (1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 100, 129, 257, 1025, 2050):
        for thr in (0, 1, 2, 4):
            yield dict(t="long", u=u, thr=thr)


def cg_batch(A, b, x0, steps):
    """textbook CG from x0 for a batch of systems"""
    x = np.array(x0, dtype=np.float64)
    r = b - np.einsum("ufg,ug->uf", A, x)
    p = r.copy()
    rs = (r * r).sum(1)
    for _ in range(steps):
        live = rs > 1e-20
        Ap = np.einsum("ufg,ug->uf", A, p)
        pap = (p * Ap).sum(1)
        a = np.where(live, rs / np.where(live, pap, 1.0), 0.0)
        x = x + a[:, None] * p
        r = r - a[:, None] * Ap
        rn = (r * r).sum(1)
        p = r + np.where(live, rn / np.where(live, rs, 1.0), 0.0)[:, None] * p
        rs = np.where(live, rn, 0.0)
    return x


def check_half(what, X0, X1, Y, D, reg, alpha, steps, dt, empty_zero=True):
    X0, X1 = np.asarray(X0, dtype=np.float64), np.asarray(X1, dtype=np.float64)
    D = np.asarray(D, dtype=np.float64)
    Yn = np.asarray(Y, dtype=np.float64)
    if X1.shape != X0.shape:
        fail("%s: shape %s became %s", what, X0.shape, X1.shape)
    if not np.isfinite(X1).all():
        fail("%s: non-finite factors", what)
    empty = (D == 0).all(axis=1)
    if empty_zero and np.any(X1[empty]):
        fail("%s: row without interactions is not zero: %s", what, X1[empty][0])
    A, b = batch_eq(Yn, D, reg, alpha)
    want = cg_batch(A, b, X0, steps)
    if not empty.all():
        ev = np.linalg.eigvalsh(A)
        mass = (np.abs(D) * abs(alpha) + 1).dot((Yn ** 2).sum(axis=1)) + reg
        bmass = np.where(D > 0, D * abs(alpha), 0.0).dot(np.linalg.norm(Yn, axis=1))
        kappa = mass / ev[:, 0]
        eps = 1.2e-7 if dt == "float32" else 1e-14
        f = Yn.shape[1]
        n0, n1 = np.linalg.norm(X0, axis=1), np.linalg.norm(want, axis=1)
        tol = 16 * eps * (1 + steps) * f * kappa * (n0 + n1 + bmass / ev[:, 0] + 1e-6)
        d = np.linalg.norm(X1 - want, axis=1)
        bad = np.flatnonzero(~empty & (d > tol))
        if len(bad):
            u = bad[0]
            fail("%s: row %s from %s -> %s, %d CG steps give %s (off by %.3g, allowed %.3g; Y=%s)", what, short(D[u], 200),
                 X0[u].tolist(), X1[u].tolist(), steps, want[u].tolist(), d[u], tol[u], short(Yn, 300))

        def obj(x):
            return np.einsum("uf,ufg,ug->u", x, A, x) - 2 * (b * x).sum(1)
        o0, o1 = obj(X0), obj(X1)
        nn = n0 + n1 + 16 * eps * bmass / ev[:, 0]
        slack = 16 * eps * (1 + steps) * f * (mass * nn ** 2 + bmass * nn)
        bad = np.flatnonzero(~empty & (o1 > o0 + slack))
        if len(bad):
            u = bad[0]
            fail("%s: objective of row %s rises from %r to %r", what, short(D[u], 200), o0[u], o1[u])


def model(c, thr=1, native=True, iters=1):
    m = mf_kinds()["als"](factors=c["f"], regularization=c["reg"], alpha=c["alpha"], dtype=np.dtype(c["dt"]), use_native=native,
                          use_cg=True, iterations=iters, num_threads=thr, random_state=1)
    m.cg_steps = c["steps"]
    return m


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def do_lat(c, ctx):
    D = RQ if c["rows"] == "Q" else R3
    n, f, dt = c["n"], c["f"], c["dt"]
    C = sp.csr_matrix(D.astype(np.float32))
    CT = C.T.tocsr()
    for k in range(c["lo"], c["hi"]):
        Y = np.array(nth(c["vals"], k, n * f), dtype=dt).reshape(n, f)
        w = "alpha=%g reg=%g %s threads=%d" % (c["alpha"], c["reg"], dt, c["thr"])
        for x0 in (0, 1):
            m = model(c, c["thr"])
            X0 = (det_matrix(len(D), f, k) / 2).astype(dt) * x0
            m.item_factors, m.user_factors = Y.copy(), X0.copy()
            m.fit(C, show_progress=False)
            check_half("users " + w, X0, m.user_factors, Y, D, c["reg"], c["alpha"], c["steps"], dt)
            check_half("items " + w, Y, m.item_factors, m.user_factors, D.T, c["reg"], c["alpha"], c["steps"], dt)
            ctx.state(n, f, k, c["steps"], c["alpha"], c["reg"], dt, c["thr"], x0)
            ctx.step(2)
            ctx.trace(len(D) + n)
        m = model(c, c["thr"])
        I0 = (det_matrix(len(D), f, k + 3) / 2).astype(dt)
        m.item_factors, m.user_factors = I0.copy(), Y.copy()
        m.fit(CT, show_progress=False)
        check_half("users(T) " + w, Y, m.user_factors, I0, D.T, c["reg"], c["alpha"], c["steps"], dt)
        check_half("items(T) " + w, I0, m.item_factors, m.user_factors, D, c["reg"], c["alpha"], c["steps"], dt)
        ctx.step(2)
        ctx.trace(len(D) + n)


def do_iter(c, ctx):
    f = c["f"]
    for seed in range(3):
        D = np.array([0, 1, 0.5, 4, -2, 0, 0])[det_matrix(9, 6, seed, 0, 6)]
        if c["native"]:
            D[4] = 0
            D[:, 2] = 0
        else:       # rows without interactions are the native solver's business
            D[4] = 1
            D[:, 2] = -1
        m = model(c, 2, c["native"], 3)
        m.user_factors = (det_matrix(9, f, seed + 1) / 2).astype(c["dt"])
        m.item_factors = (det_matrix(6, f, seed + 2) / 2).astype(c["dt"])
        hist = [(m.user_factors.copy(), m.item_factors.copy())]
        m.fit(sp.csr_matrix(D), show_progress=False,
              callback=lambda i, t, loss: hist.append((m.user_factors.copy(), m.item_factors.copy())))
        if len(hist) != 4:
            fail("callback ran %d times for 3 iterations", len(hist) - 1)
        for i in range(1, 4):
            w = "iteration %d alpha=%g reg=%g %s native=%s" % (i, c["alpha"], c["reg"], c["dt"], c["native"])
            check_half(w + " users", hist[i - 1][0], hist[i][0], hist[i - 1][1], D, c["reg"], c["alpha"], c["steps"], c["dt"])
            check_half(w + " items", hist[i - 1][1], hist[i][1], hist[i][0], D.T, c["reg"], c["alpha"], c["steps"], c["dt"])
            ctx.step(2)
        ctx.state("iter", seed, c["steps"], c["alpha"], c["reg"], c["dt"], c["native"], f)
        ctx.trace()


def do_wide(c, ctx):
    f, dt = c["f"], c["dt"]
    D = np.array([0, 1, 0.5, 4, -2, 0, 0])[det_matrix(21, 19, f, 0, 6)]
    D[3] = 0
    c = dict(c, reg=4.0, alpha=2.0)
    for thr in (1, 3):
        m = model(c, thr)
        X0 = (det_matrix(21, f, 1) / 8).astype(dt)
        Y0 = (det_matrix(19, f, 2) / 8).astype(dt)
        m.user_factors, m.item_factors = X0.copy(), Y0.copy()
        m.fit(sp.csr_matrix(D), show_progress=False)
        check_half("%d factors users" % f, X0, m.user_factors, Y0, D, 4.0, 2.0, c["steps"], dt)
        check_half("%d factors items" % f, Y0, m.item_factors, m.user_factors, D.T, 4.0, 2.0, c["steps"], dt)
        ctx.state("wide", f, dt, c["steps"], thr)
        ctx.step(2)
        ctx.trace()


def do_long(c, ctx):
    u = c["u"]
    D = np.array([0, 1, 0.5, 4, -2, 0, 0])[det_matrix(u, 5, u, 0, 6)]
    for dt in ("float32", "float64"):
        cc = dict(f=3, reg=1.0, alpha=1.0, dt=dt, steps=3)
        for T in (0, 1):
            m = model(cc, c["thr"])
            a, b = (5, u) if T else (u, 5)
            DD = D.T if T else D
            Y = det_matrix(b, 3, 2).astype(dt) / 2
            X = det_matrix(a, 3, 4).astype(dt) / 2
            m.item_factors, m.user_factors = Y.copy(), X.copy()
            m.fit(sp.csr_matrix(DD), show_progress=False)
            check_half("%d users" % u, X, m.user_factors, Y, DD, 1.0, 1.0, 3, dt)
            check_half("%d users (items)" % u, Y, m.item_factors, m.user_factors, DD.T, 1.0, 1.0, 3, dt)
            ctx.state("long", u, c["thr"], dt, T)
            ctx.step(2)
            ctx.trace()
