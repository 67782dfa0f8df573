"""The ALS training loss reported to the callback."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..core import short
from ..lib import det_matrix, fail, mf_kinds
from .c01 import nth

META = dict(
    technique="exhaustive enumeration of small confidence matrices x training configurations; every callback of every run is "
              "compared with the float64 definition on the factors captured at that moment",
    bounds={"quick": "all 2x3 matrices over {missing,1,0.5,4,-2}, 1x4 and 3x1 matrices over the same alphabet; 1-3 iterations, both "
                     "solvers, native and Python, float32/64, alpha {1,0.5,3}, reg {0,0.125,1,8}, threads {0,1,2,3}, 1-3 factors; "
                     "shapes around the work chunk size (1..2050 users or items), factors up to 33",
            "thorough": "all 2x4 matrices over the same alphabet, every configuration combination on the 2x3 matrices"},
    assumptions=["agreement is judged up to rounding of the summed terms"],
)
A = [0, 1, 0.5, 4, -2]
CFG = list(itertools.product((True, False), (True, False), ("float32", "float64"), (1.0, 0.5, 3.0), (0.125, 1.0, 8.0), (0, 1, 2, 3),
                             (1, 2, 3)))


def cases(tier):
    for (u, i) in ((2, 3), (1, 4), (3, 1)) + (((2, 4),) if tier != "quick" else ()):
        total = 5 ** (u * i)
        step = 25 if tier == "quick" else 250
        for k, s in enumerate(range(0, total, step)):
            yield dict(t="mat", u=u, i=i, lo=s, hi=min(total, s + step), k=k, every=False)
    if tier != "quick":
        for c in range(len(CFG)):
            yield dict(t="mat", u=2, i=3, lo=0, hi=5 ** 6, k=c, every=True)
    for u, i in ((1, 1), (7, 5), (8, 8), (9, 7), (15, 17), (16, 9), (17, 3), (64, 5), (65, 5), (5, 65), (257, 4), (4, 257), (100, 30), (3, 1001), (1003, 3), (2050, 5)):
        for f in (1, 2, 5, 8, 17, 33):
            for dt in ("float32", "float64"):
                for thr in (0, 1, 2, 4):
                    yield dict(t="big", u=u, i=i, f=f, dt=dt, thr=thr)
    for n in (0, 1, 2, 5):
        for cg in (True, False):
            for way in ("arg", "attr"):
                for loss in (True, False):
                    yield dict(t="calls", n=n, cg=cg, way=way, loss=loss)


def check_loss(what, loss, D, X, Y, reg, alpha, dt):
    X, Y = np.asarray(X, dtype=np.float64), np.asarray(Y, dtype=np.float64)
    D = np.asarray(D, dtype=np.float64) * alpha
    conf = np.where(D == 0, 1.0, np.abs(D))
    S = X.dot(Y.T)
    want = ((conf * ((D > 0) - S) ** 2).sum() + reg * ((X ** 2).sum() + (Y ** 2).sum())) / conf.sum()
    n0 = (np.abs(X).dot(np.abs(Y).T))
    mass = (conf * (1 + n0) ** 2).sum() / conf.sum() + reg * ((X ** 2).sum() + (Y ** 2).sum()) / conf.sum()
    mass += np.abs(Y.T.dot(Y)).sum() * (X ** 2).sum() / conf.sum()
    tol = (4e-6 if dt == "float32" else 1e-12) * mass
    if loss is None or not abs(loss - want) <= tol:
        fail("%s: loss %r, should be %r (allowed %.2g): C*alpha=%s X=%s Y=%s", what, loss, want, tol, short(D, 300), short(X, 300),
             short(Y, 300))


def train(ctx, what, D, cg, native, dt, alpha, reg, thr, f, iters, X0, Y0):
    m = mf_kinds()["als"](factors=f, regularization=reg, alpha=alpha, dtype=np.dtype(dt), use_native=native, use_cg=cg,
                          iterations=iters, num_threads=thr, calculate_training_loss=True, random_state=1)
    m.user_factors, m.item_factors = X0.astype(dt), Y0.astype(dt)
    seen = []

    def cb(it, elapsed, loss):
        if it != len(seen):
            fail("%s: callback for iteration %r after %d callbacks", what, it, len(seen))
        seen.append(loss)
        check_loss("%s iteration %d" % (what, it), loss, D, m.user_factors, m.item_factors, reg, alpha, dt)
        ctx.step()
    m.fit(sp.csr_matrix(D.astype(np.float32)), show_progress=False, callback=cb)
    if len(seen) != iters:
        fail("%s: %d callbacks for %d iterations", what, len(seen), iters)
    ctx.trace()


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def do_mat(c, ctx):
    u, i = c["u"], c["i"]
    for k in range(c["lo"], c["hi"]):
        D = np.array(nth(A, k, u * i), dtype=float).reshape(u, i)
        cfg = CFG[c["k"]] if c["every"] else CFG[(k * 97 + 31) % len(CFG)]
        cg, native, dt, alpha, reg, thr, f = cfg
        X0, Y0 = det_matrix(u, f, k) / 2, det_matrix(i, f, k + 1) / 2
        train(ctx, "cg=%s native=%s %s alpha=%g reg=%g threads=%d" % cfg[:-1], D, cg, native, dt, alpha, reg, thr, f, 1 + k % 3, X0, Y0)
        ctx.state(u, i, k, cfg)


def do_big(c, ctx):
    D = np.array([0, 1, 0.5, 4, -2, 0, 0])[det_matrix(c["u"], c["i"], c["f"], 0, 6)]
    f = c["f"]
    for cg in (True, False):
        train(ctx, "%dx%d f=%d cg=%s %s threads=%d" % (c["u"], c["i"], f, cg, c["dt"], c["thr"]), D, cg, True, c["dt"], 1.0, 1.0,
              c["thr"], f, 2, det_matrix(c["u"], f, 1) / 4, det_matrix(c["i"], f, 2) / 4)
        ctx.state("big", sorted(c.items()), cg)


def do_calls(c, ctx):
    D = np.array([0, 1, 0.5, 4, -2, 0, 0])[det_matrix(5, 4, 3, 0, 6)]
    m = mf_kinds()["als"](factors=2, use_cg=c["cg"], iterations=c["n"], calculate_training_loss=c["loss"], num_threads=1, random_state=3)
    seen = []

    def cb(it, elapsed, loss):
        seen.append(it)
        if not elapsed >= 0:
            fail("elapsed time %r", elapsed)
        if c["loss"]:
            check_loss("callback", loss, D, m.user_factors, m.item_factors, 0.01, 1.0, "float32")
    if c["way"] == "attr":
        m.fit_callback = cb
    if c["n"] == 0 and c["loss"]:
        return
    m.fit(sp.csr_matrix(D), show_progress=False, callback=cb if c["way"] == "arg" else None)
    if seen != list(range(c["n"])):
        fail("callback iterations %s for %d iterations", seen, c["n"])
    ctx.state("calls", sorted(c.items()))
    ctx.step(c["n"])
    ctx.trace()
