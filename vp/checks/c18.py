"""ALS explanations."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..core import short
from ..lib import als_solve, det_matrix, fail, make_mf, normal_eq
from .c05 import all_rows

META = dict(
    technique="exhaustive enumeration of interaction rows over a confidence alphabet x item factors x explained items x N x parameters; every "
              "explanation compared with the float64 closed form, including reuse of the returned user weights",
    bounds={"quick": "all rows of length 4 over {missing,1,3,0.5,-2} for 6 factor matrices x all items x N in {1,2,3,10}, alpha {1,0.5,2.5,40}, reg "
                     "{0.01,0.5,10}, float32/64 in rotation; weights reused over all ordered item pairs; 1-5 factors; matrices with several users; confidences scaled by 2^-13 and 128",
            "thorough": "every parameter combination for every row"},
    assumptions=["agreement up to rounding scaled by the condition number of the user's system"],
)
ROWS = all_rows(4, [0, 1, 3, 0.5, -2])
CFG = list(itertools.product((1.0, 0.5, 2.5, 40.0), (0.125, 0.5, 10.0), ("float32", "float64")))


def cases(tier):
    for f in (1, 2, 3, 5):
        for s in range(3):
            for lo in range(0, len(ROWS), 25):
                yield dict(f=f, s=s, lo=lo, hi=lo + 25, all=tier != "quick")
            for mag in (2.0 ** -13, 128.0):
                for lo in range(0, len(ROWS), 125):
                    yield dict(f=f, s=s, lo=lo, hi=lo + 125, all=False, mag=mag)


def near(a, b, tol):
    return abs(float(a) - float(b)) <= tol


def check(what, res, Y, row, i, N, W, b, tol):
    total, top, _ = res
    yi = Y[i]
    contrib = {j: float(yi.dot(W).dot(Y[j]) * c) for j, c in row.items() if c > 0}
    want = float(yi.dot(W).dot(b))
    if not near(total, want, tol):
        fail("%s: total score %r, the recalculated score is %r", what, total, want)
    ids = [int(j) for j, _ in top]
    if len(ids) != min(N, len(contrib)) or len(set(ids)) != len(ids):
        fail("%s: %d contributions %s, should be %d", what, len(ids), top, min(N, len(contrib)))
    for j, s in top:
        if int(j) not in contrib:
            fail("%s: item %s is not a positive interaction: %s", what, j, top)
        if not near(s, contrib[int(j)], tol):
            fail("%s: contribution of %s is %r, should be %r", what, j, s, contrib[int(j)])
    if any(x[1] < y[1] - tol for x, y in zip(top, top[1:])):
        fail("%s: contributions not sorted: %s", what, top)
    left = [v for j, v in contrib.items() if j not in ids]
    if left and ids and max(left) > min(contrib[j] for j in ids) + 2 * tol:
        fail("%s: a larger contribution was left out: %s of %s", what, top, contrib)


def run_case(c, ctx):
    f = c["f"]
    Yd = det_matrix(4, f, c["s"] + f) / 2
    for k in range(c["lo"], c["hi"]):
        vals = ROWS[k] * np.array([c.get("mag", 1), 1, c.get("mag", 1), 1])
        for alpha, reg, dt in CFG if c["all"] else [CFG[k % len(CFG)], CFG[(k * 7 + 5) % len(CFG)]]:
            n_users = 1 + k % 3
            uid = k % n_users
            D = np.array([0, 1, -1, 2])[det_matrix(n_users, 4, k, 0, 3)].astype(float)
            D[uid] = vals
            M = sp.csr_matrix(D.astype((np.float32, np.float64)[k % 2]))
            m = make_mf("als", np.zeros((n_users, f)), Yd, dt, regularization=reg, alpha=alpha)
            Y = m.item_factors.astype(float)
            row = {i: alpha * v for i, v in enumerate(vals) if v}
            A, b = normal_eq(Y, row, reg)
            W = np.linalg.inv(A)
            ev = np.linalg.eigvalsh(A)
            mass = (Y ** 2).sum() * (2 + max([abs(v) for v in row.values()] or [0]))
            eps = 2e-6 if dt == "float32" else 1e-11
            tol = eps * (1 + mass) / ev[0] * (1 + mass / ev[0])
            what0 = "alpha=%g reg=%g %s Y=%s row=%s" % (alpha, reg, dt, Y.tolist(), vals.tolist())
            first = None
            for i in range(4):
                for N in (1, 2, 3, 10):
                    res = m.explain(uid, M, i, N=N)
                    check("explain(item %d, N=%d) %s" % (i, N, what0), res, Y, row, i, N, W, b, tol)
                    ctx.step()
                    for j in range(4):
                        if N == 2 or (N == 10 and j == 0):
                            again = m.explain(uid, M, j, user_weights=res[2], N=N)
                            check("explain(item %d, N=%d) with the weights from item %d, %s" % (j, N, i, what0), again, Y, row, j, N, W, b, tol)
                            ctx.step()
                            if first is None:
                                first = res
            # the total is the score under the recalculated factors
            x = m.recalculate_user(uid, M[uid])
            for i in range(4):
                t = m.explain(uid, M, i)[0]
                if not near(t, float(np.dot(x.astype(float), Y[i])), tol * 4):
                    fail("explain(item %d) total %r, recalculated factors score %r: %s", i, t, float(np.dot(x, Y[i])), what0)
            if np.any(m.user_factors) or not np.array_equal(m.item_factors, Yd.astype(dt)):
                fail("explain changed the factors: %s", what0)
            ctx.step(5)
            ctx.trace()
            ctx.state(f, c["s"], k, alpha, reg, dt)
    ctx.sample(c)
