"""Logistic MF training: every outcome of the negative sampler."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..core import short
from ..lib import det_matrix, fail, mf_kinds, powerset
from ..rng import Script

META = dict(
    variant="rng",
    technique="exhaustive enumeration of all outcomes of the C++ negative sampler (scripted distribution) x small weighted interaction matrices x "
              "starting factors; after every epoch each row must be one of the AdaGrad steps of a float64 model for some choice of negatives",
    bounds={"quick": "all 2x2, 2x3 and 3x2 interaction patterns with up to 4 interactions and weights {1,2,0.5}, neg_prop {0,1,2}, all outcomes of "
                     "the draws of the first epoch where there are at most 256 (an evenly spaced 256 of them otherwise), then fixed draws, 3 epochs observed one by one; 1-2 factors; (lr,reg) in 4 "
                     "settings; 30 real seeds for every pattern and neg_prop {1,3,30}; shapes up to 9x7; starting factors scaled x4, x20, x60 (scores up to some thousand); starting factors of 24 seeds x 5 weightings",
            "thorough": "all outcomes of the first epoch up to 16384 per case"},
    assumptions=["single thread"],
)
LRREG = [(1.0, 0.5), (0.25, 0.0), (0.5, 0.125), (1.0, 0.6)]
_script = None


def setup(tier, seed):
    global _script
    import implicit.cpu.lmf
    _script = Script(implicit.cpu.lmf)


def cases(tier):
    k = 0
    for u, i in ((2, 2), (2, 3), (3, 2), (1, 3), (3, 1)):
        for pat in [list(s) for s in powerset(itertools.product(range(u), range(i))) if 1 <= len(s) <= 4]:
            for neg in (0, 1, 2):
                yield dict(t="all", u=u, i=i, pat=pat, neg=neg, f=1 + k % 2, lr=k % 4, seed=k, limit=256 if tier == "quick" else 16384)
                k += 1
            for mag in (4, 20, 60):        # scores of some thousand: the logistic saturates
                yield dict(t="seeds", u=u, i=i, pat=pat, neg=k % 3, f=1 + k % 3, lr=k % 4, seed=k, mag=mag)
                k += 1
            for neg in (1, 3, 30):
                yield dict(t="seeds", u=u, i=i, pat=pat, neg=neg, f=1 + k % 2, lr=k % 4, seed=k)
                k += 1
    for u, i in ((9, 3), (3, 9), (7, 4), (8, 2), (17, 2)):
        for neg in (0, 1):
            for f in (1, 3, 6):
                yield dict(t="seeds", u=u, i=i, pat=None, neg=neg, f=f, lr=(u + f) % 4, seed=u)
    for k in range(24):
        yield dict(t="fresh", k=k)


def do_fresh(c, ctx):
    """a new model starts from factors that depend on the seed and on which interactions exist, not on their weights"""
    k, f = c["k"], 1 + c["k"] % 3
    P = det_matrix(6, 5, k, 0, 2) == 0
    P[0, 0] = P[5, 4] = True
    P[2], P[:, 3] = False, False
    ref = None
    for w in (1.0, 0.25, 2.0, "mixed", "int"):
        D = P * (np.array([0.5, 1, 3, 0.125, 1])[None, :] if w == "mixed" else 1 if w == "int" else w)
        m = mf_kinds()["lmf"](factors=f, iterations=0, num_threads=1, random_state=k)
        m.fit(sp.csr_matrix(D), show_progress=False)
        ctx.step()
        for name, F, live in (("user", m.user_factors, P.any(1)), ("item", m.item_factors, P.any(0))):
            if np.any(F[~live][:, :f] != 0):
                fail("new model, seed %d, weights %s: %s rows without interactions start at %s", k, w, name, F[~live].tolist())
            if np.any(F[live][:, :f] == 0):
                fail("new model, seed %d, weights %s: %s rows with interactions start at %s", k, w, name, F[live].tolist())
        if ref is not None and not (np.array_equal(ref[0], m.user_factors) and np.array_equal(ref[1], m.item_factors)):
            fail("new model, seed %d: the starting factors depend on the weights (%s)", k, w)
        ref = m.user_factors, m.item_factors
    ctx.trace()
    ctx.state("fresh", k)


def matrix(c):
    D = np.zeros((c["u"], c["i"]))
    if c["pat"] is None:
        D = np.array([0, 0, 0, 1, 2])[det_matrix(c["u"], c["i"], 3, 0, 4)].astype(float)
        D[0, 0] = 1
        if c["u"] > 2:
            D[2] = 0
        if c["i"] > 2:
            D[:, 1] = 0
    else:
        for a, b in c["pat"]:
            D[a, b] = [1, 2, 0.5][(a * 2 + b + c["seed"]) % 3]
    return sp.csr_matrix(D)


def multisets(items, m):
    return list(itertools.combinations_with_replacement(items, m))


def sigmoid(x):
    with np.errstate(over="ignore"):
        return 1 / (1 + np.exp(-x))


class Side:
    """possible AdaGrad accumulators of every row of one side"""

    def __init__(self, rows, f):
        self.G = [[np.zeros(f)] for _ in range(rows)]

    def check(self, what, old, new, other, C, lr, reg, neg, bias):
        """C: csr rows x other; bias: coordinate forced to one after the half-step"""
        n_other = other.shape[0]
        have = sorted(set(C.indices.tolist()))       # columns with interactions
        free = [k for k in range(old.shape[1]) if k != bias]
        if np.any(new[:, bias] != 1):
            fail("%s: reserved coordinate %d is %s", what, bias, new[:, bias].tolist())
        for r in range(old.shape[0]):
            idx = C.indices[C.indptr[r]:C.indptr[r + 1]]
            dat = C.data[C.indptr[r]:C.indptr[r + 1]].astype(float)
            if not len(idx):
                if not np.array_equal(old[r, free], new[r, free]):
                    fail("%s: row %d has no interactions but changed from %s to %s", what, r, old[r].tolist(), new[r].tolist())
                continue
            x = old[r].astype(float)
            Y = other.astype(float)
            s = sigmoid(Y.dot(x))
            base = (dat * (1 - s[idx])).dot(Y[idx]) - reg * x
            m = min(n_other, len(idx) * neg)
            sets = multisets(have, m)
            cnt = np.zeros((len(sets), n_other))
            for k, ms in enumerate(sets):
                for j in ms:
                    cnt[k, j] += 1
            d = base[None] - (cnt * s[None]).dot(Y)                       # [sets, f]
            big = np.abs(Y).dot(np.abs(x))
            serr = s * (1 - s) * np.expm1(np.minimum(4e-7 * big, 1.0)) * (big > 8)   # the logistic of a rounded score
            mass = np.abs(dat).dot(np.abs(Y[idx])) + reg * np.abs(x) + m * np.abs(Y[have]).max(0)
            mass = mass + 1e6 * ((dat * serr[idx]).dot(np.abs(Y[idx])) + m * serr.max() * np.abs(Y[have]).max(0))
            G = np.array(self.G[r])
            g = G[:, None, :] + d[None] ** 2                              # [G, sets, f]
            sc = lr / np.sqrt(1e-6 + g)
            pred = x + sc * d[None]
            tol = 4e-6 * (1 + np.abs(x)) + 4e-6 * sc * mass * (1 + np.abs(d[None]) * np.abs(d[None]) / (1e-6 + g)) * 2
            bad = np.abs(pred - new[r].astype(float)) > tol
            ok = ~bad[:, :, free].any(axis=2)
            if not ok.any():
                e = (np.abs(pred - new[r]) / tol)[:, :, free].max(axis=2)
                a, b = np.unravel_index(np.argmin(e), e.shape)
                fail("%s: row %d moved from %s to %s; the nearest step (negatives %s of %s) gives %s", what, r, old[r].tolist(),
                     new[r].tolist(), sets[b], have, pred[a, b].tolist())
            cand = g[ok]
            _, first = np.unique(np.round(cand, 7), axis=0, return_index=True)
            self.G[r] = [cand[k] for k in first]
        return self


def train(c, M, U, V, ctx, what):
    lr, reg = LRREG[c["lr"]]
    m = mf_kinds()["lmf"](factors=c["f"], learning_rate=lr, regularization=reg, iterations=3, neg_prop=c["neg"], num_threads=1,
                          random_state=c.get("rs", 1))
    m.user_factors, m.item_factors = U.copy(), V.copy()
    us, vs = Side(len(U), U.shape[1]), Side(len(V), V.shape[1])
    MT = M.T.tocsr()
    prev = [U, V]
    n = [0]

    def cb(epoch, elapsed):
        if epoch != n[0]:
            fail("%s: callback for epoch %d after %d", what, epoch, n[0])
        n[0] += 1
        nu, nv = m.user_factors.copy(), m.item_factors.copy()
        us.check("%s epoch %d users" % (what, epoch), prev[0], nu, prev[1], M, lr, reg, c["neg"], U.shape[1] - 2)
        vs.check("%s epoch %d items" % (what, epoch), prev[1], nv, nu, MT, lr, reg, c["neg"], V.shape[1] - 1)
        prev[0], prev[1] = nu, nv
        ctx.step()
    m.fit(M, show_progress=False, callback=cb)
    if n[0] != 3:
        fail("%s: %d callbacks for 3 epochs", what, n[0])
    if not (np.array_equal(prev[0], m.user_factors) and np.array_equal(prev[1], m.item_factors)):
        fail("%s: factors changed after the last epoch", what)
    ctx.outcome(prev[0].tobytes(), prev[1].tobytes())
    ctx.trace()


def start(c):
    f = c["f"] + 2
    mag = c.get("mag", 1)
    U = (det_matrix(c["u"], f, c["seed"], -3, 3) / 4 * mag).astype(np.float32)
    V = (det_matrix(c["i"], f, c["seed"] + 1, -3, 3) / 4 * mag).astype(np.float32)
    U[:, -2] = 1
    V[:, -1] = 1
    return U, V


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def do_all(c, ctx):
    M = matrix(c)
    U, V = start(c)
    what = "interactions %s neg_prop=%d lr,reg=%s from %s %s" % (M.toarray().tolist(), c["neg"], LRREG[c["lr"]], U.tolist(), V.tolist())
    # all outcomes of the first epoch's draws; later draws follow a fixed pattern
    users, items = M.shape
    first = sum(min(items, n * c["neg"]) for n in np.diff(M.indptr) if n) + \
        sum(min(users, n * c["neg"]) for n in np.diff(M.T.tocsr().indptr) if n)
    nnz = M.nnz
    total = nnz ** first
    for k in range(min(total, c["limit"])):
        q = k if total <= c["limit"] else (k * (total // c["limit"])) + k % 7
        pre = []
        for _ in range(first):
            pre.append(q % nnz)
            q //= nnz
        _script.set(pre + [(k + j * j) % nnz for j in range(2 * first)])
        try:
            train(c, M, U, V, ctx, what)
            n = len(_script.used())
        finally:
            _script.off()
        ctx.count("sampler_outcomes")
        if n == 0:
            break
    ctx.state(sorted((k, repr(v)) for k, v in c.items()))


def do_seeds(c, ctx):
    M = matrix(c)
    U, V = start(c)
    for rs in range(30 if c["pat"] is not None else 10):
        train(dict(c, rs=rs), M, U, V, ctx, "interactions %s neg_prop=%d seed %d" % (short(M.toarray(), 300), c["neg"], rs))
    ctx.state(sorted((k, repr(v)) for k, v in c.items()))
