"""BPR training: every outcome of the sampler."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..core import short
from ..lib import det_matrix, fail, mf_kinds, powerset
from ..rng import Script

META = dict(
    variant="rng",
    technique="exhaustive enumeration of all outcomes of the C++ sample generator (scripted distribution) x small interaction matrices x starting "
              "factors; the trained factors and counts of every execution must be a reachable state of a float64 SGD model, and all reachable "
              "states must be reached",
    bounds={"quick": "all 2x2 and 2x3 interaction patterns with up to 3 interactions (all 2n draws of one epoch), verification on and off, "
                     "1-2 factors, float32/64, (lr,reg) in {(0.5,0.25),(0.25,0),(0.01,0.01),(1,0.5)}, lattice factors; two epochs for 1-2 interactions; starting factors scaled x4, x12, x40 (scores up to some thousand); "
                     "repeated-triple scripts on matrices up to 12x40 with 17 factors; 40 real seeds per pattern",
            "thorough": "patterns with 4 interactions (65536 outcomes each) and all factor lattices"},
    assumptions=["single thread (updates are lock-free across threads)"],
)
LRREG = [(0.5, 0.25), (0.25, 0.0), (0.01, 0.01), (1.0, 0.5)]
_script = None


def setup(tier, seed):
    global _script
    import implicit.cpu.bpr
    _script = Script(implicit.cpu.bpr)


def patterns(u, i, lo, hi):
    cells = list(itertools.product(range(u), range(i)))
    return [list(s) for s in powerset(cells) if lo <= len(s) <= hi]


def cases(tier):
    k = 0
    for u, i in ((2, 2), (2, 3), (3, 2), (1, 3)):
        for pat in patterns(u, i, 1, 3):
            for verify in (True, False):
                combos = list(itertools.product((1, 2), ("float32", "float64"), range(4)))
                for f, dt, lr in combos if tier != "quick" else [combos[(k * 5) % 16], combos[(k * 5 + 7) % 16]]:
                    yield dict(t="all", u=u, i=i, pat=pat, verify=verify, f=f, dt=dt, lr=lr, seed=k, epochs=2 if len(pat) < 2 else 1)
                k += 1
    for pat in patterns(2, 3, 2, 3):
        for mag in (4, 12, 40):        # scores of some thousand: the logistic saturates
            yield dict(t="all", u=2, i=3, pat=pat, verify=bool(k & 1), f=1 + k % 3, dt=("float32", "float64")[k // 2 % 2], lr=k % 4, seed=k,
                       epochs=1, mag=mag)
            k += 1
    if tier != "quick":
        for u, i in ((2, 2), (2, 3), (3, 3)):
            for pat in patterns(u, i, 4, 4):
                for verify in (True, False):
                    yield dict(t="all", u=u, i=i, pat=pat, verify=verify, f=1 + k % 2, dt=("float32", "float64")[k % 2], lr=k % 4, seed=k, epochs=1)
                    k += 1
    for u, i in ((3, 7), (12, 40), (5, 16), (2, 65)):
        for f in (1, 3, 8, 17):
            for verify in (True, False):
                for dt in ("float32", "float64"):
                    yield dict(t="rep", u=u, i=i, f=f, verify=verify, dt=dt)
    for u, i in ((2, 2), (2, 3), (3, 2)):
        for pat in patterns(u, i, 2, 3):
            yield dict(t="seeds", u=u, i=i, pat=pat, verify=len(pat) % 2 == 0, f=2, dt="float32", lr=0)
    for kind in range(8):
        yield dict(t="fresh", k=kind)


def likes(u, i, pat):
    D = np.zeros((u, i))
    for a, b in pat:
        D[a, b] = 1 + (a + b) % 3
    return sp.csr_matrix(D)


def make(f, dt, lr, reg, verify, epochs, seed=3):
    return mf_kinds()["bpr"](factors=f, learning_rate=lr, regularization=reg, dtype=np.dtype(dt), iterations=epochs, num_threads=1,
                             verify_negative_samples=verify, random_state=seed)


def step(U, V, u, i, j, lr, reg):
    """all results of one update; U [S,users,f+1], V [S,items,f+1] -> list of (U, V, correct, sure)"""
    f = U.shape[2] - 1
    x, a, b = U[:, u], V[:, i], V[:, j]
    score = (x * (a - b)).sum(1)
    with np.errstate(over="ignore"):
        z = 1 / (1 + np.exp(score))
    U2, out = U.copy(), []
    U2[:, u, :f] = x[:, :f] + lr * (z[:, None] * (a - b)[:, :f] - reg * x[:, :f])
    t = x.copy()
    t[:, f] = 1.0
    up = lr * z[:, None] * t
    r = lr * reg
    V2 = V.copy()
    if i != j:
        V2[:, i] = a + up - r * a
        V2[:, j] = b - up - r * b
        out.append((U2, V2))
    else:   # the two updates hit one row: any order of the two
        for kind in range(3):
            V2 = V.copy()
            if kind == 0:
                y = a + up - r * a
                y = y - up - r * y
            elif kind == 1:
                y = a - up - r * a
                y = y + up - r * y
            else:
                y = a - 2 * r * a
            V2[:, i] = y
            out.append((U2, V2))
    return [(p, q, score) for p, q in out]


def reach(U, V, M, lr, reg, verify, epochs, order=None, eps=1e-5):
    """reachable (factors, lowest correct, highest correct, skipped) per epoch for all samples"""
    rows = [(u, int(i)) for u in range(M.shape[0]) for i in M.indices[M.indptr[u]:M.indptr[u + 1]]]
    liked = set(rows)
    others = sorted({i for _, i in rows})
    U0, V0 = np.array(U, dtype=np.float64)[None], np.array(V, dtype=np.float64)[None]
    lo = np.zeros((1, epochs), int)
    hi = np.zeros((1, epochs), int)
    sk = np.zeros((1, epochs), int)
    for e in range(epochs):
        for n in range(len(rows)):
            parts = []
            for (u, i) in rows:
                for j in others:
                    if verify and (u, j) in liked:
                        s2 = sk.copy()
                        s2[:, e] += 1
                        parts.append((U0, V0, lo, hi, s2))
                        continue
                    res = step(U0, V0, u, i, j, lr, reg)
                    if order is not None and i == j:
                        res = res[order:order + 1]
                    for (U2, V2, score) in res:
                        l2, h2 = lo.copy(), hi.copy()
                        l2[:, e] += score > eps
                        if i != j or e or n:    # an item against itself is a tie, never correct (exact on the starting lattice)
                            h2[:, e] += score > -eps
                        parts.append((U2, V2, l2, h2, sk))
            U0, V0, lo, hi, sk = [np.concatenate([p[k] for p in parts]) for k in range(5)]
            key = np.concatenate([np.round(U0.reshape(len(U0), -1), 9), np.round(V0.reshape(len(V0), -1), 9), lo, hi, sk], axis=1)
            _, idx = np.unique(key, axis=0, return_index=True)
            U0, V0, lo, hi, sk = U0[idx], V0[idx], lo[idx], hi[idx], sk[idx]
    return U0, V0, lo, hi, sk


def member(what, R, U, V, counts, tol):
    U0, V0, lo, hi, sk = R
    d = np.maximum(np.abs(U0 - U).reshape(len(U0), -1).max(1), np.abs(V0 - V).reshape(len(V0), -1).max(1))
    c = np.array([x[0] for x in counts])
    s = np.array([x[1] for x in counts])
    okc = ((lo <= c) & (c <= hi) & (sk == s)).all(1)
    hit = np.flatnonzero((d <= tol) & okc)
    if not len(hit):
        k = int(np.argmin(d))
        if d[k] <= tol:
            fail("%s: factors match a run with %s..%s correct and %s skipped, reported were %s", what, lo[k], hi[k], sk[k], counts)
        fail("%s: no sequence of samples gives these factors (nearest is off by %.3g): users %s items %s counts %s", what, d[k],
             U.tolist(), V.tolist(), counts)
    return hit


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def start(u, i, f, dt, seed, mag=1):
    U = (det_matrix(u, f + 1, seed, -2, 2) / 2 * mag).astype(dt)
    V = (det_matrix(i, f + 1, seed + 1, -2, 2) / 2 * mag).astype(dt)
    U[:, f] = 1
    return U, V


def fit_once(m, M, U, V):
    m.user_factors, m.item_factors = U.copy(), V.copy()
    counts = []
    seq = []

    def cb(epoch, elapsed, correct, skipped):
        seq.append(epoch)
        counts.append((int(correct), int(skipped)))
    m.fit(M, show_progress=False, callback=cb)
    if seq != list(range(m.iterations)):
        fail("callback epochs %s for %d iterations", seq, m.iterations)
    return counts


def do_all(c, ctx):
    M = likes(c["u"], c["i"], c["pat"])
    lr, reg = LRREG[c["lr"]]
    mag = c.get("mag", 1)
    U, V = start(c["u"], c["i"], c["f"], c["dt"], c["seed"], mag)
    eps = 1e-5 if mag == 1 else 1e-6 * mag * mag
    R = reach(U, V, M, np.float32(lr), np.float32(reg), c["verify"], c["epochs"], None, eps)
    tol = (2e-5 if c["dt"] == "float32" else 1e-7) * mag * mag
    m = make(c["f"], c["dt"], lr, reg, c["verify"], c["epochs"])
    what = "likes %s lr=%g reg=%g verify=%s %s from users %s items %s" % (c["pat"], lr, reg, c["verify"], c["dt"], U.tolist(), V.tolist())
    seen = set()

    def run():
        counts = fit_once(m, M, U, V)
        member(what, R, m.user_factors, m.item_factors, counts, tol)
        seen.add(tuple(np.round(np.concatenate([m.user_factors.ravel(), m.item_factors.ravel()]).astype(float), 7).tolist()))
        if np.any(m.user_factors[:, -1] != 1):
            fail("%s: user bias coordinate is %s", what, m.user_factors[:, -1])
        ctx.step()
        ctx.outcome(m.user_factors.tobytes(), m.item_factors.tobytes())
    n = _script.explore(run)
    ctx.trace(n)
    ctx.count("sampler_outcomes", n)
    ctx.state(sorted((k, repr(v)) for k, v in c.items()))
    seen = np.array(sorted(seen))
    best = None
    for order in range(1 if c["verify"] else 3):
        X, Y = reach(U, V, M, np.float32(lr), np.float32(reg), c["verify"], c["epochs"], order, eps)[:2]
        want = np.concatenate([X.reshape(len(X), -1), Y.reshape(len(Y), -1)], axis=1)
        miss = [w for w in want if np.abs(seen - w).max(1).min() > tol]
        if best is None or len(miss) < len(best):
            best = miss
    if best:
        fail("%s: %d reachable results never happen for any outcome of the generator, e.g. %s", what, len(best), best[0].tolist())


def do_seeds(c, ctx):
    M = likes(c["u"], c["i"], c["pat"])
    lr, reg = LRREG[c["lr"]]
    U, V = start(c["u"], c["i"], c["f"], c["dt"], 5)
    R = reach(U, V, M, lr, reg, c["verify"], 1)
    for seed in range(40):
        m = make(c["f"], c["dt"], lr, reg, c["verify"], 1, seed)
        counts = fit_once(m, M, U, V)
        member("likes %s seed %d" % (c["pat"], seed), R, m.user_factors, m.item_factors, counts, 2e-5)
        ctx.step()
        ctx.trace()
    ctx.state("seeds", c["u"], c["i"], c["pat"])


def do_rep(c, ctx):
    """the same triple over and over, in larger matrices"""
    D = (det_matrix(c["u"], c["i"], c["f"], 0, 3) == 0).astype(float)
    D[0, 0] = D[0, -1] = D[-1, -1] = 1
    M = sp.csr_matrix(D)
    nnz = M.nnz
    lr, reg = 0.05, 0.1
    U, V = start(c["u"], c["i"], c["f"], c["dt"], 9)
    U[:, :-1] /= 8
    V /= 8
    users = np.repeat(np.arange(c["u"]), np.diff(M.indptr))
    idx = sorted({0, 1, 2, nnz // 3, nnz // 2, nnz - 2, nnz - 1} & set(range(nnz)))
    m = make(c["f"], c["dt"], lr, reg, c["verify"], 1)
    for a, b in itertools.product(idx, idx):
        _script.set([a, b] * nnz if 2 * nnz <= 4000 else [])
        try:
            counts = fit_once(m, M, U, V)
            used = _script.used()
        finally:
            _script.off()
        ctx.step()
        if len(used) != 2 * nnz:
            ctx.count("unscripted")
            continue
        ok = False
        best = None
        for p, q in ((a, b), (b, a)):
            u, i, j = int(users[p]), int(M.indices[p]), int(M.indices[q])
            if c["verify"] and D[u, j]:
                cand = [(U[None].astype(float), V[None].astype(float), 0, nnz)]
            else:
                fr = [(U[None].astype(float), V[None].astype(float))]
                cor = 0
                for order in range(3 if i == j else 1):
                    X, Y = fr[0]
                    n = 0
                    for _ in range(nnz):
                        X, Y, score = step(X, Y, u, i, j, lr, reg)[order]
                        n += int(score[0] > 0)
                    fr.append((X, Y, n))
                cand = [(X, Y, n, 0) for X, Y, n in fr[1:]]
            for X, Y, cor, sk in cand:
                d = max(np.abs(X[0] - m.user_factors).max(), np.abs(Y[0] - m.item_factors).max())
                best = d if best is None else min(best, d)
                if d < (3e-5 if c["dt"] == "float32" else 1e-6) and counts[0][1] == sk and (i == j or abs(counts[0][0] - cor) <= 1):
                    ok = True
        if not ok:
            fail("%dx%d, %d factors, verify=%s: sampling interactions %d and %d over and over gives factors that are off by %.3g, counts %s",
                 c["u"], c["i"], c["f"], c["verify"], a, b, best, counts)
        ctx.trace()
        ctx.state("rep", c["u"], c["i"], c["f"], c["verify"], c["dt"], a, b)


def do_fresh(c, ctx):
    k = c["k"]
    D = (det_matrix(6, 5, k, 0, 2) == 0).astype(float)
    D[2] = 0
    D[:, 3] = 0
    for it in (0, 1, 3):
        for dt in ("float32", "float64"):
            m = make(1 + k % 3, dt, 0.1, 0.1, bool(k & 1), it, k)
            m.fit(sp.csr_matrix(D), show_progress=False)
            if np.any(m.user_factors[:, -1] != 1):
                fail("user bias coordinate after %d epochs: %s", it, m.user_factors[:, -1])
            m2 = make(1 + k % 3, dt, 0.1, 0.1, bool(k & 1), 0, k)
            m2.fit(sp.csr_matrix(D), show_progress=False)
            if not np.array_equal(m.user_factors[2], m2.user_factors[2]) or not np.array_equal(m.item_factors[3], m2.item_factors[3]):
                fail("rows without interactions changed in %d epochs", it)
            ctx.step(2)
    # which interactions exist decides where a new model starts, not their weights
    live_u, live_i, ref = D.any(1), D.any(0), None
    for w in (1.0, 0.25, 3.0):
        m = make(1 + k % 3, "float32", 0.1, 0.1, bool(k & 1), 0, k)
        m.fit(sp.csr_matrix(D * w), show_progress=False)
        for name, F, live in (("user", m.user_factors[:, :-1], live_u), ("item", m.item_factors, live_i)):
            if np.any(F[~live] != 0) or np.any(F[live] == 0):
                fail("new model, seed %d, weights %s: %s factors %s, rows with interactions %s", k, w, name, F.tolist(), live.tolist())
        if ref is not None and not (np.array_equal(ref[0], m.user_factors) and np.array_equal(ref[1], m.item_factors)):
            fail("new model, seed %d: the starting factors depend on the weights (%s)", k, w)
        ref = m.user_factors, m.item_factors
        ctx.step()
    ctx.state("fresh", k)
    ctx.trace()
