"""ALS answers reflect the current factors, whatever happened to the model before."""
import io
import itertools
import os
import pickle

import numpy as np
import scipy.sparse as sp

from ..lib import close, det_matrix, fail, mf_kinds, same_rows, scratch

META = dict(
    technique="exhaustive exploration of all operation sequences up to a depth on the real model, each end state compared with a fresh "
              "model holding the same factors, and each transition with its specified effect",
    bounds={"quick": "all sequences of up to 3 of 17 operations (3 fits on two shapes, partial fits of existing/new/several "
                     "users and items, similar_items/users, recommend with recalculation, explain, both recalculations, pickle, save/load) for "
                     "4 configurations, all sequences of 4 operations that alternate updates and queries",
            "thorough": "all sequences of up to 4 operations for 8 configurations"},
    assumptions=["factors are only changed through the documented training calls"],
)
VAL = np.array([0, 1, 2, 3, -1, 0, 0, 0.5])


def mat(u, i, seed):
    D = VAL[det_matrix(u, i, seed, 0, 7)]
    D[0, 0] = 1
    return sp.csr_matrix(D.astype(np.float32))


A0, A1, B0 = mat(5, 6, 1), mat(5, 6, 2), mat(7, 4, 3)
CFGS = [dict(use_cg=True, dtype="float32", alpha=1.0, use_native=True), dict(use_cg=False, dtype="float64", alpha=2.0, use_native=True),
        dict(use_cg=False, dtype="float32", alpha=1.0, use_native=False), dict(use_cg=True, dtype="float64", alpha=0.5, use_native=True),
        dict(use_cg=True, dtype="float32", alpha=3.0, use_native=False), dict(use_cg=False, dtype="float32", alpha=2.0, use_native=True),
        dict(use_cg=True, dtype="float64", alpha=1.0, use_native=True), dict(use_cg=False, dtype="float64", alpha=0.5, use_native=False)]
UPD = ["fitA", "fitA1", "fitB", "pu1", "puN", "pu2", "pi1", "piN", "pi2"]
QRY = ["sim", "simu", "rec", "expl", "ru", "ri"]
MOVE = ["pickle", "save"]
OPS = UPD + QRY + MOVE


def cases(tier):
    ncfg = 4 if tier == "quick" else 8
    for cfg in range(ncfg):
        for d in (1, 2):
            yield dict(cfg=cfg, pre=[], depth=d)
        for o in OPS:
            yield dict(cfg=cfg, pre=[o], depth=2)
        if tier != "quick":
            for a, b in itertools.product(OPS, OPS):
                yield dict(cfg=cfg, pre=[a, b], depth=2)
    if tier == "quick":
        for k, (a, b) in enumerate(itertools.product(UPD, QRY)):
            yield dict(cfg=k % 4, pre=[a, b], alt=True)


def new(c):
    return mf_kinds()["als"](factors=2, regularization=0.5, iterations=2, num_threads=1, random_state=7,
                             **dict(c, dtype=np.dtype(c["dtype"])))


def rowsfor(n, width, seed):
    D = VAL[det_matrix(n, width, seed, 0, 7)]
    D[:, 0] = 2
    return sp.csr_matrix(D.astype(np.float32))


def ref_rows(rows, Y, reg, alpha):
    """float64 solutions"""
    from .c05 import batch_eq
    A, b = batch_eq(Y, np.asarray(rows.todense()), reg, alpha)
    return np.linalg.solve(A, b[..., None])[..., 0]


def partial(m, side, ids, seed, what):
    U, V = m.user_factors.copy(), m.item_factors.copy()
    mine, other = (U, V) if side == "u" else (V, U)
    ids = [mine.shape[0] + i - 100 if i >= 100 else i % mine.shape[0] for i in ids]
    rows = rowsfor(len(ids), other.shape[0], seed)
    if len(ids) > 2 or (ids == [1] and seed % 2):   # the last one has no interactions any more
        D = rows.toarray()
        D[-1] = 0
        rows = sp.csr_matrix(D)
    (m.partial_fit_users if side == "u" else m.partial_fit_items)(np.array(ids), rows)
    got, same = (m.user_factors, m.item_factors) if side == "u" else (m.item_factors, m.user_factors)
    if not np.array_equal(same, other):
        fail("%s changed the other side's factors", what)
    n = max(mine.shape[0], max(ids) + 1)
    if got.shape != (n, mine.shape[1]):
        fail("%s: factors have shape %s, should be %s", what, got.shape, (n, mine.shape[1]))
    want = np.zeros((n, mine.shape[1]))
    want[:len(mine)] = mine
    keep = [r for r in range(n) if r not in ids]
    if not np.array_equal(got[keep], want[keep].astype(got.dtype)):
        fail("%s: rows other than %s changed", what, ids)
    sol = ref_rows(rows, other, m.regularization, m.alpha)
    if not close(got[ids], sol, 2e-3 if got.dtype == np.float32 else 1e-8):
        fail("%s: rows %s became %s, should be %s", what, ids, got[ids].tolist(), sol.tolist())
    return m


def apply(m, op, what, step):
    U, V = m.user_factors, m.item_factors
    if op in ("fitA", "fitA1", "fitB"):
        m.fit({"fitA": A0, "fitA1": A1, "fitB": B0}[op], show_progress=False)
        if m.user_factors.shape != ((7, 2) if op == "fitB" else (5, 2)) or m.item_factors.shape != ((4, 2) if op == "fitB" else (6, 2)):
            fail("%s: factors have shapes %s %s", what, m.user_factors.shape, m.item_factors.shape)
        return m
    if op[0] == "p" and op != "pickle":
        ids = {"1": [1], "N": [101], "2": [2, 100, 0]}[op[2]]
        return partial(m, op[1], ids, 10 + step, what)
    before = (U.copy(), V.copy())
    if op == "sim":
        m.similar_items(1, N=3)
    elif op == "simu":
        m.similar_users([0, 2], N=3)
    elif op == "rec":
        m.recommend([0, 1], rowsfor(2, V.shape[0], 5), N=3, recalculate_user=True)
    elif op == "expl":
        m.explain(0, rowsfor(1, V.shape[0], 6), 1)
    elif op == "ru":
        m.recalculate_user(0, rowsfor(1, V.shape[0], 7))
    elif op == "ri":
        m.recalculate_item([0, 1], rowsfor(2, U.shape[0], 8))
    elif op == "pickle":
        m = pickle.loads(pickle.dumps(m))
    elif op == "save":
        p = os.path.join(scratch(), "m.npz")
        m.save(p)
        m = type(m).load(p)
        os.remove(p)
    if not (np.array_equal(m.user_factors, before[0]) and np.array_equal(m.item_factors, before[1])):
        fail("%s changed the factors", what)
    return m


def compare(what, m, cfg):
    f = new(cfg)
    f.user_factors, f.item_factors = m.user_factors.copy(), m.item_factors.copy()
    nu, ni = len(m.user_factors), len(m.item_factors)
    if f.user_factors.shape != (nu, 2) or f.item_factors.shape != (ni, 2) or m.user_factors.dtype != np.dtype(cfg["dtype"]):
        fail("%s: factors %s %s %s", what, m.user_factors.shape, m.item_factors.shape, m.user_factors.dtype)
    scale = 1 + max(np.abs(m.user_factors).max(), np.abs(m.item_factors).max()) ** 2
    tol = (1e-4 if cfg["dtype"] == "float32" else 1e-9) * scale
    rows = rowsfor(nu, ni, 21)

    def both(name, call, sim=False):
        a, b = call(m), call(f)
        if isinstance(a, tuple):
            for x in range(len(a[0])):
                same_rows("%s: %s" % (what, name), a[0][x], a[1][x], b[0][x], b[1][x], 1e-5 if sim else tol,
                          **(dict(sent=-1.5) if sim else {}))
        elif not close(a, b, tol * 10):
            fail("%s: %s gives %s, a fresh model with the same factors %s", what, name, np.asarray(a).tolist(), np.asarray(b).tolist())
    everyu, everyi = np.arange(nu), np.arange(ni)
    both("similar_items", lambda x: x.similar_items(everyi, N=ni), True)
    both("similar_users", lambda x: x.similar_users(everyu, N=nu), True)
    both("recommend", lambda x: x.recommend(everyu, rows, N=ni))
    both("recommend(recalculate)", lambda x: x.recommend(everyu, rows, N=ni, recalculate_user=True, filter_already_liked_items=False))
    both("recalculate_user", lambda x: x.recalculate_user(everyu, rows))
    both("recalculate_item", lambda x: x.recalculate_item(everyi, rowsfor(ni, nu, 22)))
    both("similar_items(recalculate)", lambda x: tuple(np.atleast_2d(v) for v in x.similar_items(
        0, N=ni, recalculate_item=True, item_users=rowsfor(1, nu, 23))), True)
    both("explain", lambda x: [x.explain(0, rows, i)[0] for i in range(ni)])
    if not (np.array_equal(f.user_factors, m.user_factors) and np.array_equal(f.item_factors, m.item_factors)):
        fail("%s: a query changed the factors", what)
    # and training from here
    D = mat(nu, ni, 31)
    m.fit(D, show_progress=False)
    f.fit(D, show_progress=False)
    t = 5e-3 if cfg["dtype"] == "float32" else 1e-7
    if not close(m.user_factors, f.user_factors, t) or not close(m.item_factors, f.item_factors, t):
        fail("%s: training goes on differently from a fresh model with the same factors", what)


def run_seq(seq, cfg, ctx):
    m = new(cfg)
    m.fit(A0, show_progress=False)
    for k, op in enumerate(seq):
        m = apply(m, op, "after [%s]: %s" % (", ".join(seq[:k]), op), k)
        ctx.step()
    ctx.state(seq, sorted(cfg.items()))
    ctx.outcome(m.user_factors.tobytes(), m.item_factors.tobytes())
    compare("after fitA0, %s" % ", ".join(seq), m, cfg)
    ctx.trace()


def run_case(c, ctx):
    cfg = CFGS[c["cfg"]]
    if "seq" in c:
        return run_seq(c["seq"], cfg, ctx)
    if c.get("alt"):
        tails = [(a, b) for a in UPD + MOVE for b in QRY + UPD]
        tails = [t for t in tails]
    else:
        tails = itertools.product(OPS, repeat=c["depth"])
    for t in tails:
        run_seq(list(c["pre"]) + list(t), cfg, ctx)
    ctx.sample(dict(config=cfg, first=list(c["pre"]) + list(t)))
