"""Saving, loading and pickling."""
import copy
import inspect
import io
import itertools
import os
import pathlib
import pickle
import tempfile

import numpy as np
import scipy.sparse as sp

from ..lib import close, det_matrix, fail, knn_kinds, mf_kinds, same_rows, scratch

META = dict(
    technique="exhaustive enumeration of model kinds x parameter settings x fitted/unfitted x transport (paths, file objects, every "
              "pickle protocol) x chained round trips; end states compared with the original field by field and query by query",
    bounds={"quick": "all combinations of two or more values of every constructor parameter of all 7 model kinds, fitted and unfitted, "
                     "each through one of 14 transports in rotation and all transports for a base setting; chains of 2 transports; matrices "
                     "of 5 shapes including one user, one item and empty rows",
            "thorough": "every parameter combination through every transport"},
    assumptions=["a random generator object used as seed is not expected to survive save/load"],
)
DIMS = {
    "als": dict(factors=[2, 1], regularization=[0.5, 2.5], alpha=[1.0, 40.5], dtype=["float32", "float64"], use_native=[True, False],
                use_cg=[True, False], iterations=[1, 2], calculate_training_loss=[False, True], num_threads=[1, 0],
                random_state=["none", "int", "rs", "gen", "np", "big"], cg_steps=[3, 1]),
    "bpr": dict(factors=[2, 1], learning_rate=[0.01, 0.5], regularization=[0.01, 0.25], dtype=["float32", "float64"],
                iterations=[1, 2], num_threads=[1, 0, 2], verify_negative_samples=[True, False], random_state=["none", "int", "rs", "gen", "np", "big"]),
    "lmf": dict(factors=[2, 1], learning_rate=[1.0, 0.25], regularization=[0.6, 0.1], dtype=["float32", "float64"],
                iterations=[1, 2], neg_prop=[30, 2], num_threads=[1, 0, 2], random_state=["none", "int", "rs", "gen", "np", "big"]),
    "raw": dict(K=[20, 2], num_threads=[0, 1, 2]),
    "cosine": dict(K=[20, 2], num_threads=[0, 1, 2]),
    "tfidf": dict(K=[20, 2], num_threads=[0, 1, 2]),
    "bm25": dict(K=[20, 2], K1=[1.2, 100], B=[0.75, 0.5], num_threads=[0, 1, 2]),
}
TRANS = ["path", "noext", "dotted", "pathlib", "relative", "bytesio", "file", "append"] + ["p%d" % i for i in range(pickle.HIGHEST_PROTOCOL + 1)]


def mat(u, i, seed):
    D = np.array([0, 1, 2, 3, 0, 1, 0, 5])[det_matrix(u, i, seed, 0, 7)].astype(float)
    D[0, 0] = 2
    if u > 3:
        D[2] = 0
    if i > 3:
        D[:, 3] = 0
    return sp.csr_matrix(D)


SHAPES = [(6, 5), (1, 4), (5, 1), (1, 1), (9, 8)]


def combos(kind):
    d = DIMS[kind]
    names = list(d)
    for vals in itertools.product(*[range(len(d[n])) for n in names]):
        yield list(vals)


def cases(tier):
    k = 0
    for kind in DIMS:
        allc = list(combos(kind))
        for s in range(0, len(allc), 16):
            yield dict(kind=kind, lo=s, hi=min(s + 16, len(allc)), mode="all" if tier != "quick" or len(allc) < 40 else "rot")
        base = [0] * len(DIMS[kind])
        if "random_state" in DIMS[kind]:
            base[list(DIMS[kind]).index("random_state")] = 1
        for sh in range(len(SHAPES)):
            for fitted in (True, False):
                for t in TRANS:
                    yield dict(kind=kind, combo=base, shape=sh, fitted=fitted, chain=[t])
                    if "factors" in DIMS[kind]:         # the first parameter: a single factor
                        yield dict(kind=kind, combo=[1] + base[1:], shape=sh, fitted=fitted, chain=[t])
        for a, b in itertools.product(TRANS, TRANS):
            yield dict(kind=kind, combo=base, shape=0, fitted=True, chain=[a, b])
        k += 1


def make(kind, combo):
    p = {n: v[i] for (n, v), i in zip(DIMS[kind].items(), combo)}
    cg = p.pop("cg_steps", None)
    if "dtype" in p:
        p["dtype"] = np.dtype(p["dtype"])
    if "random_state" in p:
        p["random_state"] = {"none": None, "int": 42, "np": np.int64(43), "big": 2 ** 40 + 5, "rs": np.random.RandomState(5), "gen": np.random.default_rng(5)}[p["random_state"]]
    cls = dict(mf_kinds(), **knn_kinds())[kind]
    m = cls(**p)
    if cg is not None:
        m.cg_steps = cg
    return m


def moved(m, how, tag):
    d = scratch()
    if how[0] == "p" and how[1:].isdigit():
        return pickle.loads(pickle.dumps(m, protocol=int(how[1:])))
    if how == "bytesio":
        f = io.BytesIO()
        m.save(f)
        f.seek(0)
        return type(m).load(f)
    if how == "file":
        p = os.path.join(d, "f.bin")
        with open(p, "wb") as f:
            m.save(f)
        with open(p, "rb") as f:
            r = type(m).load(f)
        os.remove(p)
        return r
    if how == "append":              # a file object that is not at its start
        with tempfile.TemporaryFile() as f:
            f.write(b"header")
            m.save(f)
            f.seek(6)
            return type(m).load(f)
    if how == "pathlib":
        p = pathlib.Path(d) / "lib.npz"
        m.save(p)
        r = type(m).load(p)
        os.remove(p)
        return r
    if how == "relative":
        old = os.getcwd()
        try:
            os.chdir(d)
            m.save("rel.npz")
            r = type(m).load("rel.npz")
            os.remove("rel.npz")
            return r
        finally:
            os.chdir(old)
    p = os.path.join(d, {"path": "model.npz", "noext": "model", "dotted": "model.v1"}[how])
    before = set(os.listdir(d))
    m.save(p)
    r = type(m).load(p)
    r2 = type(m).load(p if p.endswith(".npz") else p + ".npz")      # both spellings name the same file
    same_state("%s: loading twice" % tag, r, r2)
    for x in set(os.listdir(d)) - before:
        os.remove(os.path.join(d, x))
    return r


def params(m):
    names = [n for n in inspect.signature(type(m).__init__).parameters if n != "self"]
    if hasattr(m, "cg_steps"):
        names.append("cg_steps")
    return {n: getattr(m, n) for n in names}


def learned(m):
    if hasattr(m, "similarity"):
        s = m.similarity
        return None if s is None else [s.toarray(), s.indptr, s.data]
    return [m.user_factors, m.item_factors] if m.user_factors is not None or m.item_factors is not None else None


def is_rng(v):
    return isinstance(v, (np.random.RandomState, np.random.Generator))


def same_state(what, a, b, rng_kept=True):
    if type(a) is not type(b):
        fail("%s: type %s became %s", what, type(a), type(b))
    pa, pb = params(a), params(b)
    for n, v in pa.items():
        w = pb[n]
        if is_rng(v):
            if rng_kept and type(w) is not type(v):
                fail("%s: %s was %r, is %r", what, n, v, w)
            continue
        if not (v == w and (v is None) == (w is None)):
            fail("%s: parameter %s was %r, is %r", what, n, v, w)
        if v is not None and not isinstance(w, (type(v), np.dtype)) and not (np.isscalar(v) and np.isscalar(w) and not isinstance(w, str)):
            fail("%s: parameter %s was a %s, is a %s", what, n, type(v), type(w))
    la, lb = learned(a), learned(b)
    if (la is None) != (lb is None):
        fail("%s: learned state %s became %s", what, "missing" if la is None else "present", "missing" if lb is None else "present")
    for x, y in zip(la or [], lb or []):
        if x.dtype != y.dtype or x.shape != y.shape or x.tobytes() != np.ascontiguousarray(y).tobytes():
            fail("%s: learned arrays differ: %s %s / %s %s", what, x.dtype, x.shape, y.dtype, y.shape)


def queries(m, M):
    nu, ni = M.shape
    out = [m.recommend(np.arange(nu), M, N=ni + 1), m.recommend(np.arange(nu), M, N=2, filter_already_liked_items=False),
           m.similar_items(np.arange(ni), N=3)]
    if hasattr(m, "user_factors"):
        out.append(m.similar_users(np.arange(nu), N=nu))
    if hasattr(m, "recalculate_user") and hasattr(m, "XtX"):
        out.append(m.recommend(np.arange(nu), M, N=2, recalculate_user=True))
        out.append(m.similar_items(np.arange(ni), N=2, recalculate_item=True, item_users=M.T.tocsr()))
    return out


def roundtrip(kind, combo, shape, fitted, chain, ctx):
    M = mat(*SHAPES[shape], seed=shape + 3)
    m = make(kind, combo)
    tag = "%s %s %s %s" % (kind, {n: v[i] for (n, v), i in zip(DIMS[kind].items(), combo)}, SHAPES[shape], chain)
    if fitted:
        unseeded = getattr(m, "random_state", 0) is None
        if unseeded:                                          # what is learned must not vary from run to run
            m.random_state = 42
        m.fit(M, show_progress=False)
        if unseeded:
            m.random_state = None
    ref = copy.deepcopy(m)
    q0 = queries(ref, M) if fitted else []
    cur = m
    saved = False
    for h in chain:
        if not h[1:].isdigit():
            saved = True
        nxt = moved(cur, h, tag)
        same_state(tag + ": saving changed the original", ref, m)
        same_state(tag, cur, nxt, not saved)
        cur = nxt
        ctx.step(2)
    same_state(tag, ref, cur, not saved)
    if fitted:
        for (a, b), (x, y) in zip(q0, queries(cur, M)):
            for r in range(len(a)):
                same_rows(tag + ": query", x[r], y[r], a[r], b[r], 1e-6)
    rs = getattr(ref, "random_state", 0)
    if rs is not None and not (saved and is_rng(rs)) and getattr(ref, "num_threads", 1) == 1:
        M2 = mat(7, 6, 11)
        x, y = copy.deepcopy(ref), cur
        x.fit(M2, show_progress=False)
        y.fit(M2, show_progress=False)
        for p, q in zip(learned(x), learned(y)):
            if not close(p, q, 1e-5):
                fail("%s: training goes on differently after loading", tag)
        ctx.step()
    ctx.state(kind, combo, shape, fitted, chain)
    ctx.trace()


def run_case(c, ctx):
    if "combo" in c:
        roundtrip(c["kind"], c["combo"], c["shape"], c["fitted"], c["chain"], ctx)
    else:
        for k, combo in enumerate(combos(c["kind"])):
            if c["lo"] <= k < c["hi"]:
                for j, t in enumerate(TRANS):
                    if c["mode"] == "all" or j == (k * 5 + k // 16) % len(TRANS):
                        roundtrip(c["kind"], combo, k % 2 * 4, (k + j) % 8 != 0, [t], ctx)
    ctx.sample(c)
