"""The weighting functions (TF-IDF, BM25, normalisation) equal their definitions for every matrix."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..lib import det_matrix, fail
from .c01 import nth

META = dict(
    technique="exhaustive enumeration of all small non-negative matrices x sparse format x value type x parameters; every stored weight of the real functions "
              "(and of their compositions, as the models use them) compared with a float64 evaluation of the definition",
    bounds={"quick": "all 3x3 matrices over {0,1,2}, 2x3 and 3x2 over {0,1,3,0.25}, 1xn and nx1 over 5 values; formats csr/csc/coo and transposes, 5 value types in rotation; "
                     "BM25 with default parameters, every positional/keyword form and 12 (K1,B) settings; compositions of two functions; large and tiny values of 9 types; shapes to 700",
            "thorough": "all formats, types and parameters for every matrix, all 3x4 over {0,1,2}"},
    assumptions=["stored values are positive (no explicit zeros, no duplicate entries)"],
)
LAT = [(3, 3, [0, 1, 2]), (2, 3, [0, 1, 3, 0.25]), (3, 2, [0, 1, 3, 0.25]), (1, 4, [0, 1, 2, 7, 0.5]), (4, 1, [0, 1, 2, 7, 0.5]), (1, 1, [0, 1, 2, 7, 0.5])]
PAR = [(100, 0.8), (1.2, 0.75), (1.2, 0.0), (2.0, 1.0), (0.0, 0.5), (0.5, 0.25), (1000, 0.9), (1, 1), (100, 0), (3, 0.8), (100, 0.3), (0.1, 1.0)]
# large values of each type
INTS = [("int8", 100), ("uint8", 200), ("int16", 30000), ("uint16", 60000), ("int32", 100000), ("int32", 2000000000), ("uint32", 4000000000), ("int64", 10 ** 10),
        ("float32", 1e15), ("float32", 1e-15), ("float64", 1e100), ("float64", 1e-100)]
FORM = ["csr", "csc", "coo", "csrT", "cscT"]
TYPES = ["float64", "float32", "int32", "int64", "float64"]


def cases(tier):
    deep = tier != "quick"
    for u, i, vals in LAT + ([(3, 4, [0, 1, 2])] if deep else []):
        total = len(vals) ** (u * i)
        for s in range(0, total, 729):
            yield dict(t="lat", u=u, i=i, vals=vals, lo=s, hi=min(total, s + 729), deep=deep)
    for u, i in ((1, 700), (700, 1), (40, 30), (129, 65), (64, 257)):
        yield dict(t="big", u=u, i=i)
    yield dict(t="params")
    for dt, big in INTS:
        yield dict(t="ints", dt=dt, big=big)


def form(D, f, dt):
    if np.dtype(dt).kind == "i" and (D != np.floor(D)).any():
        dt = "float32"
    D = D.astype(dt)
    if f.endswith("T"):
        return (sp.csr_matrix if f == "cscT" else sp.csc_matrix)(D.T).T
    return {"csr": sp.csr_matrix, "csc": sp.csc_matrix, "coo": sp.coo_matrix}[f](D)


def ref(name, D, par=(100, 0.8)):
    D = np.asarray(D, dtype=np.float64)
    rows, cols = D.shape
    here = D != 0
    out = np.zeros_like(D)
    df = here.sum(axis=0)
    for r in range(rows):
        for c in range(cols):
            if not here[r, c]:
                continue
            idf = np.log(rows / (1.0 + df[c]))
            if name == "tfidf":
                out[r, c] = np.sqrt(D[r, c]) * idf
            elif name == "bm25":
                K1, B = par
                ln = (1.0 - B) + B * D[r].sum() / (D.sum() / rows)
                out[r, c] = D[r, c] * (K1 + 1.0) / (K1 * ln + D[r, c]) * idf
            else:
                n = np.sqrt((D[r] ** 2).sum())
                out[r, c] = D[r, c] / n if n else 0.0
    return out


def call(name, X, par=None):
    from implicit import nearest_neighbours as nn
    if name == "tfidf":
        return nn.tfidf_weight(X)
    if name == "normalize":
        return nn.normalize(X)
    return nn.bm25_weight(X, *par) if par is not None else nn.bm25_weight(X)


def check(w, got, want, pattern, single=False, unit=1.0):
    if not sp.issparse(got) or got.shape != want.shape:
        fail("%s: result %r", w, got)
    G = got.toarray().astype(np.float64)
    if not np.isfinite(G).all():
        fail("%s: non-finite weights %s", w, G.tolist())
    # single precision input gives at most single precision weights
    tol = 1e-5 if single or got.dtype == np.float32 else 1e-11
    # (an idf next to zero is a difference of logarithms)
    if (np.abs(G - want) > tol * (np.abs(want) + unit)).any():
        fail("%s: weights %s, should be %s", w, G.tolist(), want.tolist())
    C = sp.coo_matrix(got)
    if ((G != 0) & ~pattern).any() or (~pattern[C.row, C.col]).any():
        fail("%s: weights for entries that aren't in the matrix", w)


def one(D, f, dt, par, ctx, w, names=("tfidf", "normalize", "bm25", "bm25d")):
    pattern = D != 0
    for name in names:
        X = form(D, f, dt)
        if name == "bm25d":
            got, want = call("bm25", X), ref("bm25", D)
        elif name == "bm25":
            got, want = call("bm25", X, par), ref("bm25", D, par)
        else:
            got, want = call(name, X), ref(name, D)
        what = "%s%s of %s (%s, %s)" % (name, par if name == "bm25" else "", D.tolist() if D.size < 20 else w, f, dt)
        check(what, got, want, pattern, X.dtype == np.float32)
        if name == "normalize":
            lens = np.sqrt((got.toarray().astype(float) ** 2).sum(axis=1))
            bad = [r for r in range(len(D)) if abs(lens[r] - pattern[r].any()) > 1e-6]
            if bad:
                fail("%s: rows of length %s", what, lens.tolist())
        if name in ("tfidf", "bm25"):
            # as the models use it: the weighted matrix goes on
            G = ref("normalize", want)
            got2 = call("normalize", got)
            check("normalize of " + what, got2, np.where(np.sqrt((want ** 2).sum(axis=1, keepdims=True)) > 1e-4, G, got2.toarray()), pattern, X.dtype == np.float32)
        ctx.step()


def run_case(c, ctx):
    if c["t"] == "lat":
        for n in range(c["lo"], c["hi"]):
            D = np.array(nth(c["vals"], n, c["u"] * c["i"]), dtype=np.float64).reshape(c["u"], c["i"])
            if c["deep"]:
                for k, (f, dt) in enumerate(itertools.product(FORM, sorted(set(TYPES)))):
                    one(D, f, dt, PAR[(n + k) % len(PAR)], ctx, "")
            else:
                one(D, FORM[n % 5], TYPES[n // 5 % 5], PAR[n % len(PAR)], ctx, "")
            ctx.state(c["u"], c["i"], n)
            ctx.trace()
    elif c["t"] == "big":
        D = np.maximum(det_matrix(c["u"], c["i"], 5, -9, 9), 0).astype(float)
        for k, f in enumerate(FORM):
            for dt in ("float32", "float64", "int64"):
                one(D, f, dt, PAR[k], ctx, "%dx%d" % D.shape)
        ctx.state("big", c["u"], c["i"])
        ctx.trace()
    elif c["t"] == "ints":
        for n, v in enumerate(itertools.product((0, 1 if c["big"] > 1 else c["big"] * 3, c["big"]), repeat=6)):
            one(np.array(v, dtype=float).reshape(2, 3), FORM[n % 5], c["dt"], PAR[n % len(PAR)], ctx, "")
            ctx.state(c["dt"], c["big"], v)
        ctx.trace()
    else:
        from implicit import nearest_neighbours as nn
        D = np.array([[1, 2, 0, 1], [0, 1, 3, 0], [2, 0, 0, 0], [0, 0, 0, 5], [1, 0, 1, 0]], dtype=float)
        X = sp.csr_matrix(D)
        for K1, B in itertools.product((0.0, 0.5, 1.2, 2, 100, 1000), (0, 0.25, 0.75, 0.8, 1)):
            for w, got, par in (("bm25_weight(X, K1, B)", nn.bm25_weight(X, K1, B), (K1, B)), ("bm25_weight(X, B=B, K1=K1)", nn.bm25_weight(X, B=B, K1=K1), (K1, B)),
                                ("bm25_weight(X, K1)", nn.bm25_weight(X, K1), (K1, 0.8)), ("bm25_weight(X, B=B)", nn.bm25_weight(X, B=B), (100, B)),
                                ("bm25_weight(X=X, K1=K1)", nn.bm25_weight(X=X, K1=K1), (K1, 0.8))):
                check("%s with K1=%s B=%s" % (w, K1, B), got, ref("bm25", D, par), D != 0)
                ctx.step()
            ctx.state(K1, B)
        ctx.trace()
    ctx.sample(c)
