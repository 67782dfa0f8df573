"""The representation of the inputs does not matter."""
import itertools
import warnings

import numpy as np
import scipy.sparse as sp

from ..lib import SENT, det_matrix, fail, knn_kinds, make_mf, mf_kinds, same_rows
from .c19 import unsorted

META = dict(
    technique="exhaustive enumeration of the product of value dtypes x sparse formats x index orders x id containers for every training, query, evaluation, weighting and split "
              "operation; every representation of the same interactions must give the reference answer (or, outside the accepted formats, an error)",
    bounds={"quick": "10 dtypes x 9 matrix representations x 4 interaction matrices (6x5, values up to 120; 50000 and 3e9 where the dtype holds them; with dislikes for ALS), all model kinds, ALS with integer and fractional alpha; 12 id containers x all queries; all row "
                     "permutations of the stored indices of one row of 4 entries",
            "thorough": "more matrices"},
    assumptions=["no duplicate entries and no explicit zeros", "values are representable in every dtype compared"],
)
DTYPES = ("float64", "float32", "int32", "int64", "int16", "int8", "uint8", "uint16", "uint32", "uint64")


def rev(m):
    return unsorted(m)


def coo_rev(m):
    m = sp.coo_matrix(m)
    return sp.coo_matrix((m.data[::-1].copy(), (m.row[::-1].copy(), m.col[::-1].copy())), shape=m.shape)


def idx64(m):
    m = sp.csr_matrix(m)
    m.indices, m.indptr = m.indices.astype(np.int64), m.indptr.astype(np.int64)
    return m


def strided(m):
    m = sp.csr_matrix(m)
    d = np.zeros(2 * m.nnz, dtype=m.dtype)
    d[::2] = m.data
    m.data = d[::2]
    return m


def sorted_flag(m):
    """unsorted rows, the flag not yet computed"""
    m = unsorted(m)
    if hasattr(m, "_has_sorted_indices"):
        del m._has_sorted_indices
    return m


# accepted: must work.  other: must give the same answer or an error
FIT_OK = {"csr": sp.csr_matrix, "unsorted": rev, "flag": sorted_flag, "csc": sp.csc_matrix, "coo": sp.coo_matrix, "coo_rev": coo_rev}
OTHER = {"lil": sp.lil_matrix, "idx64": idx64, "csr_array": lambda m: sp.csr_array(m), "dense": lambda m: np.asarray(m),
         "bsr": lambda m: sp.bsr_matrix(m, blocksize=(1, 1)), "strided": strided, "coo_array": lambda m: sp.coo_array(m)}
QUERY_OK = {"csr": sp.csr_matrix, "unsorted": rev, "flag": sorted_flag}
QUERY_OTHER = dict(OTHER, csc=sp.csc_matrix, coo=sp.coo_matrix)


def mats(tier):
    out = []
    for s in range(4 if tier == "quick" else 12):
        D = np.array([0, 0, 0, 1, 2, 7, 120])[det_matrix(6, 5, s + 3, 0, 6)].astype(np.int64)
        D[s % 6] = 0
        D[(s + 1) % 6] = [3, 0, 1, 120, 2]
        out.append(D)
    return out


MF = ("als", "als-direct", "als-py", "als64", "als-int", "als-alpha", "bpr", "lmf")
KNN = ("raw", "cosine", "tfidf", "bm25")


def cases(tier):
    for k in range(len(mats(tier))):
        for kind in MF + KNN:
            for form in list(FIT_OK) + list(OTHER):
                yield dict(t="fit", kind=kind, form=form, mat=k, tier=tier)
        for form in list(FIT_OK) + list(OTHER):
            yield dict(t="weight", form=form, mat=k, tier=tier)
            yield dict(t="eval", form=form, mat=k, tier=tier)
            yield dict(t="split", form=form, mat=k, tier=tier)
        for kind in MF + KNN + ("annoy", "faiss", "nmslib"):
            for form in list(QUERY_OK) + list(QUERY_OTHER):
                yield dict(t="query", kind=kind, form=form, mat=k, tier=tier)
        for kind in [k for k in MF if k.startswith("als")]:
            for form in list(FIT_OK) + list(OTHER):
                yield dict(t="partial", kind=kind, form=form, mat=k, tier=tier)
            for form in FIT_OK:
                yield dict(t="fit", kind=kind, form=form, mat=k, tier=tier, neg=1)
                yield dict(t="partial", kind=kind, form=form, mat=k, tier=tier, neg=1)
            for form in QUERY_OK:
                yield dict(t="query", kind=kind, form=form, mat=k, tier=tier, neg=1)
    for kind in MF + KNN + ("annoy", "faiss", "nmslib"):
        yield dict(t="sets", kind=kind)
    for kind in MF + KNN:
        yield dict(t="ids", kind=kind)
        yield dict(t="perm", kind=kind)
        yield dict(t="large", kind=kind)


def run_case(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + c["t"]](c, ctx)
    ctx.state(sorted(c.items()))
    ctx.sample(c)


def new(kind):
    k = mf_kinds()
    kw = dict(random_state=5, num_threads=1)
    if kind in ("als-int", "als-alpha"):        # an integer alpha must not be applied in the dtype of the interactions
        kw["alpha"] = 3 if kind == "als-int" else 2.5
    if kind.startswith("als"):
        return k["als"](factors=2, regularization=0.1, iterations=2, use_cg=kind not in ("als-direct", "als-py"), use_native=kind != "als-py",
                        dtype=np.float64 if kind == "als64" else np.float32, **kw)
    if kind in k:
        return k[kind](factors=3, iterations=3, **kw)
    return knn_kinds()[kind](K=3, num_threads=1)


def learned(m):
    if hasattr(m, "similarity"):
        return [m.similarity.toarray()]
    return [m.user_factors, m.item_factors]


def agree(what, a, b, tol=1e-4):
    for x, y in zip(a, b):
        x, y = np.asarray(x, dtype=np.float64), np.asarray(y, dtype=np.float64)
        if x.shape != y.shape or not np.all(np.abs(x - y) <= tol * (1 + np.abs(y).max(initial=0))):
            fail("%s: %s instead of %s", what, x.tolist(), y.tolist())


def attempt(ok, what, f):
    """runs f; an error is only allowed for representations that are not accepted"""
    try:
        return f()
    except Exception as e:
        if ok:
            fail("%s: %s: %s", what, type(e).__name__, e)
        return None


def each(c, forms_ok, other):
    D = mats(c["tier"])[c["mat"]]
    conv = forms_ok.get(c["form"]) or other[c["form"]]
    if c.get("neg"):                            # dislikes
        D = D * np.where(det_matrix(6, 5, c["mat"] + 17, 0, 2) == 0, -1, 1)
    for dt in DTYPES:
        if c.get("neg") and dt.startswith("u"):
            continue
        yield c["form"] in forms_ok, dt, (lambda x, dt=dt: conv(x.astype(dt))), D


def safe_knn(kind, D):
    """similarity rows are cut at K: ties at the cut may resolve differently, so keep everything"""
    m = new(kind)
    if hasattr(m, "similarity"):
        m.K = D.shape[1] + 1
    return m


def do_fit(c, ctx):
    kind = c["kind"]
    ref = None
    for ok, dt, conv, D in each(c, FIT_OK, OTHER):
        if ref is None:
            ref = safe_knn(kind, D)
            ref.fit(sp.csr_matrix(D.astype(np.float64)), show_progress=False)
        m = safe_knn(kind, D)
        what = "%s fitted on %s %s" % (kind, dt, c["form"])

        def run():
            m.fit(conv(D), show_progress=False)
            return True
        if attempt(ok, what, run):
            agree(what, learned(m), learned(ref))
            ctx.trace()
        ctx.step()
        ctx.outcome(kind, [x.tobytes() for x in learned(ref)])


def do_weight(c, ctx):
    from implicit.nearest_neighbours import all_pairs_knn, bm25_weight, normalize, tfidf_weight
    fs = {"bm25": bm25_weight, "tfidf": tfidf_weight, "normalize": normalize,
          "all_pairs_knn": lambda x: all_pairs_knn(x, 9, show_progress=False, num_threads=1)}
    for ok, dt, conv, D in each(c, FIT_OK, OTHER):
        for name, f in fs.items():
            what = "%s of %s %s" % (name, dt, c["form"])
            ref = f(sp.csr_matrix(D.astype(np.float64))).toarray()
            r = attempt(ok, what, lambda: f(conv(D)).toarray())
            if r is not None:
                agree(what, [r], [ref], 1e-5)
                ctx.trace()
            ctx.step()


def fixed(kind, D):
    if kind in ("annoy", "faiss", "nmslib"):
        from .c20 import fitted
        return fitted(kind, "als", det_matrix(6, 2, 3) + 0.5, det_matrix(5, 2, 9) + np.arange(5)[:, None] * 0.1)
    if kind in KNN:
        m = new(kind)
        m.fit(sp.csr_matrix(D.astype(float)), show_progress=False)
        return m
    m = new(kind)
    n = 2 if kind.startswith("als") else 4 if kind == "bpr" else 5
    dt = np.float64 if kind == "als64" else np.float32
    m.user_factors, m.item_factors = (det_matrix(6, n, 3) + 0.25).astype(dt), (det_matrix(5, n, 8) + np.arange(5)[:, None] * 0.125).astype(dt)
    return m


def queries(kind, m, conv, D, u=1, us=(1, 4, 2), asid=np.array):
    """name -> call, on the interactions of one user or several users"""
    one, some = conv(D[[u]]), conv(D[list(us)])
    q = {}
    for own in (True, False):
        q["recommend %s" % own] = lambda own=own: [m.recommend(u, one, N=4, filter_already_liked_items=own)]
        q["recommend batch %s" % own] = lambda own=own: rows(m.recommend(asid(us), some, N=4, filter_already_liked_items=own))
        q["recommend filter %s" % own] = lambda own=own: [m.recommend(u, one, N=4, filter_already_liked_items=own, filter_items=asid([1, 3]))]
        if kind not in ("annoy", "faiss", "nmslib"):
            q["recommend items %s" % own] = lambda own=own: [m.recommend(u, one, N=4, filter_already_liked_items=own, items=asid([4, 1, 2]))]
            q["recommend items batch %s" % own] = lambda own=own: rows(m.recommend(asid(us), some, N=4, filter_already_liked_items=own, items=asid([4, 1, 2])))
    if kind.startswith("als"):
        it = conv(D.T[[1, 3, 2]])
        q["recalculated"] = lambda: [m.recommend(u, one, N=4, recalculate_user=True)]
        q["recalculated batch"] = lambda: rows(m.recommend(asid(us), some, N=4, recalculate_user=True))
        q["recalculate_user"] = lambda: [(np.arange(m.recalculate_user(asid(us), some).size), m.recalculate_user(asid(us), some).ravel())]
        q["recalculate_item"] = lambda: [(np.arange(m.recalculate_item(asid([1, 3, 2]), it).size), m.recalculate_item(asid([1, 3, 2]), it).ravel())]
        q["similar recalculated"] = lambda: rows(m.similar_items(asid([1, 3, 2]), N=3, recalculate_item=True, item_users=it))
    return q


def rows(r):
    return [(r[0][i], r[1][i]) for i in range(len(r[0]))]


def compare(what, got, ref):
    if len(got) != len(ref):
        fail("%s: %s instead of %s", what, got, ref)
    for (i, s), (j, t) in zip(got, ref):
        if "recalculate_" in what:
            agree(what, [s], [t])
        else:
            same_rows(what, i, s, j, t, 1e-4)


def do_query(c, ctx):
    kind = c["kind"]
    m = ref = None
    for ok, dt, conv, D in each(c, QUERY_OK, QUERY_OTHER):
        if m is None:
            m = fixed(kind, D)
            ref = {n: f() for n, f in queries(kind, m, lambda x: sp.csr_matrix(x.astype(np.float64)), D).items()}
        try:
            qs = queries(kind, m, conv, D)
        except Exception:
            if ok:
                raise
            continue        # scipy has no such representation
        for n, f in qs.items():
            what = "%s %s with %s %s interactions" % (kind, n, dt, c["form"])
            # a call that does not need the interactions may ignore them
            r = attempt(ok, what, f)
            if r is not None:
                compare(what, r, ref[n])
                ctx.trace()
            ctx.step()


def do_partial(c, ctx):
    ref = None
    for ok, dt, conv, D in each(c, FIT_OK, OTHER):
        def go(cv):
            a, b = fixed(c["kind"], D), fixed(c["kind"], D)
            a.partial_fit_users(np.array([0, 7]), cv(D[[1, 2]]))
            b.partial_fit_items(np.array([6, 2]), cv(D.T[[1, 2]]))
            return [a.user_factors, b.item_factors]
        if ref is None:
            ref = go(lambda x: sp.csr_matrix(x.astype(np.float64)))
        what = "%s partial fit on %s %s" % (c["kind"], dt, c["form"])
        r = attempt(ok, what, lambda: go(conv))
        if r is not None:
            agree(what, r, ref)
        if c["kind"] in ("als", "als64", "als-int", "als-alpha"):
            m = fixed(c["kind"], D)
            e0 = m.explain(1, sp.csr_matrix(D[[0, 1, 2]].astype(np.float64)), 2, N=3)
            e = attempt(ok, what, lambda: m.explain(1, conv(D[[0, 1, 2]]), 2, N=3))
            if e is not None:
                agree("explain " + what, [[e[0]]], [[e0[0]]])
                same_rows("explain " + what, *zip(*[(i, s) for i, s in e[1]] or [((), ())]), *zip(*[(i, s) for i, s in e0[1]] or [((), ())]), 1e-4) \
                    if e[1] or e0[1] else None
        ctx.step(3)
        ctx.trace()


def do_eval(c, ctx):
    from implicit import evaluation as ev
    ref = m = None
    for ok, dt, conv, D in each(c, FIT_OK, OTHER):
        T = np.roll(D, 2, axis=0)
        T[D != 0] = 0
        if m is None:
            m = [fixed("als", D), fixed("cosine", D)]

        def go(cv):
            return [[v for k in (1, 3, 9) for v in ev.ranking_metrics_at_k(x, cv(D), cv(T), K=k, show_progress=False).values()] for x in m]
        if ref is None:
            ref = go(lambda x: sp.csr_matrix(x.astype(np.float64)))
        what = "metrics on %s %s" % (dt, c["form"])
        r = attempt(ok, what, lambda: go(conv))
        if r is not None:
            agree(what, r, ref, 1e-9)
            ctx.trace()
        ctx.step(6)


def do_split(c, ctx):
    """the same interactions are split, whatever their representation (for one order of entries the split itself is the same)"""
    from implicit import evaluation as ev
    for ok, dt, conv, D in each(c, FIT_OK, OTHER):
        same_order = c["form"] in ("csr", "coo", "strided", "idx64", "csr_array", "coo_array")
        for name, f in (("train_test_split", lambda x: ev.train_test_split(x, 0.5, 7)), ("leave_k_out_split", lambda x: ev.leave_k_out_split(x, 1, 0.0, 7)),
                        ("leave_k_out_split 2", lambda x: ev.leave_k_out_split(x, 2, 0.5, 7))):
            what = "%s of %s %s" % (name, dt, c["form"])
            r = attempt(ok, what, lambda: [x.toarray().astype(float) for x in f(conv(D))])
            if r is None:
                continue
            if not np.array_equal(r[0] + r[1], D):
                fail("%s does not keep the interactions: %s + %s", what, r[0].tolist(), r[1].tolist())
            if same_order:
                agree(what, r, [x.toarray() for x in f(sp.csr_matrix(D.astype(float)))])
            ctx.trace()
            ctx.step()


CONT = {
    "list": list, "tuple": tuple, "i32": lambda x: np.array(x, dtype=np.int32), "i64": lambda x: np.array(x, dtype=np.int64), "i16": lambda x: np.array(x, dtype=np.int16),
    "i8": lambda x: np.array(x, dtype=np.int8), "u8": lambda x: np.array(x, dtype=np.uint8), "u32": lambda x: np.array(x, dtype=np.uint32),
    "strided": lambda x: np.repeat(np.array(x), 2)[::2], "reversed": lambda x: np.array(list(x)[::-1])[::-1],
    "readonly": lambda x: readonly(np.array(x)), "bigendian": lambda x: np.array(x, dtype=">i4"), "u64": lambda x: np.array(x, dtype=np.uint64),
}
MUST = ("list", "i32", "i64", "strided", "reversed", "readonly")


def readonly(a):
    a.flags.writeable = False
    return a


def do_ids(c, ctx):
    kind = c["kind"]
    D = mats("quick")[1]
    m = fixed(kind, D)

    def csr_(x):
        return sp.csr_matrix(x.astype(np.float64))

    def allq(asid):
        q = queries(kind, m, csr_, D, asid=asid)
        q["similar_items"] = lambda: rows(m.similar_items(asid([1, 3, 0]), N=4))
        q["similar_items filter"] = lambda: rows(m.similar_items(asid([1, 3, 0]), N=4, filter_items=asid([2, 1])))
        q["similar_items items"] = lambda: rows(m.similar_items(asid([1, 3, 0]), N=4, items=asid([2, 1])))
        q["similar_items one"] = lambda: [m.similar_items(1, N=4, filter_items=asid([4, 0]))]
        if kind not in KNN:
            q["similar_users"] = lambda: rows(m.similar_users(asid([5, 3, 0]), N=4))
            q["similar_users filter"] = lambda: rows(m.similar_users(asid([5, 3, 0]), N=4, filter_users=asid([2, 1])))
            q["similar_users users"] = lambda: rows(m.similar_users(asid([5, 3, 0]), N=4, users=asid([2, 1, 5])))
        return q
    ref = {n: f() for n, f in allq(np.array).items()}
    for name, conv in CONT.items():
        for n, f in allq(conv).items():
            what = "%s %s with %s ids" % (kind, n, name)
            r = attempt(name in MUST, what, f)
            if r is not None:
                compare(what, r, ref[n])
                ctx.trace()
            ctx.step()
        if kind.startswith("als"):
            def part(asid):
                a, b = fixed(kind, D), fixed(kind, D)
                a.partial_fit_users(asid([7, 0]), csr_(D[[1, 2]]))
                b.partial_fit_items(asid([6, 2]), csr_(D.T[[1, 2]]))
                return [a.user_factors, b.item_factors]
            r = attempt(name in ("i32", "i64", "list"), "partial fit with %s ids" % name, lambda: part(conv))
            if r is not None:
                agree("%s partial fit with %s ids" % (kind, name), r, part(np.array))
    # scalar ids and N of numpy types
    row = csr_(D[[1]])
    want = m.recommend(1, row, N=3)
    for one in (np.int32(1), np.int64(1), np.uint8(1), np.int8(1)):
        for N in (3, np.int64(3), np.int32(3)):
            g = m.recommend(one, row, N=N)
            same_rows("%s scalar id %r N %r" % (kind, one, N), g[0], g[1], want[0], want[1], 1e-6)
            a, b = m.similar_items(one, N=N), m.similar_items(1, N=3)
            same_rows("%s similar scalar id %r N %r" % (kind, one, N), a[0], a[1], b[0], b[1], 1e-6)
            ctx.step(2)


def do_sets(c, ctx):
    kind = c["kind"]
    D = mats("quick")[1]
    m = fixed(kind, D)

    def csr_(x):
        return sp.csr_matrix(x.astype(np.float64))
    # other collections of excluded ids: the same answer or an error, never ignored
    for name, conv in (("set", set), ("frozenset", frozenset), ("dict", dict.fromkeys), ("keys", lambda x: dict.fromkeys(x).keys()), ("range", lambda x: range(1, 4)), ("tuple", tuple)):
        f = [1, 2, 3]
        two = csr_(D[[1, 4]])
        for own in (True, False):
            for n, call in {"recommend": lambda x: [m.recommend(1, csr_(D[[1]]), N=5, filter_already_liked_items=own, filter_items=x)],
                            "recommend batch": lambda x: rows(m.recommend(np.array([1, 4]), two, N=5, filter_already_liked_items=own, filter_items=x)),
                            "similar_items": lambda x: [m.similar_items(0, N=5, filter_items=x)],
                            "similar_items batch": lambda x: rows(m.similar_items(np.array([0, 4]), N=5, filter_items=x))}.items():
                what = "%s %s with a %s of excluded ids" % (kind, n, name)
                r = attempt(False, what, lambda: call(conv(f)))
                if r is not None:
                    compare(what, r, call(np.array(f)))
                    ctx.trace()
                ctx.step()


def do_perm(c, ctx):
    """every order of the entries of a stored row"""
    kind = c["kind"]
    D = mats("quick")[0]
    r0 = int(np.flatnonzero((D != 0).sum(axis=1) >= 4)[0])
    base = sp.csr_matrix(D.astype(np.float64))
    ref = safe_knn(kind, D)
    ref.fit(base.copy(), show_progress=False)
    fm = fixed(kind, D)
    s, e = base.indptr[r0], base.indptr[r0 + 1]
    want = {n: f() for n, f in queries(kind, fm, sp.csr_matrix, D.astype(float), u=r0).items()}
    for perm in itertools.permutations(range(e - s)):
        M = base.copy()
        M.indices[s:e] = base.indices[s:e][list(perm)]
        M.data[s:e] = base.data[s:e][list(perm)]
        M.has_sorted_indices = list(perm) == sorted(perm)
        one = M[[r0]]
        one.has_sorted_indices = list(perm) == sorted(perm)

        def conv(x):
            return one.copy() if x.shape[0] == 1 else sp.csr_matrix(x)
        for n, f in queries(kind, fm, conv, D.astype(float), u=r0).items():
            compare("%s %s, entry order %s" % (kind, n, perm), f(), want[n])
            ctx.step()
        m = safe_knn(kind, D)
        m.fit(M, show_progress=False)
        agree("%s fitted, entry order %s" % (kind, perm), learned(m), learned(ref))
        ctx.step()
        ctx.trace()
        ctx.state(kind, perm)


def do_large(c, ctx):
    """values whose square or sum leaves the integer type"""
    kind = c["kind"]
    for hi, dts in ((50000, ("int32", "int64", "uint32", "float32", "uint64", "uint16")), (3 * 10 ** 9, ("int64", "uint64", "uint32", "float32")), (100, DTYPES), (16, DTYPES)):
        if hi > 10 ** 8 and kind not in KNN:
            continue        # beyond what single precision training can hold
        D = np.array([[hi, 1, 0, 2], [hi, 0, 3, 0], [0, hi, 1, 1], [1, 0, hi, 0]], dtype=np.int64)
        ref = safe_knn(kind, D)
        ref.fit(sp.csr_matrix(D.astype(np.float64)), show_progress=False)
        for dt in dts:
            m = safe_knn(kind, D)
            m.fit(sp.csr_matrix(D.astype(dt)), show_progress=False)
            agree("%s fitted on %s values up to %d" % (kind, dt, hi), learned(m), learned(ref), 1e-3 if hi > 10 ** 8 else 1e-4)
            if kind in KNN:
                w = queries(kind, ref, lambda x: sp.csr_matrix(x.astype(np.float64)), D, u=1, us=(1, 2, 0))
                for n, f in queries(kind, ref, lambda x: sp.csr_matrix(x.astype(dt)), D, u=1, us=(1, 2, 0)).items():
                    if "items" in n:
                        continue
                    compare("%s %s with %s values up to %d" % (kind, n, dt, hi), f(), w[n]())
            ctx.step()
            ctx.trace()
            ctx.state(kind, hi, dt)
