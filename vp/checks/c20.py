"""ANN wrappers: correct scores for real, eligible items."""
import itertools
import warnings

import numpy as np
import scipy.sparse as sp

from ..lib import (SENT, SENT_SIM, als_solve, check_topn, cosines, csr, det_matrix, fail, likes_csr, make_mf, powerset,
                   rows_of, same_rows, true_scores)
from .c02 import elig

META = dict(
    technique="exhaustive enumeration of all small catalogues (multisets of lattice item vectors) x queries x filters through the real index libraries, "
              "each answer compared with exact inner products and cosines; histories of refits; approximation off compared with the wrapped model",
    bounds={"quick": "Annoy/NMSLib/Faiss x all multisets of 3 and 4 vectors from {-1,0,2}^2 (165+495) x all 9 user vectors and all items x N 1..n+1; all liked x filter "
                     "subsets of 4 items on 4 catalogues; catalogues of up to 130 items with 1..9 factors (also lengths differing by 1e5) and up to 2500 items with filter lists of up to 2/3 of them; ALS/BPR/LMF wrapped; refit histories of length 3",
            "thorough": "multisets of 5 vectors as well; all liked x filter subsets of 5 items on 8 catalogues"},
    assumptions=["Annoy with a search budget above trees x items, Faiss with nprobe = nlist and HNSW with ef above the catalogue size search exhaustively"],
)
VECS = list(itertools.product((-1, 0, 2), repeat=2))
LIBS = ("annoy", "nmslib", "faiss")


def cases(tier):
    for lib in LIBS:
        for n in (3, 4) if tier == "quick" else (3, 4, 5):
            all_ = list(itertools.combinations_with_replacement(range(9), n))
            for k in range(0, len(all_), 33):
                yield dict(t="lattice", lib=lib, n=n, lo=k, hi=min(len(all_), k + 33))
        n, cats = (4, 4) if tier == "quick" else (5, 8)
        for cat in range(cats):
            for liked in powerset(range(n)):
                yield dict(t="filter", lib=lib, n=n, cat=cat, liked=list(liked))
        for n in (1, 2, 7, 16, 33, 64, 130):
            for f in (1, 2, 5, 9):
                yield dict(t="large", lib=lib, n=n, f=f)
        for n in (1300, 2500):
            yield dict(t="wide", lib=lib, n=n, f=3)
        for mag in (1e-5, 1e4):
            for n in (5, 40):
                for f in (2, 5):
                    yield dict(t="large", lib=lib, n=n, f=f, mag=mag)
        for kind in ("als", "bpr", "lmf"):
            yield dict(t="wrapped", lib=lib, kind=kind)
            for a in range(3):
                yield dict(t="refit", lib=lib, kind=kind, a=a)
        yield dict(t="recalc", lib=lib)


def wrap(lib, base, rec=True, sim=True, n=0, nlist=1):
    kw = dict(approximate_similar_items=sim, approximate_recommend=rec)
    if lib == "annoy":
        from implicit.ann.annoy import AnnoyModel
        return AnnoyModel(base, n_trees=50, search_k=100000, **kw)
    if lib == "nmslib":
        from implicit.ann.nmslib import NMSLibModel
        return NMSLibModel(base, query_params={"ef": 500}, **kw)
    from implicit.ann.faiss import FaissModel
    return FaissModel(base, nlist=nlist, nprobe=nlist, **kw)


def fixed(kind, U, V):
    """a model whose fit keeps these factors"""
    base = make_mf(kind, U, V)
    if kind == "als":
        base.iterations = 0
    else:
        base.iterations = 0
        base.fit = lambda *a, **k: None
    return base


def fitted(lib, kind, U, V, **kw):
    m = wrap(lib, fixed(kind, U, V), n=len(V), **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(csr(np.ones((len(U), len(V)))), show_progress=False)
    return m


def run_case(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def rec(w, m, u, row, N, T, e, exact=True, floor=1.0, **kw):
    ids, sc = m.recommend(u, row, N=N, **kw)
    check_topn(w, ids, sc, T, e, N, 1e-3, SENT, exact_count=exact, floor=floor)
    return np.asarray(ids).tobytes()


def sim_el(lib, V, e=None):
    """NMSLib leaves all-zero items out of its cosine index"""
    e = np.ones(len(V), dtype=bool) if e is None else e
    return e & (np.abs(V).sum(axis=1) > 0) if lib == "nmslib" else e


def do_lattice(c, ctx):
    U = np.array(VECS, dtype=float)
    n, lib = c["n"], c["lib"]
    none = likes_csr(n, [[]])
    everything = list(itertools.combinations_with_replacement(range(9), n))
    for combo in everything[c["lo"]:c["hi"]]:
        # vary the order of the items over the enumeration
        k = sum(combo) % n
        V = np.array([VECS[i] for i in combo[k:] + combo[:k]], dtype=float)
        m = fitted(lib, "als", U, V)
        T, C = true_scores(U, V), cosines(V, V)
        # (an all-zero catalogue has no direction at all: only validity is required)
        exact = np.abs(V).sum() > 0
        distinct = len(set(combo)) == n
        for u in range(9):
            for N in range(1, n + 2):
                w = "%s items=%s user=%s N=%d" % (lib, V.tolist(), U[u].tolist(), N)
                ctx.outcome(rec(w, m, u, none, N, T[u], None, exact and (lib != "nmslib" or distinct)))
                ctx.step()
        for q in range(n):
            for N in range(1, n + 2):
                w = "%s similar_items items=%s q=%d N=%d" % (lib, V.tolist(), q, N)
                if lib == "nmslib" and not sim_el(lib, V).any():
                    continue
                ids, sc = m.similar_items(q, N)
                check_topn(w, ids, sc, C[q], sim_el(lib, V), N, 1e-3, SENT_SIM, exact_count=exact and (lib != "nmslib" or distinct))
                ctx.step()
        ctx.trace(9 + n)
        ctx.state(lib, combo)


CATS = [[[3, 1], [1, 1], [-2, 0], [3, 2], [0, -1]], [[1, 0], [0, 1], [-1, 0], [0, -1], [1, 1]], [[5, 5], [4, 4.5], [0, 1], [1, 0], [-3, -3]],
        [[-1, -2], [-2, -2], [-4, -1], [-1, -1], [-3, -1]], [[2, 1], [1, 3], [4, 1], [1, 5], [0, 6]], [[0.5, 0], [1, 0.1], [2, 0.2], [4, -1], [8, 1]],
        [[1, 2], [2, 1], [1, 1], [2, 3], [3, 2]], [[10, 1], [-10, 1], [10, -1], [-10, -1], [0, 3]]]


def do_filter(c, ctx):
    n, lib, liked = c["n"], c["lib"], c["liked"]
    V = np.array(CATS[c["cat"]][:n], dtype=float)
    U = np.array([[1, 0], [-1, 2], [0.5, -3]])
    T, C = true_scores(U, V), cosines(V, V)
    m = fitted(lib, "als", U, V)
    row = likes_csr(n, [liked])
    rest = sorted(set(range(n)) - set(liked))
    brow = likes_csr(n, [liked, rest, []])
    for filt in powerset(range(n)):
        ctx.state(lib, c["cat"], liked, filt)
        for f in (list(filt), np.array(filt, dtype=np.int64)):
            for N in (1, 2, n, n + 2):
                for own in (True, False):
                    w = "%s cat=%d liked=%s filter=%s own=%s N=%d" % (lib, c["cat"], liked, f, own, N)
                    for u in range(3):
                        rec(w, m, u, row, N, T[u], elig(n, liked if own else (), filt), filter_items=f, filter_already_liked_items=own)
                    ids, sc = m.recommend(np.array([2, 0, 1]), brow, N=N, filter_items=f, filter_already_liked_items=own)
                    for r, (u, l) in enumerate(((2, liked), (0, rest), (1, []))):
                        check_topn("batch " + w, ids[r], sc[r], T[u], elig(n, l if own else (), filt), N, 1e-3, SENT)
                    ctx.step(4)
                for q in range(n):
                    ids, sc = m.similar_items(q, N, filter_items=f)
                    check_topn("similar " + w, ids, sc, C[q], elig(n, (), filt), N, 1e-3, SENT_SIM)
                ids, sc = m.similar_items(np.arange(n)[::-1], N, filter_items=f)
                for r in range(n):
                    check_topn("similar batch " + w, ids[r], sc[r], C[n - 1 - r], elig(n, (), filt), N, 1e-3, SENT_SIM)
                ctx.step(n + 1)
                ctx.trace()


def do_large(c, ctx):
    n, f, lib = c["n"], c["f"], c["lib"]
    V = det_matrix(n, f, n * 31 + f, -9, 9) + np.arange(n)[:, None] * 0.01 + 0.005
    U = det_matrix(6, f, f + 5, -9, 9).astype(float)
    if "mag" in c:                          # items and users of very different lengths
        V[::2] *= c["mag"]
        U[::2] *= c["mag"]
    T, C = true_scores(U, V), cosines(V, V)
    for nlist in (1, min(4, n)) if lib == "faiss" else (1,):
        m = fitted(lib, "als", U, V, nlist=nlist)
        liked = list(range(0, n, 3))
        row = likes_csr(n, [liked])
        # one-dimensional factors have only two directions: HNSW graphs of (near) identical points are not exhaustive
        exact = lib != "nmslib"
        longest = np.linalg.norm(V, axis=1).max()
        for u in range(6):
            # precision is relative to the longest item (all are embedded in a sphere of that radius)
            fl = max(longest * np.linalg.norm(U[u]), 1e-9) if "mag" in c else 1.0
            for N in (1, n // 2 + 1, n):
                w = "%s n=%d f=%d N=%d" % (lib, n, f, N)
                rec(w, m, u, row, N, T[u], None, exact, fl, filter_already_liked_items=False)
                rec(w, m, u, row, N, T[u], elig(n, liked), exact, fl)
                rec(w, m, u, row, N, T[u], elig(n, liked, range(1, n, 3)), exact, fl, filter_items=list(range(1, n, 3)))
                ctx.step(3)
        for q in range(0, n, max(1, n // 7)):
            for N in (1, n // 2 + 1, n):
                ids, sc = m.similar_items(q, N)
                check_topn("%s n=%d f=%d similar %d N=%d" % (lib, n, f, q, N), ids, sc, C[q], None, N, 1e-3, SENT_SIM, exact_count=exact)
                ctx.step()
        ctx.trace()
        ctx.state(lib, n, f, nlist)


def do_wide(c, ctx):
    """long lists of liked and filtered items in large catalogues, large batches"""
    n, f, lib = c["n"], c["f"], c["lib"]
    V = det_matrix(n, f, n + f, -99, 99) + (np.arange(n)[:, None] % 89) * 0.01 + 0.005
    U = det_matrix(70, f, f + 5, -9, 9) + 0.5
    T, C = true_scores(U, V), cosines(V[:70], V)
    m = fitted(lib, "als", U, V, nlist=3)
    exact = lib != "nmslib"
    for step in (2, 3, 7, 20):
        liked = list(range(step - 1, n, step))
        for filt in (None, list(range(0, n, 5)), np.arange(n)[::-1][: n // 2]):
            e = elig(n, liked, () if filt is None else filt)
            for u in (0, 33, 69):
                for N in (1, 10, n // 4):
                    rec("%s n=%d %d liked, %s filtered N=%d" % (lib, n, len(liked), filt is not None and len(filt), N), m, u, likes_csr(n, [liked]), N, T[u], e, exact,
                        filter_items=filt)
                    ctx.step()
            if filt is not None:
                for q in (0, 41):
                    ids, sc = m.similar_items(q, 10, filter_items=filt)
                    check_topn("%s n=%d similar_items, %d filtered" % (lib, n, len(filt)), ids, sc, C[q], elig(n, (), filt), 10, 1e-3, SENT_SIM, exact_count=exact)
                ids, sc = m.similar_items(np.arange(70)[::-1], 10, filter_items=filt)
                for r in range(0, 70, 3):
                    check_topn("%s n=%d batched similar_items, %d filtered" % (lib, n, len(filt)), ids[r], sc[r], C[69 - r], elig(n, (), filt), 10, 1e-3, SENT_SIM,
                               exact_count=exact)
                ctx.step(3)
        ctx.state(lib, n, step)
    us = (np.arange(140) * 3) % 70
    rows = [[(int(u) * 11 + j) % n for j in range(r % 9 * (n // 20))] for r, u in enumerate(us)]
    for own in (True, False):
        ids, sc = m.recommend(us, likes_csr(n, [sorted(x) for x in rows]), N=7, filter_already_liked_items=own)
        for r in range(140):
            check_topn("%s n=%d batch row %d" % (lib, n, r), ids[r], sc[r], T[us[r]], elig(n, rows[r] if own else ()), 7, 1e-3, SENT, exact_count=exact)
        ctx.step(140)
    ctx.trace()


def both(w, a, b):
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.tobytes() != y.tobytes():
            fail("%s: wrapper %s, wrapped model %s", w, [z.tolist() for z in a], [z.tolist() for z in b])


def do_wrapped(c, ctx):
    """approximation off: the wrapped model's own answers"""
    lib, kind = c["lib"], c["kind"]
    V, U = det_matrix(7, 4, 3), det_matrix(5, 4, 4)
    liked = [[0, 1], [], [6], [2, 3, 4], list(range(7))]
    for rec_on, sim_on in itertools.product((False, True), repeat=2):
        m = fitted(lib, kind, U, V, rec=rec_on, sim=sim_on)
        base = m.model
        for N in (1, 3, 7, 9):
            for own in (True, False):
                for kw in ({}, {"filter_items": [1, 5]}, {"filter_items": np.array([1, 5])}, {"items": [0, 2, 6]}, {"items": np.array([4, 2, 1])}):
                    for u in range(5):
                        row = likes_csr(7, [liked[u]])
                        if not rec_on:
                            both("recommend %s" % kw, m.recommend(u, row, N=N, filter_already_liked_items=own, **kw),
                                 base.recommend(u, row, N=N, filter_already_liked_items=own, **kw))
                            ctx.step()
                    us = np.array([3, 0, 4, 1])
                    rows = likes_csr(7, [liked[u] for u in us])
                    if not rec_on:
                        a = m.recommend(us, rows, N=N, filter_already_liked_items=own, **kw)
                        b = base.recommend(us, rows, N=N, filter_already_liked_items=own, **kw)
                        for r in range(4):
                            same_rows("batch recommend %s" % kw, a[0][r], a[1][r], b[0][r], b[1][r])
                        ctx.step()
                    if not sim_on and own:
                        for q in range(7):
                            both("similar_items %s" % kw, m.similar_items(q, N, **kw), base.similar_items(q, N, **kw))
                        both("similar_items %s" % kw, m.similar_items(np.array([5, 1]), N, **kw), base.similar_items(np.array([5, 1]), N, **kw))
                        ctx.step(8)
        if kind == "als" and not rec_on:
            both("recalculated", m.recommend(1, likes_csr(7, [liked[3]]), N=4, recalculate_user=True),
                 base.recommend(1, likes_csr(7, [liked[3]]), N=4, recalculate_user=True))
        if kind == "als" and not sim_on:
            iu = likes_csr(5, [[0, 3]])
            both("recalculated item", m.similar_items(1, 4, recalculate_item=True, item_users=iu),
                 base.similar_items(1, 4, recalculate_item=True, item_users=iu))
        # a wrapped approximate index of every model kind
        T, C = true_scores(U, V), cosines(V, V)
        if rec_on:
            for u in range(5):
                for N in (1, 4, 7):
                    rec("%s over %s" % (lib, kind), m, u, likes_csr(7, [liked[u]]), N, T[u], elig(7, liked[u]))
        if sim_on:
            for q in range(7):
                for N in (1, 4, 7):
                    ids, sc = m.similar_items(q, N)
                    check_topn("%s over %s similar_items" % (lib, kind), ids, sc, C[q], sim_el(lib, V), N, 1e-3, SENT_SIM)
        ctx.trace()
        ctx.state(lib, kind, rec_on, sim_on)


def do_refit(c, ctx):
    """after any history of refits the index is that of the current factors"""
    lib, kind = c["lib"], c["kind"]
    sets = [(det_matrix(4, 4, 1), det_matrix(6, 4, 2)), (det_matrix(4, 4, 8), det_matrix(6, 4, 9)), (det_matrix(3, 4, 5), det_matrix(9, 4, 6))]
    for seq in itertools.product(range(3), repeat=2):
        U, V = sets[c["a"]]
        m = fitted(lib, kind, U, V)
        for s in seq:
            U, V = sets[s]
            if kind == "als":
                m.model.user_factors, m.model.item_factors = U.astype("float32"), V.astype("float32")
            else:
                m.model = fixed(kind, U, V)
            m.fit(csr(np.ones((len(U), len(V)))), show_progress=False)
            T, C = true_scores(U, V), cosines(V, V)
            for u in range(len(U)):
                rec("refit %s" % (seq,), m, u, likes_csr(len(V), [[0]]), len(V), T[u], elig(len(V), [0]))
            for q in range(len(V)):
                ids, sc = m.similar_items(q, 3)
                check_topn("refit %s" % (seq,), ids, sc, C[q], sim_el(lib, V), 3, 1e-3, SENT_SIM)
            ctx.step(len(U) + len(V))
        ctx.trace()
        ctx.state(lib, kind, c["a"], seq)


def do_recalc(c, ctx):
    """similar items of an item recalculated from given interactions"""
    lib = c["lib"]
    V, U = det_matrix(6, 2, 3, -2, 2) + 0.5, det_matrix(4, 2, 7, -2, 2) + 0.25
    m = fitted(lib, "als", U, V)
    for users in powerset(range(4)):
        row = likes_csr(4, [list(users)])
        row.data[:] = np.arange(1, len(users) + 1)
        v = als_solve(U, rows_of(row)[0], m.model.regularization, m.model.alpha) if users else np.zeros(2)
        C = cosines(v[None, :], V)[0]
        if not users and lib == "nmslib":
            continue
        for N in (1, 3, 6):
            ids, sc = m.similar_items(2, N, recalculate_item=True, item_users=row)
            check_topn("%s recalculated from %s" % (lib, users), ids, sc, C, None, N, 2e-3, SENT_SIM, exact_count=False)
            ctx.step()
            # ... as one of several
            other = likes_csr(4, [list(users), [1, 2], list(users)])
            other.data[:] = np.concatenate([np.arange(1, len(users) + 1), [5, 2], np.arange(1, len(users) + 1)])
            w = als_solve(U, {1: 5.0, 2: 2.0}, m.model.regularization, m.model.alpha)
            C2 = cosines(w[None, :], V)[0]
            ids, sc = m.similar_items(np.array([2, 0, 4]), N, recalculate_item=True, item_users=other)
            for r, t in enumerate((C, C2, C)):
                check_topn("%s batch recalculated from %s" % (lib, users), ids[r], sc[r], t, None, N, 2e-3, SENT_SIM, exact_count=False)
            ctx.step(3)
        ctx.state(lib, "recalc", users)
        ctx.trace()
