"""Memory safety of the compiled code, under AddressSanitizer."""
import io
import itertools
import warnings

import numpy as np
import scipy.sparse as sp

from ..lib import csr, det_matrix, knn_kinds, mf_kinds

META = dict(
    technique="exhaustive enumeration of shapes, degenerate matrices, parameter values and call histories up to depth 3, every call executed on an AddressSanitizer build of the real extension modules; "
              "a report, crash or hang is a violation",
    variant="asan",
    env={"OMP_NUM_THREADS": "2"},
    bounds={"quick": "users and items in {1,2,3,5} (and all matrices of 2x2 and 2x3 over {0,1} and -1), factors {1,2,3,9}, N and K around every boundary, 1/2/5 threads, batch sizes 99-101, 199-201, 999-1001; "
                     "all histories fit(shape) fit(shape') query over 7 shapes and all three-step histories with partial fits and queries",
            "thorough": "all matrices of 3x3, histories over 9 shapes with three fits"},
    assumptions=["AddressSanitizer sees every access that leaves an allocation by less than its red zone (2 KB)", "Python-level exceptions are not judged here"],
)
CONF = ("als-cg", "als-direct", "als-py", "als64-cg", "als64-direct", "bpr", "bpr-noverify", "bpr64", "lmf", "raw", "cosine", "tfidf", "bm25")


def new(conf, factors=2, threads=1, iterations=2, K=3):
    k = mf_kinds()
    kw = dict(num_threads=threads, random_state=1)
    if conf.startswith("als"):
        return k["als"](factors=factors, iterations=iterations, use_cg="cg" in conf, use_native="py" not in conf, calculate_training_loss="py" not in conf,
                        dtype=np.float64 if "64" in conf else np.float32, **kw)
    if conf.startswith("bpr"):
        return k["bpr"](factors=factors, iterations=iterations, verify_negative_samples="no" not in conf, dtype=np.float64 if "64" in conf else np.float32, **kw)
    if conf == "lmf":
        return k["lmf"](factors=factors, iterations=iterations, neg_prop=3, **kw)
    return knn_kinds()[conf](K=K, num_threads=threads)


def cases(tier):
    full = tier != "quick"
    for conf in CONF:
        for shape in ((2, 2), (2, 3)) + (((3, 3),) if full else ()):
            n = shape[0] * shape[1]
            for lo in range(0, 2 ** n, 16):
                yield dict(t="bits", conf=conf, shape=shape, lo=lo, hi=min(2 ** n, lo + 16))
        for u, i in itertools.product((1, 2, 3, 5), repeat=2):
            for f in (1, 2, 3, 9):
                yield dict(t="shape", conf=conf, u=u, i=i, f=f)
        for u, i in ((0, 3), (3, 0), (0, 0)):
            yield dict(t="void", conf=conf, u=u, i=i)
        for a in range(len(SHAPES)):
            for b in range(len(SHAPES)):
                yield dict(t="history", conf=conf, a=a, b=b, deep=full)
        for u in (99, 100, 101, 199, 200, 201):
            yield dict(t="batch", conf=conf, u=u)
        for kk in range(1, 9):
            yield dict(t="big", conf=conf, k=kk)
    for a in ("als-cg", "als-direct", "als64-cg", "als64-direct"):
        for s in itertools.product(range(len(OPS)), repeat=2):
            yield dict(t="ops", conf=a, seq=list(s), deep=full)
    for u in (1, 2, 999, 1000, 1001, 2001):
        for conf in ("als-cg", "bpr", "lmf", "cosine"):
            yield dict(t="eval", conf=conf, u=u)
    for k in range(4):
        yield dict(t="split", k=k)
        yield dict(t="knn", k=k)
        yield dict(t="topk", k=k)


def run_case(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + c["t"]](c, ctx)
    ctx.trace()
    ctx.sample(c)


def quiet(ctx, f, *a, **k):
    try:
        ctx.step()
        return f(*a, **k)
    except Exception as e:
        ctx.count("python_exceptions")
        ctx.outcome(type(e).__name__, str(e)[:80])
        return None


def data(u, i, seed, dt=np.float32, empty=True):
    D = np.array([0, 0, 1, 3, -1 if seed % 3 == 0 else 2])[det_matrix(u, i, seed, 0, 4)]
    if empty and u > 2:
        D[u // 2] = 0
        D[-1] = 0
    return csr(D, dtype=dt)


def query(m, M, ctx, deep=False):
    """every query a user can make, on the whole model and on single rows"""
    u, i = M.shape
    knn = hasattr(m, "similarity")
    for N in (0, 1, 2, i, i + 1, 3 * i + 50):
        quiet(ctx, m.recommend, 0, M[0] if u else M, N=N)
        quiet(ctx, m.recommend, u - 1, M[[u - 1]] if u else M, N=N, filter_already_liked_items=False)
        quiet(ctx, m.recommend, np.arange(u), M, N=N)
        quiet(ctx, m.recommend, np.arange(u)[::-1], M[::-1], N=N, filter_items=[0, i - 1])
        quiet(ctx, m.recommend, np.arange(u), M, N=N, items=[i - 1, 0] if i > 1 else [0])
        quiet(ctx, m.recommend, np.arange(u), M, N=N, filter_items=list(range(i)))
        quiet(ctx, m.similar_items, i - 1, N=N)
        quiet(ctx, m.similar_items, np.arange(i), N=N)
        quiet(ctx, m.similar_items, np.arange(i), N=N, items=[i - 1])
        if not knn:
            quiet(ctx, m.similar_users, np.arange(u), N=N, filter_users=[0])
            quiet(ctx, m.similar_users, u - 1, N=N)
    if hasattr(m, "recalculate_user") and not knn and hasattr(m, "use_cg"):
        T = M.T.tocsr()
        quiet(ctx, m.recommend, np.arange(u), M, N=3, recalculate_user=True)
        quiet(ctx, m.recommend, 0, M[0] if u else M, N=3, recalculate_user=True)
        quiet(ctx, m.similar_items, np.arange(i), N=3, recalculate_item=True, item_users=T)
        quiet(ctx, m.recalculate_user, np.arange(u), M)
        quiet(ctx, m.recalculate_item, np.arange(i), T)
        quiet(ctx, m.explain, u - 1, M, i - 1)
        quiet(ctx, m.explain, 0, M, 0, N=1)


def do_bits(c, ctx):
    u, i = c["shape"]
    for bits in range(c["lo"], c["hi"]):
        D = np.array([(bits >> k) & 1 for k in range(u * i)]).reshape(u, i)
        if bits % 5 == 0:
            D = -D if not c["conf"].startswith("tfidf") else D
        M = csr(D)
        for threads in (1, 2):
            m = new(c["conf"], factors=1 + bits % 3, threads=threads, K=bits % 5)
            if quiet(ctx, m.fit, M, show_progress=False) is None:
                pass
            query(m, M, ctx)
        ctx.state(c["conf"], (u, i), bits)


def do_shape(c, ctx):
    for seed in range(2):
        M = data(c["u"], c["i"], seed + 3 * c["u"] + c["i"])
        for threads in (1, 5):
            m = new(c["conf"], c["f"], threads, K=c["f"])
            quiet(ctx, m.fit, M, show_progress=False)
            query(m, M, ctx)
        ctx.state(c["conf"], c["u"], c["i"], c["f"], seed)


def do_void(c, ctx):
    M = sp.csr_matrix((c["u"], c["i"]), dtype=np.float32)
    m = new(c["conf"])
    quiet(ctx, m.fit, M, show_progress=False)
    quiet(ctx, m.fit, csr(np.zeros((3, 3))), show_progress=False)
    quiet(ctx, m.recommend, np.arange(3), csr(np.zeros((3, 3))))
    ctx.state("void", c["conf"], c["u"], c["i"])


SHAPES = [(1, 1), (1, 4), (4, 1), (3, 5), (5, 3), (12, 40), (40, 12), (150, 7), (7, 150)]


def do_history(c, ctx):
    """refits on data of other shapes, with queries between"""
    if not c["deep"] and (c["a"] >= 7 or c["b"] >= 7):
        return
    A, B = data(*SHAPES[c["a"]], 3), data(*SHAPES[c["b"]], 5)
    for between in range(3):
        for threads in (1, 2):
            m = new(c["conf"], 3, threads)
            quiet(ctx, m.fit, A, show_progress=False)
            if between:
                query(m, A, ctx)
            if between == 2:
                f = io.BytesIO()
                quiet(ctx, m.save, f)
                f.seek(0)
                m = quiet(ctx, type(m).load, f) or m
            quiet(ctx, m.fit, B, show_progress=False)
            query(m, B, ctx)
            if c["deep"]:
                quiet(ctx, m.fit, A, show_progress=False)
                query(m, A, ctx)
        ctx.state(c["conf"], "history", c["a"], c["b"], between)


def do_batch(c, ctx):
    M = data(c["u"], 11, c["u"])
    for threads in (1, 3):
        m = new(c["conf"], 3, threads)
        quiet(ctx, m.fit, M, show_progress=False)
        for N in (1, 10, 11, 12):
            quiet(ctx, m.recommend, np.arange(c["u"]), M, N=N)
            quiet(ctx, m.recommend, np.arange(c["u"]), M, N=N, items=[1, 5, 10])
            if not hasattr(m, "similarity"):
                quiet(ctx, m.similar_users, np.arange(c["u"]), N=N)
                quiet(ctx, m.similar_users, 3, N=c["u"] + N)
        ctx.state(c["conf"], c["u"], threads)


def do_big(c, ctx):
    """more rows than threads, odd sizes, many factors"""
    k = c["k"]
    u, i = 3 * k + 1, 70 - 7 * k
    M = data(u, i, k, np.float64)
    for f in (k, 16 * k, 16 * k + 1):
        for threads in (k, 2):
            m = new(c["conf"], f, threads, 1, K=8 * k)
            quiet(ctx, m.fit, M, show_progress=False)
            quiet(ctx, m.recommend, np.arange(u), M.astype(np.float32), N=i - 1)
            quiet(ctx, m.similar_items, np.arange(i), N=i)
        ctx.state(c["conf"], "big", k, f)


def op_partial_users(m, ctx, ids):
    i = m.item_factors.shape[0]
    quiet(ctx, m.partial_fit_users, ids, data(len(ids), i, 2, empty=False))


def op_partial_items(m, ctx, ids):
    u = m.user_factors.shape[0]
    quiet(ctx, m.partial_fit_items, ids, data(len(ids), u, 4, empty=False))


OPS = [lambda m, c: op_partial_users(m, c, [0]), lambda m, c: op_partial_users(m, c, np.array([2, 9])), lambda m, c: op_partial_users(m, c, np.arange(300)),
       lambda m, c: op_partial_items(m, c, [0]), lambda m, c: op_partial_items(m, c, np.array([7, 1])), lambda m, c: op_partial_items(m, c, np.arange(300)),
       lambda m, c: query(m, data(m.user_factors.shape[0], m.item_factors.shape[0], 5), c),
       lambda m, c: quiet(c, m.fit, data(3, 5, 3), show_progress=False), lambda m, c: quiet(c, m.fit, data(40, 9, 3), show_progress=False),
       lambda m, c: quiet(c, m.fit, data(m.user_factors.shape[0], m.item_factors.shape[0], 7), show_progress=False)]


def do_ops(c, ctx):
    for last in range(len(OPS)) if c["deep"] else (6, 9):
        m = new(c["conf"], 3, 2, 1)
        quiet(ctx, m.fit, data(3, 4, 3), show_progress=False)
        for k in c["seq"] + [last]:
            OPS[k](m, ctx)
        ctx.state(c["conf"], c["seq"], last)


def do_eval(c, ctx):
    from implicit import evaluation as e
    u = c["u"]
    M, T = data(u, 9, 1, empty=False), data(u, 9, 2)
    m = new(c["conf"], 2, 2, 1)
    quiet(ctx, m.fit, M, show_progress=False)
    for K in (1, 8, 9, 10, 40):
        quiet(ctx, e.ranking_metrics_at_k, m, M, T, K=K, show_progress=False)
    ctx.state("eval", c["conf"], u)


def do_split(c, ctx):
    from implicit import evaluation as e
    for u, i in itertools.product((1, 2, 5, 40), (1, 3, 9)):
        for M in (data(u, i, c["k"], empty=False), data(u, i, c["k"] + 1), sp.csr_matrix((u, i), dtype=np.float32)):
            for K in (1, 2, 8):
                for s in (0.0, 0.3, 0.99):
                    quiet(ctx, e.leave_k_out_split, M, K, s, 3)
            for p in (0.0, 0.5, 1.0):
                quiet(ctx, e.train_test_split, M, p, 3)
            ctx.state("split", u, i, c["k"])


# more neighbours than there are items: must not be taken literally
LARGE = (2 ** 30, 10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1)


def do_knn(c, ctx):
    from implicit.nearest_neighbours import all_pairs_knn
    for u, i in itertools.product((1, 2, 5, 33), (1, 2, 7, 64)):
        for dt in (np.float32, np.float64, np.int32):
            M = data(u, i, c["k"] + u, dt)
            for K in (0, 1, 2, i, i + 1, 100, 10 ** 6) + LARGE:
                for t in (1, 4):
                    quiet(ctx, all_pairs_knn, M, K, num_threads=t, show_progress=False)
        ctx.state("knn", u, i, c["k"])
    # scorer: many calls on one object, with users of every size
    m = knn_kinds()["cosine"](K=4, num_threads=1)
    M = data(12, 30, c["k"] + 1)
    m.fit(M, show_progress=False)
    for n in range(31):
        row = csr(np.r_[np.ones(n), np.zeros(30 - n)], dtype=(np.float32, np.float64)[n % 2])
        for N in (0, 1, 3, 30, 31, 200, 10 ** 9):
            quiet(ctx, m.recommend, 0, row, N=N)
            quiet(ctx, m.recommend, 0, row, N=N, items=[0, 29], filter_already_liked_items=False)


def do_topk(c, ctx):
    from implicit.cpu.topk import topk
    for dt in (np.float32, np.float64):
        for rows in (1, 2, 99, 100, 101, 250):
            for n in (1, 2, 5, 64):
                Q, V = det_matrix(rows, 3, c["k"]).astype(dt), det_matrix(n, 3, c["k"] + 1).astype(dt)
                for k in (0, 1, n - 1, n, n + 1, 10 * n, 2 ** 31 - 1):
                    for t in (1, 3):
                        if k >= 0:
                            quiet(ctx, topk, V, Q, k, num_threads=t)
                            quiet(ctx, topk, V, Q[0], k, num_threads=t, filter_items=[0])
                            quiet(ctx, topk, V, Q, k, num_threads=t, item_norms=np.ones(n, dtype=dt))
                ctx.state("topk", str(dt), rows, n)
