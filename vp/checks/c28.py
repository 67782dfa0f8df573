"""Observing training doesn't change it, and a callback sees a model that is exactly as far as it says."""
import contextlib
import io
import itertools
import logging
import pickle
import warnings

import numpy as np
import scipy.sparse as sp

from ..lib import cosines, det_matrix, fail, mf_kinds, true_scores

META = dict(
    technique="exhaustive exploration of all callback histories (what the callback does after each of the first iterations: nothing, any query, pickle, "
              "raise) and all combinations of observation options on the real training code; every intermediate and final state compared bit for bit "
              "with unobserved training of that many iterations",
    bounds={"quick": "11 configurations (ALS CG/Cholesky x native/Python x float32/64 x 1-2 threads, BPR with and without verification, LMF) x 2 data sets; all 0..6 iterations; all "
                     "combinations of progress bar, callback, fit_callback, loss and log level; trainings of 80 iterations that converge early; all 7^3 histories of callback actions; an exception after every iteration; "
                     "all splits of up to 5 iterations over two fits; Annoy/NMSLib/Faiss wrappers",
            "thorough": "400 iterations; all 7^4 callback histories, up to 12 iterations, up to 8 iterations over two or three fits"},
    assumptions=["one thread for BPR and LMF (several threads share factors or are seeded per thread)"],
)
VAL = np.array([0, 1, 2, 3, -1, 0, 0, 0.5])
CFG = [dict(kind="als", use_cg=True), dict(kind="als", use_cg=False), dict(kind="als", use_cg=True, dtype="float64", threads=2),
       dict(kind="als", use_cg=False, dtype="float64", alpha=2.0), dict(kind="als", use_cg=True, use_native=False),
       dict(kind="als", use_cg=False, use_native=False, dtype="float64"), dict(kind="als", use_cg=False, threads=2, alpha=0.5),
       dict(kind="bpr"), dict(kind="bpr", verify_negative_samples=False, dtype="float64"), dict(kind="lmf"), dict(kind="lmf", neg_prop=2)]
# data on which training converges (or has nothing to do) quickly
LONG = [np.eye(4), np.array([[1, 0], [0, 0], [1, 1]]), np.zeros((3, 2)), np.ones((3, 4)), np.array([[5.0]])]
ACTS = ["none", "sim", "simu", "rec", "recalc", "eval", "pickle"]


def data(d, kind):
    u, i = ((6, 7), (13, 5))[d]
    D = VAL[det_matrix(u, i, 3 + d, 0, 7)]
    D[2] = 0
    D[0, :2] = 1
    if kind != "als":
        D = np.abs(D)
    return sp.csr_matrix(D.astype(np.float32))


def new(c, it):
    c = dict(c)
    kind = c.pop("kind")
    kw = dict(factors=3, iterations=it, num_threads=c.pop("threads", 1), random_state=11, dtype=np.dtype(c.pop("dtype", "float32")), regularization=0.1)
    if kind != "als":
        kw["learning_rate"] = 0.3
    return mf_kinds()[kind](**kw, **c)


def cases(tier):
    deep = tier != "quick"
    for k in range(len(CFG)):
        for d in (0, 1):
            yield dict(t="prefix", cfg=k, d=d, n=12 if deep else 6)
            yield dict(t="options", cfg=k, d=d)
            yield dict(t="raise", cfg=k, d=d, n=5)
            yield dict(t="resume", cfg=k, d=d, n=8 if deep else 5)
        for d in range(len(LONG)):
            yield dict(t="long", cfg=k, d=d, n=400 if deep else 80)
        for a in ACTS:
            for b in ACTS:
                yield dict(t="query", cfg=k, d=(ACTS.index(a) + ACTS.index(b)) % 2, pre=[a, b], more=2 if deep else 1)
    for lib in ("annoy", "nmslib", "faiss"):
        yield dict(t="ann", lib=lib)


def state(m):
    return [np.array(m.user_factors), np.array(m.item_factors)]


def same(w, a, b):
    for name, x, y in zip(("user", "item"), a, b):
        if x.shape != y.shape or x.dtype != y.dtype or x.tobytes() != y.tobytes():
            bad = [r for r in range(min(len(x), len(y))) if x[r].tobytes() != y[r].tobytes()]
            fail("%s: %s factors differ from those of unobserved training (rows %s): %s, should be %s", w, name, bad[:5],
                 x[bad[:1]].tolist(), y[bad[:1]].tolist())


def train(c, X, it, **kw):
    m = new(c, it)
    m.fit(X, show_progress=False, **kw)
    return m


_cache = {}


def plain(k, d, it):
    """unobserved training"""
    if (k, d, it) not in _cache:
        _cache[k, d, it] = state(train(CFG[k], data(d, CFG[k]["kind"]), it))
    return _cache[k, d, it]


@contextlib.contextmanager
def quiet():
    log = logging.getLogger("implicit")
    old = log.level
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            yield log
        finally:
            log.setLevel(old)


def run_case(c, ctx):
    with quiet():
        globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def check_args(w, kind, loss, calls, n):
    if [a[0] for a in calls] != list(range(n)):
        fail("%s: callback ran for iterations %s, should be 0..%d once each", w, [a[0] for a in calls], n - 1)
    for a in calls:
        if len(a) != {"als": 3, "bpr": 4, "lmf": 2}[kind] or not float(a[1]) >= 0 or not float(a[1]) < 3600:
            fail("%s: callback arguments %s", w, a)
        if kind == "als" and ((a[2] is None) == loss or (loss and not np.isfinite(a[2]))):
            fail("%s: callback loss %s with calculate_training_loss=%s", w, a[2], loss)


def do_prefix(c, ctx):
    k, d = c["cfg"], c["d"]
    kind = CFG[k]["kind"]
    X = data(d, kind)
    for n in range(c["n"] + 1):
        m, seen, calls = new(CFG[k], n), [], []

        def cb(*a):
            calls.append(a)
            seen.append(state(m))
        m.fit(X, show_progress=False, callback=cb)
        w = "%s data %d, %d iterations" % (CFG[k], d, n)
        check_args(w, kind, False, calls, n)
        for j, s in enumerate(seen):
            same("%s, seen by the callback after iteration %d" % (w, j), s, plain(k, d, j + 1))
            ctx.step()
        same(w, state(m), plain(k, d, n))
        for s in plain(k, d, n):
            ctx.state(s.tobytes())
        ctx.trace()


def do_options(c, ctx):
    k, d = c["cfg"], c["d"]
    kind = CFG[k]["kind"]
    X = data(d, kind)
    losses = set()
    for n in (1, 3):
        for bar, how, loss, level in itertools.product((False, True), (None, "kw", "pos", "attr", "both"), (False, True),
                                                       (logging.DEBUG, logging.INFO, logging.WARNING)):
            if kind != "als" and (loss or how in ("attr", "both")):
                continue
            m = new(CFG[k], n)
            if kind == "als":
                m.calculate_training_loss = loss
            logging.getLogger("implicit").setLevel(level)
            calls, other = [], []
            cb = lambda *a: calls.append(a)
            if how == "attr":
                m.fit_callback = cb
            if how == "both":
                m.fit_callback = lambda *a: other.append(a)
            if how == "pos":
                m.fit(X, bar, cb)
            elif how in ("kw", "both"):
                m.fit(user_items=X, show_progress=bar, callback=cb)
            else:
                m.fit(X, show_progress=bar)
            w = "%s data %d, %d iterations, progress bar %s, callback %s, loss %s, log level %s" % (CFG[k], d, n, bar, how, loss, level)
            same(w, state(m), plain(k, d, n))
            if how:
                check_args(w, kind, loss, calls, n)
                if other:
                    fail("%s: fit_callback was called as well as callback", w)
                if loss:
                    losses.add((n, tuple(a[2] for a in calls)))
            elif calls:
                fail("%s: callback called", w)
            ctx.step()
            ctx.outcome(how, bar, loss, level)
    # the reported losses are those of the same iterations
    for n, l in losses:
        ref = [x for y, x in losses if y == 3][0]
        if any(abs(a - b) > 1e-5 * (1 + abs(a)) for a, b in zip(l, ref)):
            fail("%s data %d: reported losses %s and %s of the same iterations differ", CFG[k], d, l, ref)
    ctx.trace()


def do_long(c, ctx):
    """training goes on for all iterations, also when nothing changes any more"""
    k, n = c["cfg"], c["n"]
    kind = CFG[k]["kind"]
    X = sp.csr_matrix(LONG[c["d"]].astype(np.float32))
    for reg in (0.01, 0.5, 10.0):
        ref, want = None, None
        for bar, cbk, loss in itertools.product((False, True), (False, True), (False, True) if kind == "als" else (False,)):
            m, calls, seen = new(CFG[k], n), [], []
            m.regularization = reg
            if kind == "als":
                m.calculate_training_loss = loss

            def cb(*a):
                calls.append(a)
                seen.append(state(m))
            try:
                m.fit(X, show_progress=bar, callback=cb if cbk else None)
            except Exception as e:
                got = type(e).__name__, None
            else:
                got = "ok", state(m)
            w = "%s data %s, regularization %s, %d iterations, progress bar %s, callback %s, loss %s" % (
                CFG[k], LONG[c["d"]].tolist(), reg, n, bar, cbk, loss)
            if ref is None:
                ref = got
            if got[0] != ref[0]:
                fail("%s: ends with %s, without observation with %s", w, got[0], ref[0])
            if got[0] != "ok":
                continue
            same(w, got[1], ref[1])
            if cbk:
                check_args(w, kind, loss, calls, n)
                if want is None:
                    want = seen
                for j in range(n):
                    same("%s, iteration %d" % (w, j), seen[j], want[j])
                if kind == "als":
                    # each iteration starts from the factors of the one before
                    for j in (0, n // 2, n - 2):
                        o = new(CFG[k], 1)
                        o.regularization = reg
                        o.user_factors, o.item_factors = (x.copy() for x in seen[j])
                        o.fit(X, show_progress=False)
                        same("%s, iteration %d and the next one" % (w, j), seen[j + 1], state(o))
            ctx.step(n)
        ctx.state(k, c["d"], reg)
    ctx.trace()


def ask(m, a, X):
    """one query; the answer as arrays"""
    items, users = m.item_factors.shape[0], m.user_factors.shape[0]
    if a == "sim":
        return m.similar_items(np.arange(items), items)
    if a == "simu":
        return m.similar_users(np.arange(users), users)
    if a == "rec":
        return m.recommend(np.arange(users), X, N=items, filter_already_liked_items=False)
    if a == "recalc":
        if not isinstance(m, mf_kinds()["als"]):
            return m.recommend(0, X[0], N=2)
        r = m.recommend(np.arange(users), X, N=items, filter_already_liked_items=False, recalculate_user=True)
        s = m.similar_items(np.arange(items), items, recalculate_item=True, item_users=X.T.tocsr())
        return r + s
    if a == "eval":
        from implicit.evaluation import ranking_metrics_at_k
        test = sp.csr_matrix((np.ones(users), (np.arange(users), np.arange(users) % items)), shape=(users, items))
        r = ranking_metrics_at_k(m, sp.csr_matrix((users, items), dtype=np.float32), test, K=3, show_progress=False, num_threads=1)
        return (np.array([r[x] for x in sorted(r)]),)
    if a == "pickle":
        return tuple(state(pickle.loads(pickle.dumps(m))))
    return ()


def holding(k, s):
    m = new(CFG[k], 1)
    m.user_factors, m.item_factors = s[0].copy(), s[1].copy()
    return m


def do_query(c, ctx):
    """what the callback asks is answered for the factors of that moment and leaves nothing behind"""
    k, d = c["cfg"], c["d"]
    X = data(d, CFG[k]["kind"])
    answers = {}

    def expect(it, a):
        if (it, a) not in answers:
            answers[it, a] = ask(holding(k, plain(k, d, it)), a, X)
        return answers[it, a]

    def agree(w, got, want):
        for x, y in zip(got, want):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape == y.shape and (x.dtype.kind != "f" or np.allclose(x, y, rtol=1e-5, atol=1e-6)):
                continue                        # (ids of equal scores may change places)
            if x.shape != y.shape or x.tobytes() != y.tobytes():
                fail("%s: answer %s, a model with these factors says %s", w, x.tolist(), y.tolist())
    for rest in itertools.product(ACTS, repeat=c["more"]):
        acts = list(c["pre"]) + list(rest)
        m = new(CFG[k], len(acts))

        def cb(it, *_):
            agree("%s, callback actions %s, %s in iteration %d" % (CFG[k], acts, acts[it], it), ask(m, acts[it], X), expect(it + 1, acts[it]))
            ctx.step()
        m.fit(X, show_progress=False, callback=cb)
        w = "%s data %d, callback actions %s" % (CFG[k], d, acts)
        same(w, state(m), plain(k, d, len(acts)))
        for a in ACTS:
            agree("%s, %s after training" % (w, a), ask(m, a, X), expect(len(acts), a))
        ctx.trace()
        ctx.state(k, d, acts)
    # the reference answers themselves
    s = plain(k, d, len(c["pre"]) + c["more"])
    for name, true, a in (("recommend", true_scores(s[0], s[1]), "rec"), ("similar_items", cosines(s[1], s[1]), "sim"),
                          ("similar_users", cosines(s[0], s[0]), "simu")):
        ids, sc = expect(len(c["pre"]) + c["more"], a)
        want = np.take_along_axis(true, np.asarray(ids), axis=1)
        if np.abs(want - sc).max() > 1e-4 * (1 + np.abs(want).max()):
            fail("%s %s: scores %s, should be %s", CFG[k], name, np.asarray(sc).tolist(), want.tolist())


class Stop(Exception):
    pass


def do_raise(c, ctx):
    """an exception of the callback stops training there and is passed on"""
    k, d = c["cfg"], c["d"]
    X = data(d, CFG[k]["kind"])
    for exc in (Stop, KeyboardInterrupt, StopIteration, ValueError):
        for at in range(c["n"]):
            for bar in (False, True):
                for first in ("none", "sim", "recalc"):
                    m, calls = new(CFG[k], c["n"]), []
                    err = exc("stop here")

                    def cb(it, *_):
                        calls.append(it)
                        ask(m, first, X)
                        if it == at:
                            raise err
                    w = "%s data %d, callback raises %s in iteration %d (progress bar %s)" % (CFG[k], d, exc.__name__, at, bar)
                    try:
                        m.fit(X, show_progress=bar, callback=cb)
                        fail("%s: fit returned normally", w)
                    except exc as e:
                        if e is not err:
                            raise
                    if calls != list(range(at + 1)):
                        fail("%s: callback ran for %s", w, calls)
                    same(w, state(m), plain(k, d, at + 1))
                    h = holding(k, plain(k, d, at + 1))
                    for a in ("sim", "simu", "recalc"):
                        for x, y in zip(ask(m, a, X), ask(h, a, X)):
                            if np.asarray(x).tobytes() != np.asarray(y).tobytes():
                                fail("%s: later %s answers %s, a model with these factors says %s", w, a, np.asarray(x).tolist(), np.asarray(y).tolist())
                    ctx.step()
                    ctx.state(k, d, exc.__name__, at, bar, first)
        ctx.trace()


def do_resume(c, ctx):
    """fitting again continues from the current factors"""
    k, d = c["cfg"], c["d"]
    kind = CFG[k]["kind"]
    X = data(d, kind)
    for total in range(1, c["n"] + 1):
        for a in range(total + 1):
            m = train(CFG[k], X, a)
            before = state(m)
            m.iterations = total - a
            m.fit(X, show_progress=False)
            w = "%s data %d, %d iterations and then %d more" % (CFG[k], d, a, total - a)
            if kind == "als":
                same(w, state(m), plain(k, d, total))
            h = holding(k, before)
            h.iterations = total - a
            h.fit(X, show_progress=False)
            same(w, state(m), state(h))
            if total == a:
                same(w, state(m), before)
            ctx.step(2)
            ctx.state(k, d, a, total)
    # also on data of another shape, and with no iterations at all
    other = data(1 - d, kind)
    for a, b in itertools.product((0, 2), (0, 1)):
        for first in ACTS:
            m = train(CFG[k], X, a)
            ask(m, first, X)
            m.iterations = b
            m.fit(other, show_progress=False)
            w = "%s data %d, %d iterations, %s, then %d on data of another shape" % (CFG[k], d, a, first, b)
            same(w, state(m), plain(k, 1 - d, b))
            h = holding(k, state(m))
            for q in ("sim", "simu", "rec", "recalc"):
                for x, y in zip(ask(m, q, other), ask(h, q, other)):
                    if np.asarray(x).tobytes() != np.asarray(y).tobytes():
                        fail("%s: %s answers %s, a model with these factors says %s", w, q, np.asarray(x).tolist(), np.asarray(y).tolist())
            ctx.step(5)
            ctx.state(k, d, "shape", a, b, first)
    ctx.trace()


def do_ann(c, ctx):
    from .c20 import wrap
    X = data(0, "als")
    for rec, sim in itertools.product((False, True), repeat=2):
        for n in (0, 1, 3):
            base = new(CFG[0], n)
            m, calls, seen = wrap(c["lib"], base, rec=rec, sim=sim), [], []

            def cb(*a):
                calls.append(a)
                seen.append(state(base))
                if a[0] % 2 == 0:
                    base.similar_items(0, 3)
            m.fit(X, show_progress=False, callback=cb)
            w = "%s wrapper, recommend %s, similar_items %s, %d iterations" % (c["lib"], rec, sim, n)
            check_args(w, "als", False, calls, n)
            for j, s in enumerate(seen):
                same(w, s, plain(0, 0, j + 1))
            same(w, state(base), plain(0, 0, n))
            q = wrap(c["lib"], new(CFG[0], n), rec=rec, sim=sim)
            q.fit(X, show_progress=False)
            same(w, state(q.model), plain(0, 0, n))
            ctx.step(len(seen) + 2)
            ctx.state(c["lib"], rec, sim, n)
            ctx.trace()
