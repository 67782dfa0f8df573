"""Factory functions and constructors build exactly the model that was asked for."""
import itertools

import numpy as np

from ..lib import csr, fail

META = dict(
    technique="exhaustive enumeration of all argument combinations (every subset of the parameters given by keyword, every positional prefix, every pair of values) "
              "of every factory and constructor; the resulting model's parameters and the models it trains compared with the documented meaning",
    bounds={"quick": "implicit.als/bpr/lmf factories and the cpu classes, the Annoy/NMSLib/Faiss ALS factories, the item-item models: all subsets of parameters by keyword (up to 2^10), all "
                     "positional prefixes combined with every single keyword, 2-4 values each (also 0 and empty ones); trained factors of factory and class compared for each single parameter changed and each pair",
            "thorough": "all positional prefixes combined with all subsets of the remaining parameters; three values per parameter"},
    assumptions=["no GPU is present, so a GPU model can only be refused"],
)
F32, F64 = "float32", "float64"
# documented parameters in order: name, default, other values
SPEC = {
    "als": [("factors", 100, 3, 7), ("regularization", 0.01, 0.5, 0.0), ("alpha", 1.0, 2.5, 0.5), ("dtype", F32, F64, F64), ("use_native", True, False, False),
            ("use_cg", True, False, False), ("iterations", 15, 2, 0), ("calculate_training_loss", False, True, True), ("num_threads", 0, 1, 2),
            ("random_state", None, 42, 7)],
    "bpr": [("factors", 100, 3, 7), ("learning_rate", 0.01, 0.25, 1.0), ("regularization", 0.01, 0.5, 0.0), ("dtype", F32, F64, F64), ("iterations", 100, 2, 0),
            ("num_threads", 0, 1, 2), ("verify_negative_samples", True, False, False), ("random_state", None, 42, 7)],
    "lmf": [("factors", 30, 3, 7), ("learning_rate", 1.0, 0.25, 0.5), ("regularization", 0.6, 0.1, 0.0), ("dtype", F32, F64, F64), ("iterations", 30, 2, 0),
            ("neg_prop", 30, 2, 5), ("num_threads", 0, 1, 2), ("random_state", None, 42, 7)],
    "knn": [("K", 20, 3, 50), ("num_threads", 0, 1, 2)],
    "bm25": [("K", 20, 3, 50), ("K1", 1.2, 2.0, 0.5), ("B", 0.75, 0.1, 0.0), ("num_threads", 0, 1, 2)],
    "annoy": [("approximate_similar_items", True, False, False), ("approximate_recommend", True, False, False), ("n_trees", 50, 3, 10), ("search_k", -1, 100, 9)],
    "nmslib": [("approximate_similar_items", True, False, False), ("approximate_recommend", True, False, False), ("method", "hnsw", "sw-graph", "vptree"),
               ("index_params", None, {"M": 8}, {}), ("query_params", None, {"ef": 7}, {})],
    "faiss": [("approximate_similar_items", True, False, False), ("approximate_recommend", True, False, False), ("nlist", 400, 5, 1), ("nprobe", 20, 2, 1)],
}
# position of use_gpu in the factory's signature
GPU = {"als": 6, "bpr": 5, "lmf": 6}


def target(name):
    """callable, parameter list, class"""
    if name.startswith("f-"):
        import implicit.als, implicit.bpr, implicit.lmf
        k = name[2:]
        return {"als": implicit.als.AlternatingLeastSquares, "bpr": implicit.bpr.BayesianPersonalizedRanking,
                "lmf": implicit.lmf.LogisticMatrixFactorization}[k], k, cls(k)
    if name.startswith("ann-"):
        import implicit.approximate_als as aa
        k = name[4:]
        return {"annoy": aa.AnnoyAlternatingLeastSquares, "nmslib": aa.NMSLibAlternatingLeastSquares, "faiss": aa.FaissAlternatingLeastSquares}[k], k, None
    if name.startswith("knn-"):
        from implicit import nearest_neighbours as nn
        c = {"item": nn.ItemItemRecommender, "cosine": nn.CosineRecommender, "tfidf": nn.TFIDFRecommender, "bm25": nn.BM25Recommender}[name[4:]]
        return c, "bm25" if name == "knn-bm25" else "knn", c
    return cls(name), name, cls(name)


def cls(k):
    from implicit.cpu.als import AlternatingLeastSquares
    from implicit.cpu.bpr import BayesianPersonalizedRanking
    from implicit.cpu.lmf import LogisticMatrixFactorization
    return {"als": AlternatingLeastSquares, "bpr": BayesianPersonalizedRanking, "lmf": LogisticMatrixFactorization}[k]


TARGETS = ["f-als", "f-bpr", "f-lmf", "als", "bpr", "lmf", "knn-item", "knn-cosine", "knn-tfidf", "knn-bm25", "ann-annoy", "ann-nmslib", "ann-faiss"]


def cases(tier):
    deep = tier != "quick"
    for t in TARGETS:
        for v in (0, 1, 3) if not deep else (0, 1, 2, 3):
            yield dict(t="subsets", of=t, v=v)
        if not t.startswith("ann"):
            yield dict(t="positional", of=t, deep=deep)
        yield dict(t="gpu", of=t)
    for k in ("als", "bpr", "lmf"):
        yield dict(t="train", kind=k)
    for k in ("annoy", "nmslib", "faiss"):
        yield dict(t="alsargs", lib=k)


# values that a careless default would swallow
FALSY = {"random_state": 0, "alpha": 0.0, "regularization": 0, "learning_rate": 0.0, "iterations": 0, "neg_prop": 0, "K": 1, "K1": 0.0, "B": 0.0, "num_threads": 1,
         "n_trees": 1, "search_k": 1, "nprobe": 1, "nlist": 1, "factors": 1, "index_params": {}, "query_params": {}}


def value(p, v):
    if v == 3:
        return FALSY.get(p[0], value(p, 0))
    return np.dtype(p[2 + v % 2]) if p[0] == "dtype" and v == 1 else (getattr(np, p[2 + v % 2]) if p[0] == "dtype" else p[2 + v % 2])


def eq(name, got, want):
    if name == "dtype":
        return np.dtype(got) == np.dtype(want)
    if want is None or isinstance(want, (bool, str, dict)):
        return got == want and isinstance(got, type(want))
    return got == want


def check(w, m, k, given):
    for p in SPEC[k]:
        name = p[0]
        want = given.get(name, p[1])
        if k == "nmslib" and name in ("index_params", "query_params") and want is None:
            continue
        if not hasattr(m, name):
            fail("%s: the model has no %s", w, name)
        got = getattr(m, name)
        if not eq(name, got, want):
            fail("%s: %s is %r, should be %r", w, name, got, want)


def build(name, args, kw):
    f, k, klass = target(name)
    m = f(*args, **kw)
    if klass is not None and type(m) is not klass:
        fail("%s%s %s gives a %s", name, args, kw, type(m))
    return m, k


def nogpu(name):
    return {"use_gpu": False} if name.startswith("f-") or name.startswith("ann-") else {}


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def do_subsets(c, ctx):
    _, k, _ = target(c["of"])
    ps = SPEC[k]
    for bits in itertools.product((0, 1), repeat=len(ps)):
        # values alternate between the two alternatives (or one of them everywhere)
        chosen = [(p, c["v"] if c["v"] == 3 else (c["v"] + (i if c["v"] == 2 else 0)) % 2) for i, (b, p) in enumerate(zip(bits, ps)) if b]
        kw = {p[0]: value(p, v) for p, v in chosen}
        if sum(bits) % 2:
            kw = dict(reversed(list(kw.items())))
        m, k = build(c["of"], (), dict(kw, **(nogpu(c["of"]) if sum(bits) % 3 else {})))
        check("%s(%s)" % (c["of"], kw), m, k, kw)
        ctx.state(c["of"], c["v"], bits)
        ctx.step()
    ctx.trace()


def do_positional(c, ctx):
    _, k, _ = target(c["of"])
    ps = [tuple(p) for p in SPEC[k]]
    factory = c["of"].startswith("f-")
    order = list(ps)
    if factory:
        order.insert(GPU[k], ("use_gpu", False, False, False))
    for n in range(len(order) + 1):
        for v in (0, 1, 3):
            args = [value(p, v) for p in order[:n]]
            given = {p[0]: a for p, a in zip(order, args) if p[0] != "use_gpu"}
            rest = [p for p in order[n:] if p[0] != "use_gpu"]
            sets = [()] + [(p,) for p in rest]
            if c["deep"]:
                sets = itertools.chain.from_iterable(itertools.combinations(rest, r) for r in range(len(rest) + 1))
            for s in sets:
                kw = {p[0]: value(p, (1, 0, 0, 0)[v]) for p in s}
                m, k = build(c["of"], tuple(args), kw)
                check("%s(*%s, **%s)" % (c["of"], args, kw), m, k, dict(given, **kw))
                ctx.state(c["of"], n, v, sorted(kw))
                ctx.step()
    ctx.trace()


def do_gpu(c, ctx):
    """a GPU model can't be had here: refused with an error, never silently replaced"""
    import implicit.gpu
    if implicit.gpu.HAS_CUDA or not (c["of"].startswith("f-") or c["of"].startswith("ann-")):
        return
    f, k, _ = target(c["of"])
    for kw in ({}, {"random_state": 3}, {"iterations": 2}):
        try:
            m = f(use_gpu=True, **kw)
        except Exception:
            ctx.outcome("refused")
            ctx.step()
            continue
        fail("%s(use_gpu=True) gives a %s", c["of"], type(m))
    ctx.state(c["of"], "gpu")
    ctx.trace()


def do_train(c, ctx):
    """what a factory's model learns is what the class learns, and every parameter matters the same way in both"""
    k = c["kind"]
    X = csr([[1, 2, 0, 0, 1], [0, 1, 3, 0, 0], [2, 0, 0, 1, 0], [0, 0, 1, 1, 2], [1, 0, 0, 0, 0], [0, 1, 1, 0, 2]])
    f, klass = target("f-" + k)[0], cls(k)
    base = dict(factors=4, iterations=2, num_threads=1, random_state=5)
    ps = SPEC[k]
    for a, b in itertools.combinations_with_replacement(ps, 2):
        for v in (0, 1, 3):
            kw = dict(base, **{p[0]: value(p, v) for p in (a, b)})
            if kw["random_state"] is None or kw["num_threads"] != 1 and k != "als":
                kw["num_threads"] = 1
            m, o = f(use_gpu=False, **kw), klass(**kw)
            m.fit(X, show_progress=False)
            o.fit(X, show_progress=False)
            for x in ("user_factors", "item_factors"):
                p, q = getattr(m, x), getattr(o, x)
                if p.dtype != q.dtype or p.shape != q.shape or p.tobytes() != q.tobytes():
                    fail("%s %s: the factory's model has other %s than the class's: %s, %s", k, kw, x, p.tolist(), q.tolist())
            width = kw["factors"] + {"als": 0, "bpr": 1, "lmf": 2}[k]
            if m.user_factors.shape != (6, width) or m.item_factors.shape != (5, width):
                fail("%s %s: factors of shape %s and %s", k, kw, m.user_factors.shape, m.item_factors.shape)
            if k != "lmf" and m.user_factors.dtype != np.dtype(kw.get("dtype", F32)):
                fail("%s %s: factors are %s", k, kw, m.user_factors.dtype)
            ctx.step()
            ctx.state(k, sorted((x, str(y)) for x, y in kw.items()))
    ctx.trace()


def do_alsargs(c, ctx):
    """the ANN factories pass the ALS parameters on, by position and by keyword"""
    f, lib, _ = target("ann-" + c["lib"])
    ps = SPEC["als"]
    own = SPEC[lib]
    own_sets = [{}] + [{p[0]: value(p, 0)} for p in own] + [{p[0]: value(p, 1) for p in own}]
    for bits in itertools.product((0, 1), repeat=len(ps)):
        kw = {p[0]: value(p, sum(bits) % 2) for b, p in zip(bits, ps) if b}
        o = own_sets[(sum(bits) * 5 + bits[0] + 3 * bits[3]) % len(own_sets)]
        m = f(use_gpu=False, **kw, **o)
        if type(m.model) is not cls("als"):
            fail("%s factory wraps a %s", lib, type(m.model))
        check("%s factory %s %s" % (lib, kw, o), m.model, "als", kw)
        check("%s factory %s %s" % (lib, kw, o), m, lib, o)
        ctx.state(lib, bits)
        ctx.step()
    for n in range(7):
        for v in (0, 1):
            for o in own_sets:
                args = [value(p, v) for p in ps[:n]]
                m = f(*args, **o)
                check("%s factory *%s %s" % (lib, args, o), m.model, "als", dict(zip([p[0] for p in ps], args)))
                check("%s factory *%s %s" % (lib, args, o), m, lib, o)
                ctx.state(lib, n, v, sorted(o))
                ctx.step()
    ctx.trace()
