"""Models in one process are independent of each other."""
import copy
import io
import itertools
import os
import pickle
import random
import warnings

import numpy as np
import scipy.sparse as sp

from ..lib import fail, knn_kinds, mf_kinds

META = dict(
    technique="exhaustive exploration of all merges of two operation histories on two real models (also on a model and its copy), each compared with the same history alone in a new process, "
              "and stateless model checking of two threads working on two models under a controlled scheduler (all interleavings up to a preemption bound)",
    variant="sched",
    bounds={"quick": "10 kinds of models; all histories fit, x, y with x, y out of training on other data, training again, partial training, two query groups; all 20 merges (in rotation) of "
                     "two such histories for models of the same kind (same and different parameters) and neighbouring kinds; all sequences of 2 operations on a model and its pickled, "
                     "loaded or deep copy; the process's global random generators, NumPy error handling and print options, environment, folder and warning filters before and after every operation; two threads (train/train, train/query, query/query): preemption bound 1 at lines",
            "thorough": "all pairs of kinds and all merges; sequences of 3 operations on a model and its copy; preemption bound 2"},
    assumptions=["num_threads=1; a NumPy/SciPy call is one step between the points of the code under test", "models do not share a random generator object or factor arrays by the caller's doing"],
    cap={"quick": 400, "thorough": 7200},
)
TREE = None
X0 = np.array([[3, 0, 2, 0, 1], [0, 1, 4, 0, 0], [2, 0, 0, 0, 3], [0, 0, 0, 0, 0], [1, 5, 0, 0, 0], [0, 2, 1, 1, 4]], dtype=np.float32)
X1 = np.array([[1, 0, 0, 0, 1], [0, 1, 1, 0, 0], [0, 3, 0, 0, 3], [1, 0, 0, 2, 0], [1, 0, 2, 0, 0], [0, 2, 0, 1, 0]], dtype=np.float32)
Y0 = np.array([[1, 0, 2], [0, 1, 4], [2, 0, 1], [0, 3, 0]], dtype=np.float32)
KINDS = ["als", "als64", "alspy", "bpr", "lmf", "raw", "cosine", "tfidf", "bm25", "annoy"]
ALS = ("als", "als64", "alspy")


def new(kind, v=0):
    """v: other parameters"""
    mf = dict(factors=2 + v, iterations=2 + v, num_threads=1, random_state=3 + v, regularization=(0.1, 0.4)[v])
    if kind in ALS:
        kw = {"als": {}, "als64": dict(use_cg=False, dtype=np.float64, alpha=(2.0, 0.5)[v]), "alspy": dict(use_cg=False, use_native=False)}[kind]
        if v and kind == "als":
            kw = dict(alpha=1.5, dtype=np.float64)
        m = mf_kinds()["als"](**mf, **kw)
        m.cg_steps = (3, 1)[v]
        return m
    if kind in ("bpr", "lmf"):
        kw = {} if not v else dict(verify_negative_samples=False, dtype=np.float64) if kind == "bpr" else dict(neg_prop=2)
        return mf_kinds()[kind](**mf, learning_rate=(0.3, 0.7)[v], **kw)
    if kind == "annoy":
        from implicit.ann.annoy import AnnoyModel
        return AnnoyModel(new("als", v), n_trees=3 + v)
    kw = dict(K1=(1.2, 2.0)[v], B=(0.75, 0.3)[v]) if kind == "bm25" else {}
    return knn_kinds()[kind](K=(3, 2)[v], num_threads=1, **kw)


def flat(r, out):
    for x in r if isinstance(r, (tuple, list)) else (r,):
        if isinstance(x, (tuple, list)):
            flat(x, out)
        elif sp.issparse(x):
            out.append(x.toarray())
        elif x is not None:
            out.append(np.array(x))
    return out


SHARED = dict(X0=sp.csr_matrix(X0), X1=sp.csr_matrix(X1), Y0=sp.csr_matrix(Y0), filt=np.array([1]))


def shape(m):
    m = getattr(m, "model", m)
    if getattr(m, "item_factors", None) is not None:
        return m.user_factors.shape[0], m.item_factors.shape[0]
    return 4, m.similarity.shape[0]


def op(m, kind, o):
    """runs the operation, returns (model, answer arrays)"""
    S = SHARED
    if o == "fit":
        m.fit(S["X0"], show_progress=False)
    elif o == "fit1":
        m.fit(S["X1"], show_progress=False)
    elif o == "fitY":
        m.fit(S["Y0"], show_progress=False)
    elif o == "part":
        u, i = shape(m)
        m.partial_fit_users(np.array([1, u]), S["X1"][:2, :i])
        m.partial_fit_items(np.array([1]), sp.csr_matrix(np.ones((1, u + 1), dtype=np.float32)))
    elif o == "q":
        u, i = shape(m)
        rows = S["X0"][[0, 2], :i]
        r = [m.recommend([0, 2], rows, N=3), m.similar_items([0, 2], N=3), m.recommend(0, rows[0], N=2, filter_items=S["filt"])]
        if kind in ALS:
            r += [m.similar_users(1, N=3), m.explain(0, rows, 1)[:2]]
        return m, flat(r, [])
    elif o == "q2":
        u, i = shape(m)
        rows = S["X1"][[1], :i]
        r = [m.recommend(1, rows, N=i, filter_already_liked_items=False), m.similar_items(1, N=i)]
        if kind in ALS:
            r += [m.recommend(1, rows, N=3, recalculate_user=True), m.recalculate_item([0], sp.csr_matrix(np.ones((1, u), dtype=np.float32)))]
        if kind != "annoy":
            r += [m.recommend(1, rows, N=2, items=[2, 0])]
        return m, flat(r, [])
    elif o == "pickle":
        m = pickle.loads(pickle.dumps(m))
    elif o == "load":
        f = io.BytesIO()
        m.save(f)
        f.seek(0)
        m = type(m).load(f)
    elif o == "deep":
        m = copy.deepcopy(m)
    return m, []


def alphabet(kind):
    return ["fit1", "fitY", "q", "q2"] + (["part"] if kind in ALS else ["fit"])


def run(seq, kind, v):
    m, out = new(kind, v), []
    for o in seq:
        m, a = op(m, kind, o)
        out.append(a)
    return m, out


def final(m, kind):
    out = op(m, kind, "q")[1] + op(m, kind, "q2")[1]
    return out + ([m.user_factors, m.item_factors] if hasattr(m, "user_factors") else [m.similarity.toarray()] if hasattr(m, "similarity") else [])


def agree(w, got, want):
    if len(got) != len(want):
        fail("%s: %d results, alone %d", w, len(got), len(want))
    for x, y in zip(got, want):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape == y.shape and (x.dtype.kind != "f" or np.allclose(x, y, rtol=1e-5, atol=1e-6)):
            continue
        fail("%s: %s, alone %s", w, x.tolist(), y.tolist())


_alone = {}


def alone(seq, kind, v):
    key = tuple(seq), kind, v
    if key not in _alone:
        _alone[key] = ZYGOTE.call(list(seq), kind, v)
    return _alone[key]


def lonely(seq, kind, v):
    m, out = run(seq, kind, v)
    return out, final(m, kind)


ZYGOTE = None


def cases(tier):
    deep = tier != "quick"
    pairs = []
    for a, k in enumerate(KINDS):
        pairs += [(k, 0, k, 0), (k, 0, k, 1), (k, 0, KINDS[(a + 1) % len(KINDS)], 0), (KINDS[(a + 5) % len(KINDS)], 1, k, 0)]
    if deep:
        pairs = [(a, 0, b, v) for a in KINDS for b in KINDS for v in (0, 1)]
    for a, va, b, vb in pairs:
        if a == b and va == vb:
            # copies
            if a != "annoy":
                for how in ("pickle", "load", "deep"):
                    yield dict(t="copy", kind=a, how=how, n=3 if deep else 2)
        for x in alphabet(a):
            yield dict(t="merge", a=a, va=va, b=b, vb=vb, x=x, deep=deep)
    TH = [k for k in KINDS if k not in ("annoy",)]
    for n, k in enumerate(TH):
        for k2, v in ((k, 0), (k, 1), (TH[(n + 2) % len(TH)], 0)):
            if not deep and (v or k in ("alspy", "tfidf")):
                continue
            for x, y in (("fit", "fit1"), ("fit1", "q"), ("fitY", "q2"), ("q", "q")):
                yield dict(t="thr", a=k, b=k2, vb=v, x=x, y=y, bound=2 if deep else 1)


def setup(tier, seed):
    global TREE
    from .. import pythreads
    TREE = pythreads.install()
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    import tqdm.auto
    tqdm.auto.tqdm.monitor_interval = 0
    global ZYGOTE
    from ..pristine import Pristine
    import implicit.als, implicit.bpr, implicit.lmf, implicit.nearest_neighbours, implicit.ann.annoy  # noqa: E401,F401
    ZYGOTE = Pristine(lonely)


WARM = []


def run_case(c, ctx):
    if not WARM:            # modules that get imported on the first use are not the models' doing
        WARM.append(1)
        for k in KINDS:
            lonely(["fit"] + alphabet(k), k, 0)
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def ambient():
    """what belongs to the whole process, not to a model"""
    r = np.random.get_state()
    return dict(numpy_random=(r[1].tobytes(), r[2:]), python_random=random.getstate(), numpy_errors=np.geterr(), print_options=repr(np.get_printoptions()), environment=dict(os.environ),
                folder=os.getcwd(), warning_filters=list(map(repr, warnings.filters)))


MERGES = [set(s) for s in itertools.combinations(range(6), 3)]


def do_merge(c, ctx):
    a, va, b, vb = c["a"], c["va"], c["b"], c["vb"]
    AB = alphabet(b)
    for n, (y, x2, y2) in enumerate(itertools.product(alphabet(a), AB, AB)):
        sa, sb = ["fit", c["x"], y], ["fitY" if n % 3 == 0 else "fit", x2, y2]
        ra, rb = alone(sa, a, va), alone(sb, b, vb)
        for mg in MERGES if c["deep"] else MERGES[n % 10::10]:
            ms = [new(a, va), new(b, vb)]
            pos, outs = [0, 0], [[], []]
            order = []
            for t in range(6):
                who = 0 if t in mg else 1
                o = (sa, sb)[who][pos[who]]
                pos[who] += 1
                order.append("AB"[who] + "." + o)
                amb = ambient()
                ms[who], ans = op(ms[who], (a, b)[who], o)
                for k, v in ambient().items():
                    if v != amb[k]:
                        fail("A=%s(%d) and B=%s(%d), history %s: the last operation changes the process's %s", a, va, b, vb, order, k.replace("_", " "))
                outs[who].append(ans)
                ctx.step()
            w = "A=%s(%d) and B=%s(%d), history %s" % (a, va, b, vb, order)
            for who, r in ((0, ra), (1, rb)):
                for k in range(3):
                    agree("%s: answer of %s.%s" % (w, "AB"[who], (sa, sb)[who][k]), outs[who][k], r[0][k])
                agree("%s: %s afterwards" % (w, "AB"[who]), final(ms[who], (a, b)[who]), r[1])
            ctx.trace()
            ctx.state(a, va, b, vb, order)


def do_copy(c, ctx):
    kind, how = c["kind"], c["how"]
    for warm in (False, True):
        start = ["fit"] + (["q", "q2"] if warm else [])
        for seq in itertools.product(itertools.product("AB", alphabet(kind)), repeat=c["n"]):
            if len({w for w, _ in seq}) < 2:
                continue
            m, _ = run(start, kind, 0)
            ms = {"A": m, "B": op(m, kind, how)[0]}
            outs = {"A": [], "B": []}
            for who, o in seq:
                ms[who], ans = op(ms[who], kind, o)
                outs[who].append(ans)
                ctx.step()
            for who in "AB":
                own = [o for x, o in seq if x == who]
                pre = start + ([how] if who == "B" else [])
                out, fin = alone(pre + own, kind, 0)
                w = "%s, B = %s copy of A after %s, then %s" % (kind, how, start, ["%s.%s" % s for s in seq])
                for k, o in enumerate(own):
                    agree("%s: answer of %s.%s" % (w, who, o), outs[who][k], out[len(pre) + k])
                agree("%s: %s afterwards" % (w, who), final(ms[who], kind), fin)
            ctx.trace()
            ctx.state(kind, how, warm, seq)


def do_thr(c, ctx):
    from .. import pythreads, sched
    kinds, vs, ops = (c["a"], c["b"]), (0, c["vb"]), (c["x"], c["y"])
    ref = [alone(["fit", ops[k]], kinds[k], vs[k]) for k in (0, 1)]
    h = {}

    def prepared():
        h["m"] = [run(["fit"], kinds[k], vs[k])[0] for k in (0, 1)]
        h["calls"] = [lambda k=k: op(h["m"][k], kinds[k], ops[k])[1] for k in (0, 1)]

    def body():
        return pythreads.run(h["calls"], TREE, False)
    stats = {}
    prepared()
    for r in sched.explore(body, c["bound"], -1, 400000, stats, ctx.late, None):
        ctx.step(len(r.chosen) + 1)
        ctx.trace()
        ctx.state(c["a"], c["b"], c["vb"], ops, r.key())
        w = "%s.%s and another model's %s.%s in parallel, schedule %s" % (kinds[0], ops[0], kinds[1], ops[1], r.show())
        for k in (0, 1):
            if r.out[k][0] != "ok":
                fail("%s: the %s call raises %s", w, ("first", "second")[k], r.out[k][1])
            agree("%s: answer of the %s" % (w, ("first", "second")[k]), r.out[k][1], ref[k][0][1])
            if stats["schedules"] % 4 != 1 and ops[k][0] == "q":
                continue
            agree("%s: the %s model afterwards" % (w, ("first", "second")[k]), final(h["m"][k], kinds[k]), ref[k][1])
        prepared()
    for k, v in stats.items():
        ctx.count(k, v)
