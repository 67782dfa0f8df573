"""Equal seeds give equal models."""
import itertools
import json
import os
import subprocess
import sys
import warnings

import numpy as np
import scipy.sparse as sp

from ..lib import csr, det_matrix, fail, knn_kinds, mf_kinds

META = dict(
    technique="exhaustive enumeration of histories: every training configuration x seed form x every sequence (length <= 2, thorough 3) of earlier random activity in "
              "the process, comparing the bits of the learned state and of numpy's global generator; plus fresh processes with other hash seeds",
    bounds={"quick": "24 training and split configurations x 6 forms of random_state x all activity sequences of length <= 2 over 9 activities; thread counts 1-4 and 8 "
                     "where any count is promised; 2 fresh processes",
            "thorough": "activity sequences of length 3; larger data"},
    assumptions=["BLAS itself is deterministic on one thread"],
)
D = np.array([0, 0, 1, 2, 0, 5])[det_matrix(14, 11, 4, 0, 5)].astype(float)
D[3] = 0
D[:, 5] = 0
DATA = csr(D)
BIG = csr(np.array([0, 0, 0, 1])[det_matrix(120, 70, 9, 0, 3)].astype(float))
EMPTYISH = csr([[0, 0, 0], [0, 1, 0]])


class Lazy:
    def __getitem__(self, name):
        return mf_kinds()[name]


def configs():
    k = Lazy()
    out = {}
    for dt in ("float32", "float64"):
        for cg, native in ((True, True), (False, True), (True, False), (False, False)):
            out["als-%s-%s-%s" % (dt, "cg" if cg else "direct", "native" if native else "python")] = (
                lambda s, M, t=1, dt=dt, cg=cg, native=native: k["als"](
                    factors=4, iterations=2, dtype=np.dtype(dt), use_cg=cg, use_native=native, random_state=s, num_threads=t))
        for v in (True, False):
            out["bpr-%s-%s" % (dt, v)] = (lambda s, M, t=1, dt=dt, v=v: k["bpr"](
                factors=4, iterations=3, dtype=np.dtype(dt), verify_negative_samples=v, random_state=s, num_threads=t))
    for p in (1, 30):
        out["lmf-%d" % p] = lambda s, M, t=1, p=p: k["lmf"](factors=4, iterations=3, neg_prop=p, random_state=s, num_threads=t)
    return out


ANYTHREADS = ("als-", "raw", "cosine", "tfidf", "bm25")
SPLITS = {
    "tts-0.5": lambda s, M: _e().train_test_split(M, 0.5, s),
    "tts-0.9": lambda s, M: _e().train_test_split(M, 0.9, s),
    "lko-1": lambda s, M: _e().leave_k_out_split(M, 1, 0.0, s),
    "lko-2-0.5": lambda s, M: _e().leave_k_out_split(M, 2, 0.5, s),
    "lko-1-0.9": lambda s, M: _e().leave_k_out_split(M, 1, 0.9, s),
}


def _e():
    from implicit import evaluation
    return evaluation


def make_seed(form, v=42):
    return {"int": lambda: v, "np": lambda: np.int64(v), "rs": lambda: np.random.RandomState(v),
            "gen": lambda: np.random.default_rng(v), "mt": lambda: np.random.Generator(np.random.MT19937(v)),
            "advanced": lambda: advanced(v), "zero": lambda: 0}[form]()


def advanced(v):
    r = np.random.RandomState(v)
    r.rand(7)
    return r


FORMS = ("int", "np", "rs", "gen", "mt", "advanced", "zero")


def digest(name, s, M, t=1):
    if name in SPLITS:
        return b"|".join(x.toarray().tobytes() for x in SPLITS[name](s, M))
    if name in ("raw", "cosine", "tfidf", "bm25"):
        m = knn_kinds()[name](K=4, num_threads=t)
        m.fit(M, show_progress=False)
        return m.similarity.toarray().tobytes()
    m = configs()[name](s, M, t)
    m.fit(M, show_progress=False)
    return m.user_factors.tobytes() + m.item_factors.tobytes()


NAMES = list(configs()) + list(SPLITS) + ["cosine", "bm25"]


def act_model(kind, **kw):
    def f():
        m = mf_kinds()[kind](factors=3, iterations=1, num_threads=1, **kw)
        m.fit(EMPTYISH if kind != "bpr" else DATA, show_progress=False)
    return f


ACTS = {
    "seed": lambda: np.random.seed(5),
    "draw": lambda: np.random.rand(3),
    "pyrandom": lambda: __import__("random").random(),
    "als": act_model("als", random_state=1),
    "als-none": act_model("als"),
    "bpr": act_model("bpr"),
    "bpr-seeded": act_model("bpr", random_state=9),
    "lmf": act_model("lmf"),
    "split": lambda: (_e().train_test_split(DATA, 0.5), _e().leave_k_out_split(DATA, 1)),
}


def cases(tier):
    for name in NAMES:
        for form in FORMS:
            yield dict(t="history", name=name, form=form, depth=2 if tier == "quick" else 3)
        yield dict(t="threads", name=name)
        yield dict(t="none", name=name)
    for h in ("1", "77"):
        yield dict(t="process", hash=h)
    yield dict(t="ann")


def run_case(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def glob():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], repr(np.random.get_state(legacy=False))[:0])


def guarded(name, s, M, t=1):
    before = glob()
    d = digest(name, s, M, t)
    if glob() != before:
        fail("%s changed numpy's global random state", name)
    return d


def do_history(c, ctx):
    name, form = c["name"], c["form"]
    np.random.seed(123)
    ref = guarded(name, make_seed(form), DATA)
    for depth in range(c["depth"] + 1):
        for seq in itertools.product(ACTS, repeat=depth):
            for a in seq:
                ACTS[a]()
            if guarded(name, make_seed(form), DATA) != ref:
                fail("%s with random_state %s gives another result after %s", name, form, seq)
            ctx.step(depth + 1)
            ctx.trace()
            ctx.state(name, form, seq)
    ctx.outcome(ref)
    if name not in ("cosine", "bm25"):
        # the same generator object is consumed, not copied, and never the global one
        np.random.seed(1)
        a = digest(name, make_seed(form), DATA)
        np.random.seed(2)
        b = digest(name, make_seed(form), DATA)
        if a != b or a != ref:
            fail("%s with random_state %s depends on the global random state", name, form)
    # other data in between, larger data, and the first data again
    big = guarded(name, make_seed(form), BIG)
    if guarded(name, make_seed(form), DATA) != ref or guarded(name, make_seed(form), BIG) != big:
        fail("%s with random_state %s: not reproducible after training on other data", name, form)
    ctx.step(4)


def do_threads(c, ctx):
    name = c["name"]
    if not name.startswith(ANYTHREADS):
        return
    for M in (DATA, BIG):
        ref = digest(name, 3, M, 1)
        for t in (2, 3, 4, 8, 0):
            for rep in range(2):
                if digest(name, 3, M, t) != ref:
                    fail("%s: %d threads give other bits than one", name, t)
                ctx.step()
            ctx.state(name, t, M.shape)
        ctx.trace()


def do_none(c, ctx):
    """without a seed the global state is still left alone"""
    np.random.seed(9)
    guarded(c["name"], None, DATA)
    ctx.step()
    ctx.state(c["name"], "none")


def do_process(c, ctx):
    """another process, with another hash seed, learns the same bits"""
    prog = ("import sys,hashlib,json,warnings;warnings.simplefilter('ignore')\n"
            "from vp.checks.c21 import *\n"
            "print('DIGEST'+json.dumps({n+'/'+f: hashlib.sha256(digest(n, make_seed(f), DATA)).hexdigest()"
            " for n in NAMES for f in FORMS}))\n")
    env = dict(os.environ, PYTHONHASHSEED=c["hash"], OMP_NUM_THREADS="1")
    out = subprocess.run([sys.executable, "-c", prog], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    got = [x for x in out.stdout.splitlines() if x.startswith("DIGEST")]
    if not got:
        fail("training in a fresh process failed: %s", out.stdout[-1500:])
    got = json.loads(got[0][6:])
    import hashlib
    for n in NAMES:
        for f in FORMS:
            if hashlib.sha256(digest(n, make_seed(f), DATA)).hexdigest() != got[n + "/" + f]:
                fail("%s with random_state %s: another process learns something else", n, f)
            ctx.step()
            ctx.state("process", n, f, c["hash"])
    ctx.trace()


def do_ann(c, ctx):
    """wrapping a model does not change what it learns"""
    from .c20 import wrap
    for lib in ("annoy", "nmslib", "faiss"):
        ref = digest("als-float32-cg-native", 7, DATA)
        m = wrap(lib, configs()["als-float32-cg-native"](7, DATA))
        before = glob()
        m.fit(DATA, show_progress=False)
        if glob() != before:
            fail("%s changed numpy's global random state", lib)
        if m.model.user_factors.tobytes() + m.model.item_factors.tobytes() != ref:
            fail("a model wrapped by %s learns something else", lib)
        ctx.step()
        ctx.trace()
