"""Ranking metrics."""
import itertools
import math

import numpy as np
import scipy.sparse as sp

from ..core import short
from ..lib import det_matrix, fail, knn_kinds, make_mf, powerset

META = dict(
    technique="exhaustive enumeration of test sets x recommendation lists x K over a small catalogue with a stub recommender, and user counts across "
              "the internal batch size; all metrics compared with their definitions in exact order",
    bounds={"quick": "catalogue of 4 items: all non-empty test sets x all ranked lists of every length 0..4 (65 lists) x K 1..6, single users and all pairs of "
                     "users; catalogue of 5 with real models (ALS, BPR, LMF, 4 item-item), all assignments of each item to train, test, both or none for 2 users; user counts 1..3001 "
                     "around multiples of 1000 incl. users without test items; threads {0,1,2,4}",
            "thorough": "catalogue of 5 items for single users; all triples of a reduced set of users"},
    assumptions=["the average over no users, and AUC without negatives, are left undefined"],
)


class Stub:
    """recommends a given list for each user"""

    def __init__(self, lists, n, width=None):
        self.lists, self.n, self.width = lists, n, width     # width: at most so many columns

    def recommend(self, userid, user_items, N=10, **kw):
        if np.isscalar(userid):
            ids, sc = self.recommend([userid], user_items, N)
            return ids[0], sc[0]
        if user_items.shape[0] != len(userid):
            fail("metrics passed %d rows of interactions for %d users", user_items.shape[0], len(userid))
        N = min(N, self.width or N)
        out = np.full((len(userid), N), -1, dtype=np.int32)
        sc = np.full((len(userid), N), -3.4e38, dtype=np.float32)
        for r, u in enumerate(np.asarray(userid).tolist()):
            lst = self.lists[u][:N]
            out[r, :len(lst)] = lst
            sc[r, :len(lst)] = np.arange(len(lst), 0, -1)
        return out, sc


def definition(lists, tests, K, n):
    """exact metrics for the users with test items"""
    rel = div = 0.0
    maps, ndcgs, aucs = [], [], []
    for lst, test in zip(lists, tests):
        if not test:
            continue
        lst = list(lst)[:K]
        hits = [1 if i in test else 0 for i in lst]
        rel += sum(hits)
        div += min(K, len(test))
        h, ap = 0, 0.0
        for p, x in enumerate(hits):
            if x:
                h += 1
                ap += h / (p + 1)
        maps.append(ap / min(K, len(test)))
        dcg = sum(x / math.log2(p + 2) for p, x in enumerate(hits))
        ndcgs.append(dcg / sum(1 / math.log2(p + 2) for p in range(min(K, len(test)))))
        pos = len(test)
        neg = n - pos
        if neg:
            ranked = {i: p for p, i in enumerate(lst)}
            s = 0.0
            for a in test:
                for b in range(n):
                    if b in test:
                        continue
                    pa, pb = ranked.get(a), ranked.get(b)
                    if pa is None and pb is None:
                        s += 0.5
                    elif pb is None:
                        s += 1
                    elif pa is None:
                        s += 0
                    else:
                        s += pa < pb
            aucs.append(s / (pos * neg))
        else:
            aucs.append(None)
    if not maps:
        return None
    return dict(precision=rel / div, map=sum(maps) / len(maps), ndcg=sum(ndcgs) / len(ndcgs),
                auc=None if None in aucs else sum(aucs) / len(aucs))


def mats(tests, n, dtype=np.float32, vals=None):
    indptr = np.cumsum([0] + [len(t) for t in tests])
    ind = [i for t in tests for i in sorted(t)]
    return sp.csr_matrix((np.ones(len(ind), dtype=dtype) if vals is None else np.resize(np.array(vals, dtype=dtype), len(ind)), ind, indptr), shape=(len(tests), n))


def compare(what, got, want):
    for k, w in want.items():
        if w is None:
            continue
        g = got[k]
        if not abs(g - w) <= 1e-9:
            fail("%s: %s is %r, should be %r", what, k, g, w)
        if not -1e-12 <= g <= 1 + 1e-9:
            fail("%s: %s is %r", what, k, g)


def all_lists(n):
    return [list(p) for L in range(n + 1) for p in itertools.permutations(range(n), L)]


def cases(tier):
    n = 4
    for K in range(1, n + 3):
        yield dict(t="one", n=n, K=K)
    if tier != "quick":
        for K in range(1, 8):
            yield dict(t="one", n=5, K=K)
    L3 = all_lists(3)
    for K in range(1, 5):
        for a in range(len(L3)):
            yield dict(t="two", K=K, a=a)
    for kind in ("als", "bpr", "lmf", "raw", "cosine", "tfidf", "bm25"):
        for K in (1, 2, 3, 5, 9):
            yield dict(t="real", kind=kind, K=K)
    for u in (1, 2, 999, 1000, 1001, 1999, 2000, 2001, 3001):
        for gap in (0, 1, 2):
            for thr in (0, 1, 4):
                yield dict(t="many", u=u, gap=gap, thr=thr)


def evals():
    from implicit import evaluation as e
    return e


def call_all(model, train, test, K, thr=1):
    e = evals()
    r = e.ranking_metrics_at_k(model, train, test, K=K, show_progress=False, num_threads=thr)
    single = dict(precision=e.precision_at_k, map=e.mean_average_precision_at_k, ndcg=e.ndcg_at_k, auc=e.AUC_at_k)
    return r, single


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def do_one(c, ctx):
    n, K = c["n"], c["K"]
    empty = sp.csr_matrix((1, n), dtype=np.float32)
    for test in powerset(range(n)):
        if not test or len(test) == n:       # no negatives: AUC is undefined
            continue
        T = mats([test], n)
        for k, lst in enumerate(all_lists(n)):
            stub = Stub([lst], n)
            want = definition([lst], [set(test)], K, n)
            r, single = call_all(stub, empty, T, K)
            what = "list %s test %s K=%d of %d items" % (lst, test, K, n)
            compare(what, r, want)
            if len(lst) < n:
                r, _ = call_all(Stub([lst], n, max(1, len(lst))), empty, T, K)
                compare(what + " (narrow result)", r, want)
            if k % 5 == 0:
                got = {m: f(stub, empty, T, K=K, show_progress=False) for m, f in single.items()}
                compare(what + " (single metric)", got, want)
            ctx.step()
            ctx.trace()
        ctx.state("one", n, K, test)


def do_two(c, ctx):
    n, K = 3, c["K"]
    L = all_lists(n)
    tests = [t for t in powerset(range(n))]
    tr = sp.csr_matrix((2, n), dtype=np.float32)
    for t1 in tests:
        for t2 in tests:
            if not t1 and not t2 or n in (len(t1), len(t2)):
                continue
            T = mats([t1, t2], n)
            for b in range(0, len(L), 1):
                lists = [L[c["a"]], L[b]]
                want = definition(lists, [set(t1), set(t2)], K, n)
                r, _ = call_all(Stub(lists, n), tr, T, K)
                compare("lists %s tests %s K=%d" % (lists, (t1, t2), K), r, want)
                # the values of the test interactions don't matter
                r, _ = call_all(Stub(lists, n), tr, mats([t1, t2], n, vals=[(1, -1), (-2, 5), (0.5, -3, 1)][b % 3]), K)
                compare("lists %s tests %s K=%d, signed values" % (lists, (t1, t2), K), r, want)
                ctx.step()
                ctx.trace()
    ctx.state("two", K, c["a"])


def do_real(c, ctx):
    n, K, kind = 5, c["K"], c["kind"]
    k = 0
    for split in itertools.product((0, 1, 2, 3), repeat=n):     # 0 unseen, 1 train, 2 test, 3 both for the first user
        other = [(x * 3 + i) % 4 for i, x in enumerate(split)]
        train = np.array([[float(x in (1, 3)) for x in split], [float(x in (1, 3)) for x in other], [1, 1, 0, 0, 1], [0, 1, 1, 1, 0]])
        tests = [{i for i, x in enumerate(split) if x >= 2}, {i for i, x in enumerate(other) if x >= 2}, set(), {0}]
        if kind in ("als", "bpr", "lmf"):
            m = make_mf(kind, det_matrix(4, 3, k), det_matrix(n, 3, k + 1), threads=1)
        else:
            m = knn_kinds()[kind](K=3, num_threads=1)
            m.fit(sp.csr_matrix(np.array([[1, 1, 0, 2, 0], [0, 1, 1, 0, 1], [3, 0, 1, 0, 0], [0, 0, 0, 1, 1.0]])), show_progress=False)
        k += 1
        if any(len(t) == n for t in tests):
            continue
        T = mats(tests, n)
        tr = sp.csr_matrix(train)
        # users in the order they are recommended for, in one batch of those with test items
        users = np.array([u for u in range(4) if tests[u]])
        ids, sc = m.recommend(users, tr[users], N=K)
        lists = [[] for _ in range(4)]
        for r, u in enumerate(users):
            lists[u] = [int(i) for i, s in zip(ids[r], sc[r]) if i >= 0 and not (s < -1e25 and i in np.flatnonzero(train[u]))]
        want = definition(lists, tests, K, n)
        for thr in (1, 2):
            r, _ = call_all(m, tr, T, K, thr)
            compare("%s train %s tests %s K=%d" % (kind, train.tolist(), tests, K), r, want)
            ctx.step()
        ctx.trace()
    ctx.state("real", kind, K)


def do_many(c, ctx):
    u, n = c["u"], 6
    w = det_matrix(u, n, u, 0, 3)
    tests, lists = [], []
    for x in range(u):
        t = set() if c["gap"] and x % (c["gap"] + 1) == 0 and u > 2 else {i for i in range(n - 1) if w[x, i] == 0} or {x % n}
        tests.append(t)
        lists.append(sorted(range(n), key=lambda i: (w[x, (i + 1) % n] * 7 + i * (x + 1)) % 11)[:3 + x % 4])
    T = mats(tests, n)
    tr = sp.csr_matrix((u, n), dtype=np.float32)
    for K in (1, 3, 8):
        want = definition(lists, tests, K, n)
        for F in (T, T.tocoo()):
            r, _ = call_all(Stub(lists, n), tr if F is T else tr.tocoo(), F, K, c["thr"])
            compare("%d users (gap %d) K=%d threads=%d" % (u, c["gap"], K, c["thr"]), r, want)
            ctx.step()
        ctx.trace()
    ctx.state("many", u, c["gap"], c["thr"])
