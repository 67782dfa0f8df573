"""Train/test splits."""
import itertools

import numpy as np
import scipy.sparse as sp

from ..lib import det_matrix, fail

META = dict(
    technique="exhaustive enumeration of small interaction matrices x all outcomes of the random generator (a scripted numpy Generator supplies every "
              "combination of draws); every split checked against the partition specification",
    bounds={"quick": "train_test_split: all 2x3 matrices over {missing,1,2.5,-1} x all 2^n threshold outcomes x fractions {0,0.25,0.5,1}; leave_k_out: all "
                     "per-user interaction counts 0..5 for up to 4 users x K 1..3 x reserved {0,0.25,0.5,0.75} x all reserved subsets x all high/low "
                     "draws (n<=8) or all permutations (n<=5); csr/csc/coo input, int and float values; 60 integer seeds on larger matrices, up to 70000 users",
            "thorough": "additionally all 3x3 matrices for train_test_split"},
    assumptions=["no explicit zeros or duplicate entries; reserved fractions are exactly representable"],
)


class ScriptGen(np.random.Generator):
    """A numpy Generator whose random() and choice() results are dictated."""

    def __init__(self, values=(), chosen=None, seed=0):
        super().__init__(np.random.PCG64(seed))
        self.values, self.chosen = list(values), chosen
        self.asked = []

    def random(self, size=None, dtype=np.float64, out=None):
        n = 1 if size is None else int(np.prod(size))
        self.asked.append(("random", n))
        v = (self.values * (n // max(1, len(self.values)) + 1))[:n] if self.values else [0.5] * n
        return v[0] if size is None else np.array(v, dtype=dtype).reshape(size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        self.asked.append(("choice", a, size))
        if self.chosen is None or size is None or replace or not isinstance(a, (int, np.integer)) or size > a:
            return super().choice(a, size=size, replace=replace, p=p, axis=axis, shuffle=shuffle)
        combos = list(itertools.combinations(range(a), size))
        return np.array(combos[self.chosen % len(combos)], dtype=np.int64)


def cases(tier):
    for u, i in ((2, 3), (1, 4), (3, 2)) + (((3, 3),) if tier != "quick" else ()):
        total = 4 ** (u * i)
        step = 64 if tier == "quick" else 512
        for s in range(0, total, step):
            yield dict(t="tts", u=u, i=i, lo=s, hi=min(total, s + step))
    for n in (1, 2, 3, 4):
        for counts in itertools.product(range(6), repeat=n):
            if n == 4 and tier == "quick" and (sum(counts) + counts[0] * 3) % 8:
                continue
            yield dict(t="lko", counts=counts)
    for k in range(20):
        yield dict(t="seeds", k=k)
    for u in (64, 65, 100, 129, 257, 300, 1000, 2049, 33000, 70000):
        yield dict(t="many", u=u)


def entries(m):
    m = sp.coo_matrix(m)
    d = {}
    for r, c, v in zip(m.row.tolist(), m.col.tolist(), m.data.tolist()):
        if (r, c) in d:
            fail("entry %s stored twice", (r, c))
        d[(r, c)] = v
    return d


def partition(what, M, train, test, negatives_dropped):
    if train.shape != M.shape or test.shape != M.shape:
        fail("%s: shapes %s %s from %s", what, train.shape, test.shape, M.shape)
    if train.dtype != M.dtype or test.dtype != M.dtype:
        fail("%s: dtypes %s %s from %s", what, train.dtype, test.dtype, M.dtype)
    full, a, b = entries(M), entries(train), entries(test)
    for k, v in full.items():
        n = (k in a) + (k in b)
        if n == 0 and v < 0 and negatives_dropped:
            continue
        if n != 1:
            fail("%s: interaction %s is in %s: train %s test %s", what, k, "neither" if n == 0 else "both", a, b)
        if (a[k] if k in a else b[k]) != v:
            fail("%s: interaction %s changed from %r to %r", what, k, v, a[k] if k in a else b[k])
    extra = [k for k in list(a) + list(b) if k not in full]
    if extra:
        fail("%s: invented interactions %s", what, extra)
    if any(v < 0 for v in b.values()) and negatives_dropped:
        fail("%s: negative rating in test: %s", what, b)
    return full, a, b


FMT = [sp.csr_matrix, sp.coo_matrix, sp.csc_matrix]


def run_case(c, ctx):
    globals()["do_" + c["t"]](c, ctx)
    ctx.sample(c)


def do_tts(c, ctx):
    from implicit.evaluation import train_test_split
    u, i = c["u"], c["i"]
    for k in range(c["lo"], c["hi"]):
        q, vals = k, []
        for _ in range(u * i):
            vals.append([0, 1, 2.5, -1][q % 4])
            q //= 4
        D = np.array(vals, dtype=float).reshape(u, i)
        n = int(np.count_nonzero(D))
        outs = list(itertools.product((0.1, 0.75), repeat=n))
        if len(outs) > 32:
            outs = outs[::len(outs) // 32]
        for o, draw in enumerate(outs):
            M = FMT[(k + o) % 3](D.astype(np.float32 if (k + o) % 2 else np.float64))
            p = (0.25, 0.5, 0.25, 0.75)[o % 4]
            tr, te = train_test_split(M, p, ScriptGen(draw))
            partition("train_test_split(%s, %g) draws %s" % (D.tolist(), p, draw), M, tr, te, True)
            ctx.step()
        for p in (0.0, 1.0):
            M = FMT[k % 3](D)
            full, a, b = partition("train_test_split(%s, %g)" % (D.tolist(), p), M, *train_test_split(M, p, k), negatives_dropped=True)
            if (p == 0 and a) or (p == 1 and (b or len(a) != len(full))):
                fail("train_test_split with train_percentage=%g: train %s test %s", p, a, b)
            ctx.step()
        ctx.state("tts", u, i, k)
        ctx.trace(len(outs))


def expected_reserved(users, frac):
    return 0 if frac == 0 else max(1, int(users * frac))


def check_lko(what, M, K, frac, train, test):
    full, a, b = partition(what, M, train, test, False)
    count, tcount = {}, {}
    for (r, _) in full:
        count[r] = count.get(r, 0) + 1
    for (r, _) in b:
        tcount[r] = tcount.get(r, 0) + 1
    eligible = [r for r in count if count[r] > K + 1]
    for r, n in tcount.items():
        if r not in eligible:
            fail("%s: user %d has %d interactions but %d in test", what, r, count[r], n)
        if n != K:
            fail("%s: user %d has %d test interactions instead of %d: %s", what, r, n, K, b)
    without = len(eligible) - len(tcount)
    res = expected_reserved(len(count), frac)
    lo = max(0, res - (len(count) - len(eligible)))
    if not lo <= without <= min(res, len(eligible)):
        fail("%s: %d eligible users without test interactions, %d users should be reserved of %d (%d eligible)", what, without, res,
             len(count), len(eligible))
    return len(tcount)


def do_lko(c, ctx):
    from implicit.evaluation import leave_k_out_split
    counts = c["counts"]
    ni = 6
    D = np.zeros((len(counts), ni))
    for u, n in enumerate(counts):
        for j in range(n):
            D[u, (j * (1 + u) * 5 + u) % 6 if n < 2 else (j + u) % 6] = 1 + j + 10 * u
    if not D.any():
        return
    k = 0
    for K in (1, 2, 3):
        elig = [u for u, n in enumerate(counts) if n > K + 1]
        n = sum(counts[u] for u in elig)
        for frac in (0.0, 0.25, 0.5, 0.75):
            nu = sum(1 for x in counts if x)
            nsub = 1 if frac == 0 else len(list(itertools.combinations(range(nu), expected_reserved(nu, frac))))
            for sub in range(nsub):
                if n <= 4:
                    draws = [tuple((x + 0.5) / 8 for x in p) for p in itertools.permutations(range(n))]
                elif n <= 6:
                    draws = list(itertools.product((0.2, 0.8), repeat=n))
                else:
                    draws = [tuple(((x * s + o) % n + 0.5) / (n + 1) for x in range(n)) for s in (1, n - 1) for o in range(0, n, 2)]
                if frac and len(draws) > 6:
                    draws = draws[::max(1, len(draws) // 6)]
                for d in draws or [()]:
                    k += 1
                    M = FMT[k % 3](D.astype((np.float64, np.float32, np.int32)[k % 3]))
                    g = ScriptGen(d, sub)
                    tr, te = leave_k_out_split(M, K=K, train_only_size=frac, random_state=g)
                    check_lko("leave_k_out_split(counts %s, K=%d, train_only=%g) reserved choice %d draws %s" % (counts, K, frac, sub, d),
                              M, K, frac, tr, te)
                    ctx.step()
                    ctx.trace()
                    ctx.outcome(te.indices.tobytes(), te.indptr.tobytes())
    ctx.state("lko", counts)


def do_many(c, ctx):
    """many users, checked in bulk"""
    from implicit.evaluation import leave_k_out_split, train_test_split
    u = c["u"]
    counts = det_matrix(1, u, u, 0, 5)[0]
    row = np.repeat(np.arange(u), counts)
    col = (np.arange(len(row)) - np.repeat(np.cumsum(counts) - counts, counts)) * 2 + row % 3
    M = sp.csr_matrix((np.arange(1, len(row) + 1).astype(np.float64), (row, col)), shape=(u, 15))
    for seed in range(3):
        for K in (1, 2):
            for frac in (0.0, 0.25, 0.75):
                what = "leave_k_out_split of %d users, K=%d, train_only_size=%g, seed %d" % (u, K, frac, seed)
                tr, te = leave_k_out_split(M, K, frac, seed)
                bulk(what, M, tr, te)
                t = np.diff(te.indptr)
                if np.any((t != 0) & (t != K)):
                    fail("%s: user %d has %d test interactions", what, int(np.argmax((t != 0) & (t != K))), t.max())
                if np.any((t > 0) & (counts <= K + 1)):
                    fail("%s: user %d has too few interactions to be split", what, int(np.argmax((t > 0) & (counts <= K + 1))))
                res = expected_reserved(int((counts > 0).sum()), frac)
                without = int(((counts > K + 1) & (t == 0)).sum())
                rest = int(((counts > 0) & (counts <= K + 1)).sum())
                if not max(0, res - rest) <= without <= res:
                    fail("%s: %d eligible users without test interactions, %d should be reserved", what, without, res)
                ctx.step()
                ctx.state("many", u, seed, K, frac)
        tr, te = train_test_split(M, 0.5, seed)
        bulk("train_test_split of %d users" % u, M, tr, te)
        ctx.step()
    ctx.trace()


def bulk(what, M, tr, te):
    if tr.shape != M.shape or te.shape != M.shape or tr.nnz + te.nnz != M.nnz:
        fail("%s: %s %s with %d+%d entries from %s with %d", what, tr.shape, te.shape, tr.nnz, te.nnz, M.shape, M.nnz)
    if abs((tr + te) - M).sum() != 0 or (tr.multiply(te)).nnz:
        fail("%s: train and test don't add up to the interactions", what)


def do_seeds(c, ctx):
    from implicit.evaluation import leave_k_out_split, train_test_split
    k = c["k"]
    D = np.array([0, 0, 1, 2, 0, 3])[det_matrix(30 + k, 8 + k % 5, k, 0, 5)].astype(float)
    D[3] = 0
    D[-1] = 0
    M = sp.csr_matrix(D)
    for seed in (0, 1, 2 + k, 12345):
        for K in (1, 2, 5):
            for frac in (0.0, 0.125, 0.5, 0.9375):
                a = leave_k_out_split(M, K, frac, seed)
                b = leave_k_out_split(M, K, frac, seed)
                check_lko("leave_k_out_split seed %d K=%d frac=%g" % (seed, K, frac), M, K, frac, *a)
                if (a[0] != b[0]).nnz or (a[1] != b[1]).nnz:
                    fail("leave_k_out_split: equal seeds give different splits")
                ctx.step(2)
        for p in (0.1, 0.8):
            a, b = train_test_split(M, p, seed), train_test_split(M, p, seed)
            partition("train_test_split seed %d" % seed, M, *a, negatives_dropped=True)
            if (a[0] != b[0]).nnz or (a[1] != b[1]).nnz:
                fail("train_test_split: equal seeds give different splits")
            ctx.step(2)
    ctx.state("seeds", k)
    ctx.trace()
