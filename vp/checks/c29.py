"""Parallel BPR training: no interleaving loses or invents a sample, miscounts, or damages the model."""
import numpy as np

from ..core import fail
from . import c14
from .c14 import LRREG, likes, make, member, patterns, reach, start

META = dict(
    technique="stateless model checking of the real training loop under a controlled scheduler (own OpenMP runtime, every memory access instrumented): all "
              "interleavings at conflicting accesses up to a preemption bound; serial executions must be runs of the SGD model, all others must have the "
              "same samples and counts, and touch only what those samples touch",
    variant="sched",
    bounds={"quick": "2x2, 2x3 and 3x2 interaction patterns with 2-3 interactions (and 4 for 3x3), 2-3 threads (also more threads than samples), 6 seeds, verification on and off, float32/64; "
                     "preemption bound 2 for 2 threads, 1 for 3; learning rate zero (exact counts under every schedule) and nonzero; at most 1500 schedules per case",
            "thorough": "all patterns with 2-4 interactions, 24 seeds, preemption bound 3 (2 for 3 threads), at most 40000 schedules per case"},
    assumptions=["sequentially consistent interleavings", "updates of different threads may overwrite each other (the training is lock free by design), so the "
                 "factors of an overlapping execution are only bounded, not determined"],
)


def cases(tier):
    deep = tier != "quick"
    k = 0
    pats = []
    for u, i in ((2, 2), (2, 3), (3, 2)):
        pats += [(u, i, p) for p in patterns(u, i, 2, 3)]
    pats += [(3, 3, [(0, 0), (1, 1), (2, 2), (0, 1)]), (3, 3, [(0, 2), (1, 0), (1, 2), (2, 1)])]
    if deep:
        pats += [(3, 3, p) for p in patterns(3, 3, 4, 4)[::3]]
    for u, i, pat in pats:
        for T in (2, 3):
            for zero in (0, 1):
                for seed in range(24 if deep else 3):
                    k += 1
                    bound = (3 if deep else 2) if T == 2 else (2 if deep else 1)
                    yield dict(u=u, i=i, pat=pat, T=T, zero=zero, seed=seed * 7 + k % 5, verify=k % 3 > 0, f=1 + k % 2, dt=("float32", "float64")[k // 2 % 2], lr=k % 4,
                               bound=bound, limit=40000 if deep else 1500, sec=300 if deep else 12)


def setup(tier, seed):
    from .. import sched
    sched.install()
    sched.LIB.vp_default_threads(2)


def run_case(c, ctx):
    from .. import sched
    M = likes(c["u"], c["i"], c["pat"])
    lr, reg = LRREG[c["lr"]]
    if c["zero"]:
        lr = 0.0
    U, V = start(c["u"], c["i"], c["f"], c["dt"], c["seed"])
    nnz = len(c["pat"])
    m = make(c["f"], c["dt"], lr, reg, c["verify"], 1, c["seed"])
    m.num_threads = c["T"]
    w = "likes %s, %d threads, seed %d, lr=%g reg=%g verify=%s %s" % (c["pat"], c["T"], c["seed"], lr, reg, c["verify"], c["dt"])

    def body():
        counts = c14.fit_once(m, M, U, V)
        return counts[0], m.user_factors.copy(), m.item_factors.copy()
    R = reach(U, V, M, np.float32(lr), np.float32(reg), c["verify"], 1)
    tol = 2e-5 if c["dt"] == "float32" else 1e-7
    serial = sched.Run(body, [], 0, -1)
    (correct, skipped), _, _ = serial.out
    used_items = {i for _, i in c["pat"]}
    used_users = {u for u, _ in c["pat"]}
    # no entry can grow faster than this, whatever is overwritten
    grow = max(np.abs(U).max(), np.abs(V).max(), 1.0)
    for _ in range(nnz):
        grow = grow * (1 + lr * (reg + 2)) + lr
    stats = {}
    for r in sched.explore(body, c["bound"], -1, c["limit"], stats, ctx.late, c["sec"]):
        (co, sk), X, Y = r.out
        ctx.step(len(r.chosen) + 1)
        ctx.state(w, r.key())
        ctx.trace()
        s = "%s, schedule %s" % (w, r.show())
        if sk != skipped or not 0 <= co <= nnz - sk:
            fail("%s: %d correct and %d skipped of %d samples (%d and %d when the threads run one after another)", s, co, sk, nnz, correct, skipped)
        if c["zero"]:
            if co != correct:
                fail("%s: %d correct, should be %d (nothing is learned at rate zero)", s, co, correct)
            if X.tobytes() != U.tobytes() or Y.tobytes() != V.tobytes():
                fail("%s: factors changed at learning rate zero", s)
        elif r.preemptions == 0:
            member(s, R, X, Y, [(co, sk)], tol)
            ctx.count("serial_runs_matched")
        if np.any(X[:, -1] != 1):
            fail("%s: user bias coordinate is %s", s, X[:, -1].tolist())
        for rows, old, new in ((used_users, U, X), (used_items, V, Y)):
            for k in range(len(old)):
                if k not in rows and old[k].tobytes() != new[k].tobytes():
                    fail("%s: a row without interactions changed: %s -> %s", s, old[k].tolist(), new[k].tolist())
        if skipped == nnz and (X.tobytes() != U.tobytes() or Y.tobytes() != V.tobytes()):
            fail("%s: every sample is skipped, but factors changed", s)
        if not (np.abs(X).max() <= grow * 1.001 and np.abs(Y).max() <= grow * 1.001):
            fail("%s: factors %s %s are not the result of %d updates", s, X.tolist(), Y.tolist(), nnz)
        ctx.outcome(X.tobytes(), Y.tobytes(), co, sk)
    for k, v in stats.items():
        ctx.count(k, v)
    ctx.sample(dict(case=c, schedules=stats.get("schedules")))
