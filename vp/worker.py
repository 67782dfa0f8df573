"""Explores one share of a check's cases in its own process.

argv: prop tier seed index workers outfile progressfile [replayfile]
"""
import fcntl
import json
import os
import sys
import time
import traceback
import warnings


def main():
    prop, tier, seed, idx, workers, out, prog = sys.argv[1:8]
    idx, workers, seed = int(idx), int(workers), int(seed)
    replay = sys.argv[8] if len(sys.argv) > 8 else None
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from vp.core import Ctx, Violation, jsonable, load_check
    chk = load_check(prop)
    if hasattr(chk, "setup"):
        chk.setup(tier, seed)
    import implicit
    tree = os.environ["VP_TREE"]
    assert implicit.__file__.startswith(tree + "/"), implicit.__file__
    res = {"violation": None, "ran": 0, "total": 0, "capped": False}
    deadline = float(os.environ.get("VP_DEADLINE", "0")) or None
    ctx = Ctx(prog, deadline)
    pf = os.open(prog, os.O_RDWR | os.O_CREAT | os.O_TRUNC)

    def note(case):
        b = (json.dumps([res["total"], jsonable(case)]) + "\n").encode()
        os.ftruncate(pf, 0)
        os.pwrite(pf, b, 0)

    if replay:
        with open(replay) as f:
            cases = [json.load(f)["case"]]
        workers, idx = 1, 0
    else:
        cases = chk.cases(tier)
    # the workers take the next case of the enumeration from a shared counter
    shared = os.open(os.path.join(os.path.dirname(out), "next"), os.O_RDWR | os.O_CREAT)

    def claim():
        fcntl.lockf(shared, fcntl.LOCK_EX)
        n = int(os.pread(shared, 20, 0) or b"0")
        os.pwrite(shared, b"%d" % (n + 1), 0)
        fcntl.lockf(shared, fcntl.LOCK_UN)
        return n

    mine = claim()
    for case in cases:
        res["total"] += 1
        if res["total"] - 1 != mine:
            continue
        if deadline and time.time() > deadline:
            res["capped"] = True
            break
        case = jsonable(case)
        note(case)
        try:
            chk.run_case(case, ctx)
        except Violation as e:
            res["violation"] = {"case": case, "message": str(e)}
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # noqa: B902  any error of a valid call breaks the property
            res["violation"] = {"case": case, "message": "unexpected %s: %s" % (type(e).__name__, e),
                                "traceback": traceback.format_exc()[-3000:]}
        res["ran"] += 1
        if res["violation"]:
            break
        mine = claim()
    if hasattr(chk, "finish") and not res["violation"] and not replay:
        chk.finish(ctx)
    res.update(states=len(ctx.states), outcomes=len(ctx.outcomes), transitions=ctx.transitions,
               traces=ctx.traces, samples=ctx.samples, extra=ctx.extra)
    np.save(out + ".states.npy", np.fromiter(ctx.states, dtype=np.uint64, count=len(ctx.states)))
    np.save(out + ".outcomes.npy", np.fromiter(ctx.outcomes, dtype=np.uint64, count=len(ctx.outcomes)))
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


main()
