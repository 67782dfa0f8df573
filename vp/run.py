"""Runs one check: builds the tree, explores every case in worker processes, writes the evidence."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from .build import BuildError, build
from .core import VERIF, load_check, short

HANG = float(os.environ.get("VP_HANG", "150"))


def base_env(tree, omp):
    env = dict(os.environ)
    env.update(PYTHONPATH=tree + os.pathsep + VERIF, VP_TREE=tree, OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS=str(omp), OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false",
               PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
               MALLOC_ARENA_MAX="4", TQDM_DISABLE="1")
    return env


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: property=%s " % prop):])
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VP_WORKERS", "8")))
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    prop = a.prop
    t0 = time.time()
    meta = load_check(prop).META
    try:
        tree = build(meta.get("variant", "plain"))
    except BuildError as e:
        print("build failed:", e)
        return 2
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        return explore(a, prop, tier, seed, meta, tree, scratch, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(a, prop, tier, seed, meta, tree, scratch, t0, t_build):
    env = base_env(tree, meta.get("omp", 2))
    env["VP_SCRATCH"] = scratch
    env["HOME"] = os.path.join(scratch, "home")
    os.makedirs(env["HOME"])
    cap = meta.get("cap", {"quick": 600, "thorough": 7200})[tier]
    env["VP_DEADLINE"] = str(time.time() + cap)
    env.update(meta.get("env", {}))
    if meta.get("variant") == "asan":
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        stdcpp = subprocess.check_output(["gcc", "-print-file-name=libstdc++.so.6"], text=True).strip()
        env["LD_PRELOAD"] = os.path.realpath(lib) + " " + os.path.realpath(stdcpp)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:redzone=1024:max_redzone=2048:quarantine_size_mb=64:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                               "detect_stack_use_after_return=0:detect_container_overflow=1")
    W = 1 if a.replay else min(a.workers, meta.get("workers", 8))
    procs = []
    for i in range(W):
        out, prog = os.path.join(scratch, "out%d" % i), os.path.join(scratch, "prog%d" % i)
        log = open(os.path.join(scratch, "log%d" % i), "w")
        cmd = [sys.executable, "-m", "vp.worker", prop, tier, str(seed), str(i), str(W), out, prog]
        if a.replay:
            cmd.append(a.replay)
        wenv = dict(env, VP_WORKER=str(i))
        procs.append(dict(p=subprocess.Popen(cmd, env=wenv, cwd=scratch, stdout=log, stderr=log,
                                             start_new_session=True),
                          out=out, prog=prog, i=i, log=log.name))
    violation = None
    failed = None
    pending = list(procs)
    while pending and not violation and not failed:
        time.sleep(0.05)
        for w in list(pending):
            rc = w["p"].poll()
            if rc is None:
                try:
                    if time.time() - os.stat(w["prog"]).st_mtime > HANG:
                        violation = dict(current(w) or {"case": None}, message="call does not return (hang > %ds)" % HANG)
                        break
                except FileNotFoundError:
                    pass
                continue
            pending.remove(w)
            tail = open(w["log"], errors="replace").read()
            if os.path.exists(w["out"]):
                w["res"] = json.load(open(w["out"]))
                if w["res"]["violation"]:
                    violation = w["res"]["violation"]
                    break
            else:
                cur = current(w)
                if cur is None:
                    failed = "worker %d died before its first case (rc=%s)\n%s" % (w["i"], rc, tail[-3000:])
                else:
                    violation = dict(cur, message="process died (rc=%s) during a call\n%s" % (rc, crash_text(tail)))
                break
    for w in pending:
        try:
            os.killpg(w["p"].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        w["p"].wait()
    if failed:
        print(failed)
        return 2
    if a.replay:
        if violation:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            print(short(violation["message"], 4000))
            return 1
        print("replay: no violation")
        return 0
    res = [w["res"] for w in procs if "res" in w]
    ev = evidence(prop, tier, seed, meta, res, procs, t0, t_build, violation)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if violation:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        n = 0
        while os.path.exists(os.path.join(d, "%s-%d.json" % (prop, n))):
            n += 1
        path = os.path.join(d, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump(dict(violation, property=prop, how="bin/check %s --replay %s" % (prop, path)), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(short(violation["message"], 3000))
        print("case:", short(violation.get("case")))
        return 1
    c = ev["coverage"]
    print("OK %s tier=%s %s wall=%.1fs (build %.1fs)" % (
        prop, tier, {k: v for k, v in c.items() if isinstance(v, (int, bool))}, ev["wall_s"], t_build))
    return 0


def crash_text(tail):
    i = tail.find("ERROR: AddressSanitizer")
    if i < 0:
        i = tail.find("runtime error:")
    return tail[i:i + 2500] if i >= 0 else tail[-2000:]


def current(w):
    try:
        n, case = json.loads(open(w["prog"]).read())
        return {"case": case}
    except (FileNotFoundError, ValueError):
        return None


def union(procs, suffix):
    import numpy as np
    arrs = [np.load(w["out"] + suffix) for w in procs if "res" in w and os.path.exists(w["out"] + suffix)]
    return int(len(np.unique(np.concatenate(arrs)))) if arrs else 0


def evidence(prop, tier, seed, meta, res, procs, t0, t_build, violation):
    level = meta.get("level", "model_checking")
    samples = []
    for r in res:
        samples += r["samples"]
    states, outcomes = union(procs, ".states.npy"), union(procs, ".outcomes.npy")
    extra = {}
    for r in res:
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
    cov = {}
    if level == "model_checking":
        cov.update(states=states, transitions=sum(r["transitions"] for r in res),
                   traces_validated_against_impl=sum(r["traces"] for r in res))
    else:
        cov.update(evaluations=sum(r["transitions"] for r in res), distinct_nontrivial=outcomes,
                   rule=meta["rule"])
    cov["samples"] = samples[:6] or ["(stopped at the violation)"]
    if level == "model_checking" and outcomes:
        cov["distinct_outcomes"] = outcomes
    cov["cases"] = sum(r["ran"] for r in res)
    cov.update(extra)
    capped = any(r["capped"] for r in res)
    cov["exhaustive"] = not capped and not violation and not extra.get("limited")
    cov["bounds"] = meta["bounds"][tier] if isinstance(meta["bounds"], dict) else meta["bounds"]
    if capped:
        cov["capped"] = "time cap reached; only 'cases' of the enumeration were completed"
    return {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
            "build_s": round(t_build, 2), "violations": 1 if violation else 0}


if __name__ == "__main__":
    sys.exit(main())
