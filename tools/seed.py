"""Development tool for planted bugs (no check uses it).
  seed.py verify ID...   scratch copy: patch applies, builds, stable tests pass, demo 0/nonzero
  seed.py check  ID [Cxx...]   runs the checks (default: the bug's property) on the scratch copy
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="2",
           OMP_WAIT_POLICY="passive", PYTHONDONTWRITEBYTECODE="1")


def copy(patch=None):
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % d, shell=True)
    if patch:
        subprocess.check_call(["git", "init", "-q", d])
        subprocess.check_call(["git", "-C", d, "apply", patch])
    return d


def tree(d):
    out = subprocess.run([PY, "-c", "from vp.build import build; print(build('plain'))"],
                         env=dict(ENV, PYTHONPATH=V, VP_REPO=d), cwd=V, capture_output=True, text=True)
    if out.returncode:
        raise SystemExit(out.stderr[-3000:])
    return out.stdout.strip().splitlines()[-1]


def runtests(t, d):
    xml = d + "/junit.xml"
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--junitxml=" + xml,
                    "-o", "junit_family=xunit2", "-p", "no:xdist", "tests"], cwd=d + "/run", env=ENV,
                   capture_output=True, text=True)
    if not os.path.exists(xml): raise SystemExit(r.stdout[-2000:] + r.stderr[-2000:])
    import xml.etree.ElementTree as ET
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base)
    ok = set()
    for tc in ET.parse(xml).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(tc.get("classname").replace("run.tests", "tests") + "::" + tc.get("name"))
    return stable, ok


def setup(patch):
    d = copy(patch)
    t = tree(d)
    os.mkdir(d + "/run")
    shutil.copytree(d + "/tests", d + "/run/tests")
    shutil.copytree(t + "/implicit", d + "/run/implicit")
    return d, t


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "verify":
        ids = args or sorted(os.listdir(V + "/seeded"))
        dc, tc = setup(None)
        for i in ids:
            s = V + "/seeded/" + i
            d, t = setup(s + "/patch.diff")
            try:
                stable, ok = runtests(t, d)
                bad = sorted(x for x in stable if x not in ok)
                r0 = subprocess.run(["bash", s + "/demo.sh"], cwd=dc + "/run", env=ENV, capture_output=True, text=True)
                r1 = subprocess.run(["bash", s + "/demo.sh"], cwd=d + "/run", env=ENV, capture_output=True, text=True)
                good = not bad and r0.returncode == 0 and r1.returncode != 0
                print(i, "OK" if good else "BAD", "missing tests:", bad[:4], len(bad), "demo clean", r0.returncode, "patched", r1.returncode,
                      "" if good else (r0.stderr[-800:] + "\n---\n" + r1.stdout[-300:] + r1.stderr[-500:]), flush=True)
            finally:
                shutil.rmtree(d)
        shutil.rmtree(dc)
    else:
        i = args[0]
        s = V + "/seeded/" + i
        props = args[1:] or [json.load(open(s + "/meta.json"))["property"]]
        d = copy(s + "/patch.diff")
        try:
            for p in props:
                r = subprocess.run([V + "/bin/check", p], env=dict(ENV, VP_REPO=d), capture_output=True, text=True)
                print(i, p, "rc", r.returncode, r.stdout.strip()[:int(os.environ.get("N", "400"))].replace("\n", " | "), r.stderr[-300:], flush=True)
        finally:
            shutil.rmtree(d)


main()
