"""Interrupted dataset downloads (all effects stay in a scratch HOME; the network is a loopback server)."""
import hashlib
import http.client
import os
import pickle
import resource
import shutil
import signal
import socket
import struct
import sys
import threading
import urllib.request

import numpy as np

from ..lib import det_ints, fail, scratch

META = dict(
    technique="exhaustive fault enumeration on the real code: process death and exceptions at every executed line of the download path, every interleaving with one switch of two "
              "downloading processes, truncation, reset and disk-full at every offset of a grid, every error status, and all ordered pairs of faults",
    level="fault_enumeration",
    rule="every line event of implicit.datasets, urllib.request.urlretrieve, shutil and tempfile during a download x {kill, KeyboardInterrupt, OSError, pause while a second process runs}; every "
         "cut offset that is a multiple of 1024, within 1 of a multiple of 8192, 0 or size-1 x {content-length, chunked, reset, disk full}; statuses 403 404 500 503; all ordered pairs of 14 representative faults; after each history: "
         "an offline call, an online call and a cached call",
    bounds={"quick": "8 datasets (two with every line event, the others with every third), one 20 KB file each", "thorough": "every line event on all 8 datasets, cuts at every multiple of 128"},
    assumptions=["process death, not power loss: what was written to the file system stays there", "the server states a content length or uses chunked encoding"],
)
DATASETS = {
    "movielens_20m": ("movielens", "get_movielens", ("20m",), "movielens_20m.hdf5", "movie_user_ratings", ("movie",)),
    "movielens_10m": ("movielens", "get_movielens", ("10m",), "movielens_10m.hdf5", "movie_user_ratings", ("movie",)),
    "movielens_1m": ("movielens", "get_movielens", ("1m",), "movielens_1m.hdf5", "movie_user_ratings", ("movie",)),
    "movielens_100k": ("movielens", "get_movielens", ("100k",), "movielens_100k.hdf5", "movie_user_ratings", ("movie",)),
    "lastfm": ("lastfm", "get_lastfm", (), "lastfm_360k.hdf5", "artist_user_plays", ("artist", "user")),
    "msd": ("million_song_dataset", "get_msd_taste_profile", (), "msd_taste_profile.hdf5", "track_user_plays", ("track", "user")),
    "reddit": ("reddit", "get_reddit", (), "reddit.hdf5", "item_user_ratings", ()),
    "sketchfab": ("sketchfab", "get_sketchfab", (), "sketchfab.hdf5", "item_user_likes", ("item", "user")),
}
FILES = {}      # file name -> bytes
EXPECT = {}     # dataset -> digest
HOME = None
SERVER = None


# ------------------------------------------------------------------ the other side

class Server:
    def __init__(self):
        self.plan, self.requests = {}, 0
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            c, _ = self.sock.accept()
            try:
                self.serve(c)
            except OSError:
                pass
            finally:
                c.close()

    def serve(self, c):
        req = b""
        while b"\r\n\r\n" not in req:
            b = c.recv(4096)
            if not b:
                return
            req += b
        self.requests += 1
        p = dict(self.plan)
        name = req.split()[1].decode().rsplit("/", 1)[-1]
        body = FILES.get(name, b"")
        if p.get("status"):
            body = b"<html>error</html>" * 700
            c.sendall(b"HTTP/1.1 %d X\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (p["status"], len(body)) + body)
            return
        cut = body[:p["cut"]] if "cut" in p else body
        if p.get("chunked"):
            c.sendall(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")
            for i in range(0, len(cut), 1000):
                x = cut[i:i + 1000]
                c.sendall(b"%x\r\n" % len(x) + x + b"\r\n")
            if "cut" not in p:
                c.sendall(b"0\r\n\r\n")
            return
        c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % len(body) + cut)
        if p.get("reset"):
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))


class Redirect(urllib.request.HTTPSHandler):
    """every https/http request goes to the loopback server (or fails when offline)"""
    online = True

    def https_open(self, req):
        if not Redirect.online:
            raise urllib.error.URLError("no network")

        def conn(host, **kw):
            return http.client.HTTPConnection("127.0.0.1", SERVER.port, timeout=20)
        return self.do_open(conn, req)
    http_open = https_open


# ------------------------------------------------------------------ data

def setup(tier, seed):
    global HOME, SERVER
    root = scratch()
    HOME = os.path.join(root, "home")
    os.makedirs(HOME, exist_ok=True)
    os.environ["HOME"] = HOME
    import h5py
    import scipy.sparse as sp
    for k, (name, (mod, fn, args, fname, grp, extra)) in enumerate(DATASETS.items()):
        p = os.path.join(root, "make.hdf5")
        m = sp.csr_matrix(np.where(det_ints(40 * 60, k + 3, 0, 3).reshape(40, 60) == 0, 1, 0) * (1 + np.arange(60)), dtype=np.float32)
        with h5py.File(p, "w") as f:
            g = f.create_group(grp)
            g.create_dataset("data", data=m.data)
            g.create_dataset("indptr", data=m.indptr)
            g.create_dataset("indices", data=m.indices)
            for e, n in zip(extra, m.shape):
                d = f.create_dataset(e, (n,), dtype=h5py.special_dtype(vlen=str))
                d[:] = ["%s-%s-%d" % (name, e, i) for i in range(n)]
            f.create_dataset("zpad", data=det_ints(1500, k, 0, 10 ** 9))
        FILES[fname] = open(p, "rb").read()
        os.remove(p)
    SERVER = Server()
    urllib.request.install_opener(urllib.request.build_opener(Redirect))
    import implicit.datasets._download  # noqa: F401
    for name in DATASETS:
        wipe()
        kind, d = call(name)
        if kind != "ok":
            raise SystemExit("cannot load the dataset %s: %s" % (name, d))
        EXPECT[name] = d
        m = fetch(name)
        m = m[-1] if isinstance(m, tuple) else m
        if m.shape != (40, 60) or m.nnz < 300:
            raise SystemExit("unexpected dataset %s" % (m.shape,))
    wipe()


def wipe():
    for x in os.listdir(HOME):
        p = os.path.join(HOME, x)
        assert p.startswith(os.environ["VP_SCRATCH"] + os.sep)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)


def fetch(name):
    import importlib
    mod, fn, args = DATASETS[name][:3]
    return getattr(importlib.import_module("implicit.datasets." + mod), fn)(*args)


def digest(r):
    r = r if isinstance(r, tuple) else (r,)
    h = hashlib.sha256()
    for x in r:
        if hasattr(x, "toarray"):
            h.update(x.toarray().astype(np.float64).tobytes())
        else:
            h.update(repr(np.asarray(x).tolist()).encode())
    return h.hexdigest()


# ------------------------------------------------------------------ one call in its own process

PARTS = (os.sep + "implicit" + os.sep + "datasets" + os.sep, os.sep + "shutil.py", os.sep + "tempfile.py")


def traced(frame):
    f = frame.f_code.co_filename
    return any(p in f for p in PARTS) or (frame.f_code.co_name == "urlretrieve" and f.endswith("request.py"))


def child(name, fault, w):
    """runs the call; writes ('ok', digest) or ('error', text) into the pipe"""
    n = [0]
    at, what = fault.get("at"), fault.get("what")

    def event():
        n[0] += 1
        if n[0] != at:
            return
        if what == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        elif what == "pause":
            os.kill(os.getpid(), signal.SIGSTOP)
        elif what == "interrupt":
            raise KeyboardInterrupt()
        elif what == "oserror":
            raise OSError(5, "injected")

    def tr(frame, ev, arg):
        if not traced(frame):
            return None
        if ev in ("line", "return"):
            event()
        return tr
    try:
        if "full" in fault:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fault["full"], resource.RLIM_INFINITY))
        if fault.get("what"):
            sys.settrace(tr)
        r = fetch(name)
        sys.settrace(None)
        out = ("ok", digest(r), n[0])
    except BaseException as e:  # noqa: B902
        sys.settrace(None)
        out = ("error", "%s: %s" % (type(e).__name__, e), n[0])
    os.write(w, pickle.dumps(out))


def start(name, fault):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            Redirect.online = not fault.get("offline")
            child(name, fault, w)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def collect(pid, r):
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died", None, 0)


def call(name, **fault):
    SERVER.plan = {k: fault[k] for k in ("status", "cut", "chunked", "reset") if k in fault}
    out = collect(*start(name, fault))
    call.events = out[2]
    return out[:2]


def paused(name, at, ctx):
    """two processes want the dataset; the first one is stopped at one line while the second runs"""
    SERVER.plan = {}
    pid, r = start(name, dict(what="pause", at=at))
    _, st = os.waitpid(pid, os.WUNTRACED)
    if not os.WIFSTOPPED(st):
        data = os.read(r, 65536)
        os.close(r)
        return [pickle.loads(data)[:2]]
    b = call(name)
    os.kill(pid, signal.SIGCONT)
    return [collect(pid, r)[:2], b]


def judge(name, hist, out):
    kind, d = out
    if kind == "ok" and d != EXPECT[name]:
        fail("%s: after %s the call returned data that is not the dataset", name, hist)


def after(name, hist, ctx):
    """the cache holds nothing or the complete dataset, and the next call works"""
    out = call(name, offline=True)
    judge(name, hist + ["offline"], out)
    had = out[0] == "ok"
    n = SERVER.requests
    out = call(name)
    judge(name, hist + ["online"], out)
    if out[0] != "ok":
        fail("%s: after %s the next call cannot load the dataset: %s", name, hist, out[1])
    if had and SERVER.requests != n:
        fail("%s: after %s a complete cached dataset was downloaded again", name, hist)
    n = SERVER.requests
    for kw in ({}, {"offline": True}, {"status": 500}):
        out = call(name, **kw)
        if out != ("ok", EXPECT[name]):
            fail("%s: after %s and a complete download the cached dataset is not used: %s", name, hist, out)
    if SERVER.requests != n:
        fail("%s: after %s a complete cached dataset was downloaded again", name, hist)
    ctx.step(5)


REPS = [dict(cut=0), dict(cut=8192), dict(cut=9000), dict(cut=8192, chunked=True), dict(cut=10000, reset=True), dict(status=404), dict(status=503), dict(offline=True),
        dict(full=4096), dict(full=12000), dict(what="kill", at=20), dict(what="kill", at=45), dict(what="interrupt", at=40), dict(what="oserror", at=50)]


def cuts(size, step):
    s = set(range(0, size, step)) | {0, 1, size - 1}
    for b in range(8192, size, 8192):
        s |= {b - 1, b, b + 1}
    return sorted(x for x in s if 0 <= x < size)


def cases(tier):
    full = list(DATASETS) if tier == "thorough" else ["movielens_100k", "lastfm"]
    for name in DATASETS:
        for kind in ("length", "chunked", "reset", "full"):
            for part in range(4):
                yield dict(t="cut", name=name, kind=kind, part=part, step=128 if tier == "thorough" else 1024 if name in full else 4096)
        yield dict(t="status", name=name)
        for what in ("kill", "interrupt", "oserror", "pause"):
            for k in range(6):
                yield dict(t="event", name=name, what=what, k=k, of=6, every=1 if name in full else 3)
    for a in range(len(REPS)):
        for name in full[:2]:
            yield dict(t="pairs", name=name, a=a)


def run_case(c, ctx):
    wipe()
    globals()["do_" + c["t"]](c, ctx)
    wipe()
    ctx.sample(c)


def faulted(name, fault, ctx, hist=()):
    hist = list(hist) + [fault]
    out = call(name, **fault)
    judge(name, hist, out)
    ctx.step()
    ctx.outcome(name, sorted(fault.items()), out[0])
    return hist, out


def do_cut(c, ctx):
    name = c["name"]
    size = len(FILES[DATASETS[name][3]])
    for cut in cuts(size, c["step"])[c["part"]::4]:
        if c["kind"] == "full":
            fault = dict(full=cut)
        else:
            fault = dict(cut=cut)
            if c["kind"] == "chunked":
                fault["chunked"] = True
            if c["kind"] == "reset":
                fault["reset"] = True
        wipe()
        hist, out = faulted(name, fault, ctx)
        if out[0] == "ok":
            fail("%s: a download cut off at byte %d of %d (%s) did not raise", name, cut, size, c["kind"])
        after(name, hist, ctx)
        ctx.trace()
    wipe()
    hist, out = faulted(name, dict(chunked=True), ctx)
    if out[0] != "ok":
        fail("%s: %s", name, out)


def do_status(c, ctx):
    for st in (403, 404, 500, 503):
        wipe()
        hist, out = faulted(c["name"], dict(status=st), ctx)
        if out[0] == "ok":
            fail("%s: a download answered with status %d did not raise", c["name"], st)
        after(c["name"], hist, ctx)
    wipe()
    hist, out = faulted(c["name"], dict(offline=True), ctx)
    if out[0] == "ok":
        fail("%s: a dataset was returned without network and cache", c["name"])
    after(c["name"], hist, ctx)
    ctx.trace(5)


def do_event(c, ctx):
    name, what = c["name"], c["what"]
    wipe()
    out = call(name, what="count")
    judge(name, [], out)
    total = call.events
    if what == "kill":
        ctx.count("line_events", 0 if c["k"] else total)
    for at in range(1 + c["k"], total + 1, c["of"]):
        if at % c["every"]:
            continue
        wipe()
        if what == "pause":
            for o in paused(name, at, ctx):
                judge(name, ["a second process runs at line event %d" % at], o)
            ctx.outcome(name, "pause", at)
            hist = ["pause at %d" % at]
            ctx.step(2)
        else:
            hist, out = faulted(name, dict(what=what, at=at), ctx)
        after(name, hist, ctx)
        ctx.trace()


def do_pairs(c, ctx):
    for b in range(len(REPS)):
        wipe()
        hist, _ = faulted(c["name"], REPS[c["a"]], ctx)
        hist, _ = faulted(c["name"], REPS[b], ctx, hist)
        after(c["name"], hist, ctx)
        ctx.trace()
