"""Shared by the runner, the workers and the checks."""
import hashlib
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on the case being explored."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def h64(x):
    if not isinstance(x, (bytes, bytearray)):
        x = repr(x).encode()
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "little")


class Ctx:
    """Measures what a run covered."""

    def __init__(self, progress=None, deadline=None):
        self.progress, self.deadline, self.last = progress, deadline, 0
        self.states = set()       # hashes of distinct states of the system explored
        self.outcomes = set()     # hashes of distinct observed outcomes
        self.transitions = 0      # operations executed on the implementation
        self.traces = 0           # complete executions compared with the reference
        self.samples = []
        self.extra = {}

    def state(self, *key):
        self.states.add(h64(key if len(key) != 1 or not isinstance(key[0], bytes) else key[0]))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n
        now = time.monotonic()
        if self.progress and now - self.last > 5:      # tells the runner that this process is alive
            os.utime(self.progress)
            self.last = now

    def late(self):
        return bool(self.deadline) and time.time() > self.deadline

    def outcome(self, *key):
        if len(self.outcomes) < 2000000:
            self.outcomes.add(h64(key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))


def load_check(prop):
    import importlib
    return importlib.import_module("vp.checks." + prop.lower())


def short(x, n=1500):
    s = x if isinstance(x, str) else json.dumps(jsonable(x))
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)
