"""Control of the scripted random distributions compiled into the "rng" variant."""
import ctypes

import numpy as np


class Script:
    def __init__(self, module):
        self.lib = ctypes.CDLL(module.__file__)
        self.lib.vp_rng_set.argtypes = [ctypes.c_void_p, ctypes.c_long]
        self.lib.vp_rng_pos.restype = ctypes.c_long
        self.lib.vp_rng_arity.restype = ctypes.POINTER(ctypes.c_long)
        self.buf = np.zeros(4096, dtype=np.int64)

    def set(self, values):
        values = list(values)
        self.buf[:len(values)] = values
        self.lib.vp_rng_set(self.buf.ctypes.data, len(values))

    def off(self):
        self.lib.vp_rng_set(None, -1)

    def used(self):
        """arity of every draw made since the script was set"""
        n = self.lib.vp_rng_pos()
        a = self.lib.vp_rng_arity()
        return [a[i] for i in range(min(n, 4096))]

    def explore(self, run, prefix=(), limit=None):
        """Calls run() once per outcome of the generator that starts with prefix (depth first, every leaf once)."""
        script = list(prefix)
        n = 0
        while True:
            self.set(script)
            try:
                run()
                ar = self.used()
            finally:
                self.off()
            n += 1
            if limit and n >= limit:
                return n
            script = (script + [0] * len(ar))[:len(ar)]
            k = len(ar) - 1
            while k >= len(prefix) and script[k] + 1 >= ar[k]:
                k -= 1
            if k < len(prefix):
                return n
            script = script[:k] + [script[k] + 1]
