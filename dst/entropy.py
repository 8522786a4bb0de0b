"""The randomness seam.

Everything random the code under test can reach is decided by the scenario:
``numpy.random.default_rng()`` without a seed, numpy's global generator, and the
``random`` module.  Besides ordinary seeded streams an *adversarial* stream can
be installed: a real numpy ``BitGenerator`` interface (a ``bitgen_t`` exposed
through a capsule) whose doubles are scripted, so the whole of numpy's sampling
code stays real while the draws hit the edges (0.0, 1-2**-53, ...).
"""
import contextlib
import ctypes
import random
import threading

import numpy as np

from .core import derive

_real_default_rng = np.random.default_rng

U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class _BitGen(ctypes.Structure):
    _fields_ = [
        ("state", ctypes.c_void_p),
        ("next_uint64", U64),
        ("next_uint32", U32),
        ("next_double", DBL),
        ("next_raw", U64),
    ]


_new_capsule = ctypes.pythonapi.PyCapsule_New
_new_capsule.restype = ctypes.py_object
_new_capsule.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]

EXTREMES = [0.0, 1.0 - 2.0**-53, 2.0**-53, 0.5, 0.5 - 2.0**-54, 0.25, 0.75, 1.0 - 2.0**-30]


class ScriptedBitGenerator:
    """A bit generator whose stream mixes scripted extremes with pseudo-random draws.

    mode: 'low' (all zeros), 'high' (all ones), 'edges' (cycle of EXTREMES),
    'mix' (coin flip between an extreme and a uniform draw), 'stuck' (one value).
    """

    def __init__(self, mode, seed):
        self._rng = random.Random(seed)
        self._mode = mode
        self._stuck = self._rng.random()
        self._i = 0
        self.draws = 0
        self.lock = threading.Lock()
        self._u64 = U64(lambda _: self._next64())
        self._u32 = U32(lambda _: self._next64() >> 32)
        self._dbl = DBL(lambda _: self._next_double())
        self._struct = _BitGen(None, self._u64, self._u32, self._dbl, self._u64)
        self.capsule = _new_capsule(
            ctypes.addressof(self._struct), b"BitGenerator", None
        )
        self.state = {"bit_generator": "Scripted"}

    def _next_double(self):
        # At most every other draw is scripted, and the phase slips now and then:
        # numpy's rejection samplers (which may draw in pairs) must always be able
        # to make progress, as they can with any real entropy.
        self.draws += 1
        self._i += 1
        mode = self._mode
        if mode != "mix" and self._i % 2 == 0 or mode == "mix" and self._rng.random() < 0.5:
            if self._i % 2 == 0 and self._rng.random() < 0.125:
                self._i -= 1
            return self._rng.random()
        if mode == "low":
            return 0.0
        if mode == "high":
            return 1.0 - 2.0**-53
        if mode == "stuck":
            return self._stuck
        if mode == "mix":
            return self._rng.choice(EXTREMES)
        return EXTREMES[(self._i // 2) % len(EXTREMES)]

    def _next64(self):
        # Integer draws (masks, Lemire rejection, ziggurat layers) stay uniform.
        return self._rng.getrandbits(64)


MODES = ["low", "high", "edges", "mix", "stuck"]


@contextlib.contextmanager
def controlled(entropy):
    """entropy: {"seed": int, "mode": None | one of MODES}."""
    seed = int(entropy.get("seed", 0))
    mode = entropy.get("mode")
    count = [0]
    made = []

    def make_bitgen():
        count[0] += 1
        sub = derive("rng", seed, count[0])
        if mode:
            gen = ScriptedBitGenerator(mode, sub)
            made.append(gen)
            return gen
        return np.random.PCG64(sub % 2**63)

    def default_rng(s=None):
        if s is None:
            return np.random.Generator(make_bitgen())
        return _real_default_rng(s)

    old_py = random.getstate()
    old_np = np.random.get_bit_generator()
    old_state = np.random.mtrand._rand.get_state(legacy=False) if not mode else None
    random.seed(derive("py", seed))
    np.random.default_rng = default_rng
    try:
        if mode:
            gen = make_bitgen()
            np.random.set_bit_generator(gen)
        else:
            np.random.seed(derive("np", seed) % 2**32)
        yield count
    finally:
        np.random.default_rng = _real_default_rng
        if mode:
            np.random.set_bit_generator(old_np)
        else:
            try:
                np.random.mtrand._rand.set_state(old_state)
            except Exception:  # noqa: BLE001
                pass
        random.setstate(old_py)
