"""Ambient nondeterminism seams active during every simulated run.

* the *global* random number generators are reseeded from the run seed, so that code
  that (wrongly) reads them is still repeatable;
* ``np.random.default_rng()`` without a seed (fresh OS entropy) is replaced by a
  deterministic generator and counted.
"""
import contextlib
import random as _random

import numpy as np

_real_default_rng = np.random.default_rng


@contextlib.contextmanager
def ambient(ctx):
    _random.seed(12345)
    np.random.seed(12345)
    counter = [0]

    def default_rng(seed=None):
        if seed is None:
            counter[0] += 1
            ctx.probe("ambient_entropy_requests")
            return _real_default_rng(777000 + counter[0])
        return _real_default_rng(seed)

    np.random.default_rng = default_rng
    try:
        with np.errstate(all="ignore"):
            yield
    finally:
        np.random.default_rng = _real_default_rng


def global_rng_state():
    """Fingerprint of the process-global RNGs (legacy numpy and stdlib)."""
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4], hash(_random.getstate()))
