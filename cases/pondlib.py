"""Shared helpers for the cases about the two-server protocols."""
import numpy as np

from tfv.harness import PondH
from tfv.spec import Ring

R64 = Ring(64)


def low(coin=0.0):
    def f(mode, values, seed):
        return PondH(mode, values, seed, coin=coin)
    return f


def ni(coin=0.0):
    def f(mode, values, seed):
        from tf_encrypted.tensor.fixed import fixed64_ni

        return PondH(mode, values, seed, fpc=fixed64_ni, coin=coin)
    return f


def S(h, *names):
    r = [h.S[n] for n in names]
    return r if len(r) > 1 else r[0]


def enc(h, v):
    """what a float literal is encoded to"""
    return R64.k(np.vectorize(lambda x: int(np.float64(x) * h.F), otypes=[object])(np.asarray(v)))
