"""Shared helpers of the ABY3 case batteries."""
import numpy as np

from tfv.harness import ABY3H
from tfv.spec import Ring
from tfv.sym import BITS  # noqa: F401

R64, R128, R8, RB = Ring(64), Ring(128), Ring(8), Ring(0)
F = 16  # fractional bits of the default 64-bit configuration


def mk(mode, values, seed):
    return ABY3H(mode, values, seed)


def mk128(mode, values, seed):
    from tf_encrypted.tensor.fixed import fixed128_heuristic

    return ABY3H(mode, values, seed, fpc=fixed128_heuristic)


def fac(n):
    from tf_encrypted.tensor import factories

    return factories[n]


def boolf():
    import tensorflow as tf
    from tf_encrypted.tensor import factories

    return factories[tf.bool]


def S(h, *names):
    r = [h.S[n] for n in names]
    return r if len(r) > 1 else r[0]


def enc(v, f=F, n=64):
    return Ring(n).k(np.vectorize(lambda x: int(np.float64(x) * (1 << f)), otypes=[object])(np.asarray(v)))
