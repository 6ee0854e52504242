"""SecureNN: protocol levels are checked one on top of the other.  A level below is replaced by
its contract: the plaintext is put together, the function computed, and the result shared."""
import contextlib

import numpy as np

from tfv.boot import tf
from tfv.boot import z3
from tfv.harness import PondH
from tfv.sym import is_conc


class SnnH(PondH):
    def __init__(self, mode="sym", values=None, seed=0, coin=0.0, level=None):
        super().__init__(mode, values, seed, coin=coin)
        self.level = level

    def make_prot(self):
        from tf_encrypted.protocol.securenn import SecureNN

        return SecureNN()

    @contextlib.contextmanager
    def patches(self):
        from tf_encrypted.protocol.pond.pond import PondPrivateTensor
        from tf_encrypted.protocol.securenn import SecureNN
        from tf_encrypted.protocol.securenn import securenn as m

        old = SecureNN.msb, SecureNN.lsb, m._private_compare

        def msb(prot, x):
            if not isinstance(x, PondPrivateTensor):
                return old[0](prot, x)
            f = x.backing_dtype
            v = (x.share0 + x.share1).value
            return share(prot, f.tensor(tf.cast(v < 0, f.native_type), encode=False))

        def lsb(prot, x):
            if not isinstance(x, PondPrivateTensor):
                return old[1](prot, x)
            v = (x.share0 + x.share1).value
            self.calls.append(x)
            return share(prot, prot.tensor_factory.tensor(tf.bitwise.bitwise_and(v, tf.constant(1, v.dtype)), encode=False))

        self.calls = []
        if self.level == "users":
            SecureNN.msb = msb
        elif self.level == "msb":
            SecureNN.lsb = lsb
        try:
            with super().patches():
                yield
        finally:
            SecureNN.msb, SecureNN.lsb, m._private_compare = old


def share(prot, t):
    return prot._share_and_wrap(t, False)


def snn(level=None, coin=0.0):
    def f(mode, values, seed):
        return SnnH(mode, values, seed, coin=coin, level=level)
    return f


def within(h, name, B):
    """|values| < B"""
    h.assume_in(*[z3.And(v > -B, v < B) if not is_conc(v) else True for v in h.S[name].reshape(-1)])


del np
