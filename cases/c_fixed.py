"""Fixed-point encoding and decoding (P22): floats in, ring elements and floats out."""
import contextlib

import numpy as np

from tfv.boot import tf
from tfv.boot import z3
from tfv.harness import ABY3H
from tfv.harness import PondH
from tfv.npsym import arr
from tfv.npsym import numpy_inputs
from tfv.reg import add
from tfv.sym import FP
from tfv.sym import is_conc
from tfv.sym import signed

P = "P22"
F64 = z3.Float64()


def mods():
    from tf_encrypted.protocol.aby3 import aby3
    from tf_encrypted.protocol.pond import pond
    from tf_encrypted.tensor import native

    import sys

    from tf_encrypted.operations import tf_i128  # noqa: F401
    from tf_encrypted.tensor import int128

    return [aby3, pond, native, int128, sys.modules["tf_encrypted.operations.tf_i128.tf_i128"]]


class NpMix:
    """inputs given as NumPy arrays"""
    fragile = True

    @contextlib.contextmanager
    def patches(self):
        with super().patches():
            if self.mode == "sym":
                with numpy_inputs(self, mods()):
                    yield
            else:
                yield

    def plain(self, name, shape, dtype="int64", device=None):
        from tfv.sym import BITS

        X = self.secret(name, shape, dtype if dtype in FP else BITS[dtype])
        if self.mode == "sym":
            return arr(X, dtype)
        if dtype in FP:
            return np.array(X.tolist(), dtype=dtype)
        return np.array([signed(int(v), BITS[dtype]) for v in X.reshape(-1)], dtype=dtype).reshape(X.shape)


class ABY3N(NpMix, ABY3H):
    pass


class PondN(NpMix, PondH):
    pass


def setup(name, via_np=False):
    """-> (maker, bits of the ring)"""
    from tf_encrypted.tensor import fixed

    A, Q = (ABY3N, PondN) if via_np else (ABY3H, PondH)
    if name == "aby3":
        return lambda mode, values, seed: A(mode, values, seed), 64
    if name == "aby3_128":
        return lambda mode, values, seed: A(mode, values, seed, fpc=fixed.fixed128_heuristic), 128
    if name == "pond":
        return lambda mode, values, seed: Q(mode, values, seed), 64
    if name == "pond_ni":
        return lambda mode, values, seed: Q(mode, values, seed, fpc=fixed.fixed64_ni), 64
    from .snnlib import SnnH

    class N(NpMix, SnnH):
        pass
    return lambda mode, values, seed: (N if via_np else SnnH)(mode, values, seed), 64


def scale(h):
    return h.prot.fixedpoint_config.scaling_factor


def limit(h):
    c = h.prot.fixedpoint_config
    return c.scaling_base ** c.precision_integral


def to64(v, dt):
    """exact real value of a plain element as a double"""
    if is_conc(v):
        return float(v) if dt in FP else float(signed(int(v), 64 if dt == "int64" else 32))
    if dt == "float64":
        return v
    if dt == "float32":
        return z3.fpFPToFP(z3.RNE(), v, F64)
    return z3.fpSignedToFP(z3.RNE(), v, F64)


def ranged(h, name, dt):
    L = float(limit(h))
    for v in h.S[name].reshape(-1):
        if is_conc(v):
            h.assume_in(bool(abs(to64(v, dt)) <= L))
        elif dt in FP:
            w = to64(v, dt)
            h.assume_in(z3.And(z3.fpLEQ(w, z3.FPVal(L, F64)), z3.fpGEQ(w, z3.FPVal(-L, F64))))
        else:
            h.assume_in(v >= -int(L), v <= int(L))


def encoded(h, dt, nb, scaled):
    """the ring element lies within one unit of value * scaling factor"""
    S = float(scale(h)) if scaled else 1.0

    def pred(e, v):
        if is_conc(e) and is_conc(v):
            return abs(signed(int(e), nb) - to64(v, dt) * S) < 1
        e = z3.BitVecVal(int(e), nb) if is_conc(e) else e
        w = to64(v, dt)
        if is_conc(w):
            w = z3.FPVal(w, F64)
        t = z3.fpMul(z3.RNE(), w, z3.FPVal(S, F64)) if scaled else w
        d = z3.fpSub(z3.RNE(), z3.fpSignedToFP(z3.RNE(), e, F64), t)
        return z3.And(z3.fpLT(d, z3.FPVal(1.0, F64)), z3.fpGT(d, z3.FPVal(-1.0, F64)))
    return pred


def define(h, kind, v):
    pr = h.prot
    if kind == "private_input":
        return pr.define_private_input("input-provider", v)
    if kind == "private_input_unscaled":
        return pr.define_private_input("input-provider", v, apply_scaling=False)
    if kind == "public_input":
        return pr.define_public_input("input-provider", v)
    if kind == "private_variable":
        return pr.define_private_variable(v())
    if kind == "public_variable":
        return pr.define_public_variable(v())
    if kind == "constant":
        return pr.define_constant(v())
    if kind == "local":
        return pr.define_local_computation("input-provider", v)
    raise ValueError(kind)


def encode(which, kind, dt, via_np=False, cost=1, tier="quick"):
    mk, nb = setup(which, via_np)

    def b(h):
        dev = "/job:tfe/replica:0/task:%d/device:CPU:0" % 3 if h.mode == "sym" else None
        z = define(h, kind, lambda: h.plain("x", (1,), dt, device=dev))
        if kind == "private_variable" or kind == "public_variable":
            z = z.read_value() if hasattr(z, "read_value") else z
        ranged(h, "x", dt)
        sc = not kind.endswith("unscaled")
        h.check(z, h.S["x"], scaled=sc, pred=encoded(h, dt, nb, sc))
    add(P, "encode_%s_%s_%s%s" % (which, kind, dt, "_numpy" if via_np else ""), b, mk=mk, cost=cost, tier=tier)


PROTS = ("aby3", "aby3_128", "pond", "pond_ni", "snn")
for w in PROTS:
    for kd in ("private_input", "public_input", "private_variable", "public_variable", "local"):
        encode(w, kd, "float64", tier="thorough" if w == "aby3_128" and kd in ("local", "public_input", "private_variable") else "quick")
    for dt in ("float32", "int32", "int64"):
        encode(w, "private_input", dt)
        encode(w, "public_variable", dt)
for w in ("aby3", "aby3_128"):
    encode(w, "constant", "float64")
for w in PROTS:
    for dt in ("float64", "float32", "int32", "int64"):
        encode(w, "constant", dt, True)
        encode(w, "private_variable", dt, True)
        encode(w, "public_variable", dt, True)


def decode(which, kind, scaled=True):
    """what a party reads from a value it receives: element / scaling factor"""
    mk, nb = setup(which)

    def b(h):
        p = (1,)
        S, L = float(scale(h)), limit(h)
        bound = int(L * S) if scaled else int(h.prot.fixedpoint_config.bound_single_precision) // 2
        seen = []
        if kind == "native":
            x = h.pub("x", p, scaled)
            seen = [x.to_native()]
        elif kind == "output":
            x = h.pub("x", p, scaled)
            h.prot.define_output("result-receiver", [x], lambda t: seen.append(t))
        elif kind == "output_private":
            x = h.priv("x", p, scaled=scaled)
            h.prot.define_output("result-receiver", [x], lambda t: seen.append(t))
        elif kind == "reveal":
            x = h.priv("x", p, scaled=scaled)
            seen = [h.prot.reveal(x).to_native()]
        X = h.S["x"]
        for v in X.reshape(-1):
            h.assume_in(bool(abs(signed(int(v), nb)) <= bound) if is_conc(v) else z3.And(v >= -bound, v <= bound))

        def pred(d, e):
            if is_conc(d) and is_conc(e):
                return (float(d) if isinstance(d, float) else signed(int(d), nb)) == signed(int(e), nb) / (S if scaled else 1)
            if not scaled:
                if z3.is_fp(d):
                    return z3.fpEQ(d, z3.fpSignedToFP(z3.RNE(), e, F64))
                return d == e
            if not z3.is_fp(d):
                return z3.BoolVal(False)
            return d == z3.fpDiv(z3.RNE(), z3.fpSignedToFP(z3.RNE(), e, d.sort()), z3.FPVal(S, d.sort()))
        h.check_plain(seen[0], X, "decoded", pred)
    add(P, "decode_%s_%s%s" % (which, kind, "" if scaled else "_unscaled"), b, mk=mk)


for w in PROTS:
    for kd in ("native", "output", "output_private", "reveal"):
        decode(w, kd)
    decode(w, "native", False)
    decode(w, "output_private", False)


def roundtrip(which, dt, kind="private_input", via_np=False, tier="quick"):
    """a float goes in, is shared, revealed and read: off by less than one unit of the encoding"""
    mk, nb = setup(which, via_np)

    def b(h):
        dev = "/job:tfe/replica:0/task:3/device:CPU:0" if h.mode == "sym" else None
        z = define(h, kind, lambda: h.plain("x", (1,), dt, device=dev))
        ranged(h, "x", dt)
        S = scale(h)
        got = h.prot.reveal(z).to_native()
        # one unit, and the rounding of two double operations
        tol = 1.0 / S + 2.0 ** -41 * limit(h)

        def pred(d, v):
            if is_conc(d) and is_conc(v):
                return abs(float(d) - to64(v, dt)) <= tol
            if not z3.is_fp(d):
                return z3.BoolVal(False)
            w = z3.fpSub(z3.RNE(), d, to64(v, dt))
            return z3.And(z3.fpLEQ(w, z3.FPVal(tol, F64)), z3.fpGEQ(w, z3.FPVal(-tol, F64)))
        h.check_plain(got, h.S["x"], "read back", pred)
    add(P, "roundtrip_%s_%s_%s%s" % (which, kind, dt, "_numpy" if via_np else ""), b, mk=mk, tier=tier)


for w in ("aby3", "aby3_128", "pond_ni"):  # base 3: each way on its own, above
    roundtrip(w, "float64")
    roundtrip(w, "float32", "private_variable")
del tf
