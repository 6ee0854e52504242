"""P23: the C++ kernels compute the functions the rest of the checks take them for."""
import itertools

import numpy as np

from tfv import sym
from tfv.boot import z3
from tfv.sym import Sym
from tfv.sym import obj

from .cpplib import BITS
from .cpplib import Call
from .cpplib import compare
from .cpplib import direct

P = "P23"


class Op:
    """what the encoder's definitions ask of a graph operation"""

    def __init__(self, dts, attrs):
        self.attrs = attrs
        self.inputs = [type("I", (), {"dtype": type("D", (), {"base_dtype": type("B", (), {"name": d})})}) for d in dts]

    def get_attr(self, n):
        return self.attrs[n]


def var(name, shape, dt):
    a = obj(shape)
    for k, i in enumerate(np.ndindex(*shape)):
        n = "%s_%d" % (name, k)
        a[i] = z3.FP(n, z3.Float64()) if dt == "float64" else z3.BitVec(n, BITS[dt])
    return a


def want(op, ins, attrs):
    """ins: list of (dtype, object array | numpy constant)"""
    conv = [Sym(d, v) if v.dtype == object else v for d, v in ins]
    return sym.CUSTOM[op](sym.Interp.__new__(sym.Interp), Op([d for d, _ in ins], attrs), conv)[0].a


def run(res, fam, op, dt, ins, out, attrs=(), threads=1, assume=()):
    attrs = dict(attrs)
    w = want(op, ins, attrs)
    w = np.asarray(w, dtype=object)
    if op == "BitSplitAndGather":
        w = np.asarray(w, dtype=object)
    cin = [(d, v if v.dtype == object else np.vectorize(int, otypes=[object])(v) if v.size else v.astype(object)) for d, v in ins]
    compare(res, Call(fam, op, dt, cin, out, attrs, threads), w, assume)


SH = [(), (1,), (5,), (2, 3)]


# ---- int8 .. int64
def aux_gather(dt, full):
    def f(res):
        n = BITS[dt]
        pairs = [(s, t) for t in ([1, 2, 3, 4, 8, 16, 32] if full or n <= 16 else [2, 3, 8, 32]) for s in ([0, 1, 2, 5, n // 2, n - 1] if full or n <= 16 else [0, 1, n - 1]) if s < n and t <= n]
        for s, t in pairs:
            run(res, "aux", "BitGather", dt, [(dt, var("x", (2,), dt))], dt, dict(start=s, stride=t), 1 if t % 2 else 4)
        for sh in SH:
            run(res, "aux", "BitGather", dt, [(dt, var("x", sh, dt))], dt, dict(start=1, stride=2), 4)
    return f


def aux_split(dt):
    def f(res):
        n = BITS[dt]
        for t in (1, 2, 4, 8, 16, 32):
            if t > n:
                continue
            for th in (1, 4):
                run(res, "aux", "BitSplitAndGather", dt, [(dt, var("x", (3,), dt))], dt, dict(stride=t), th)
        for sh in SH:
            for th in (1, 4):
                run(res, "aux", "BitSplitAndGather", dt, [(dt, var("x", sh, dt))], dt, dict(stride=2), th)
    return f


def aux_un(op):
    def f(res):
        for sh in SH:
            for th in (1, 4):
                run(res, "aux", op, None, [("int64", var("x", sh, "int64"))], "int64", (), th)
    return f


for _dt in ("int8", "int16", "int32", "int64"):
    direct(P, "BitGather " + _dt, aux_gather(_dt, False), cost=8)
    direct(P, "BitGather %s all" % _dt, aux_gather(_dt, True), cost=20, tier="thorough")
    direct(P, "BitSplitAndGather " + _dt, aux_split(_dt), cost=8)
direct(P, "BitReverse", aux_un("BitReverse"), cost=6)


def xor_indices(fam, op):
    """a loop that ends with the highest set bit: one symbolic element at a time"""
    def f(res):
        w = 1 if fam == "aux" else 2
        for sh in ((), (5,), (2, 3)):
            n = int(np.prod(sh))
            for k in sorted({0, n - 1}):
                x = var("x", sh + ((2,) if w == 2 else ()), "int64")
                f = x.reshape(-1)
                for j in range(n * w):
                    if j // w != k:
                        f[j] = (0x9E3779B97F4A7C15 * (j + 1)) & (2 ** 64 - 1)
                run(res, fam, op, None, [("int64", x)], "int64", (), 4 if k % 2 else 1)
    return f


direct(P, "XorIndices", xor_indices("aux", "XorIndices"), cost=8)
direct(P, "I128XorIndices", xor_indices("i128", "I128XorIndices"), cost=60)


# ---- int128
def i(name, shape):
    return ("int64", var(name, shape + (2,), "int64"))


BC = [((3,), (3,)), ((2, 3), (2, 3)), ((), ()), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 3), ()), ((), (2, 3)), ((2, 1), (1, 3)), ((1,), (3,)), ((2, 3), (2, 1)),
      ((2, 2, 3), (2, 1, 3)), ((2, 1, 3), (1, 2, 1)), ((1, 3), (2, 3)), ((3,), (1,)), ((2, 1, 2, 1), (2, 2))]


def i128_bin(op, pairs):
    def f(res):
        for k, (a, b) in enumerate(pairs):
            run(res, "i128", op, None, [i("x", a), i("y", b)], "bool" if op == "I128Equal" else "int64", (), 4 if k % 2 else 1)
            if res.status == "violation":
                return
    return f


def i128_un(op):
    def f(res):
        for sh in SH:
            for th in (1, 4):
                run(res, "i128", op, None, [i("x", sh)], "int64", (), th)
    return f


def i128_shift(op):
    def f(res):
        for s in (0, 1, 2, 17, 63, 64, 65, 100, 126, 127):
            run(res, "i128", op, None, [i("x", (2,)), ("int64", np.array(s, dtype=np.int64))], "int64", (), 1)
        ks = np.array([1, 64, 127], dtype=np.int64)
        for a in ((3,), (2, 3), (2, 1)):
            run(res, "i128", op, None, [i("x", a), ("int64", ks)], "int64", (), 4)
        run(res, "i128", op, None, [i("x", (2, 3)), ("int64", np.array(5, dtype=np.int64))], "int64", (), 4)
        run(res, "i128", op, None, [i("x", (2, 3)), ("int64", np.array([5], dtype=np.int64))], "int64", (), 4)
        run(res, "i128", op, None, [i("x", ()), ("int64", np.array(70, dtype=np.int64))], "int64", (), 4)
        run(res, "i128", op, None, [i("x", (2, 3)), ("int64", np.array([[5], [70]], dtype=np.int64))], "int64", (), 4)
    return f


def i128_matmul(res):
    for a, b in (((1, 1), (1, 1)), ((1, 3), (3, 2)), ((2, 3), (3, 2)), ((2, 2), (2, 3)), ((3, 2), (2, 1)), ((1, 4), (4, 1))):
        for th in (1, 4):
            run(res, "i128", "I128MatMul", None, [i("x", a), i("y", b)], "int64", (), th)


def i128_sum(rank):
    def f(res):
        sh = {1: (3,), 2: (2, 3), 3: (2, 3, 2), 4: (2, 1, 3, 2)}[rank]
        for r in range(1, rank + 1):
            for ax in itertools.combinations(range(rank), r):
                for keep in (False, True):
                    run(res, "i128", "I128ReduceSum", None,
                        [i("x", sh), ("int64", np.array(ax, dtype=np.int64)), ("bool", np.array(keep))], "int64", (), 4 if keep else 1)
                    if res.status == "violation":
                        return
        for keep in (False, True):
            run(res, "i128", "I128ReduceSum", None, [i("x", sh), ("int64", np.array(rank - 1, dtype=np.int64)), ("bool", np.array(keep))], "int64", (), 1)
    return f


def i128_gather(res):
    for s, t in ((0, 1), (0, 2), (1, 2), (0, 3), (2, 3), (0, 64), (63, 64), (1, 64), (0, 32), (31, 32), (64, 2), (100, 5), (127, 1)):
        run(res, "i128", "I128BitGather", None, [i("x", (2,))], "int64", dict(start=s, stride=t), 1)
    for sh in SH:
        run(res, "i128", "I128BitGather", None, [i("x", sh)], "int64", dict(start=1, stride=2), 4)


def i128_split(res):
    for t in (1, 2, 4, 8, 16, 32, 64, 128):
        for th in (1, 4):
            run(res, "i128", "I128BitSplitAndGather", None, [i("x", (2,))], "int64", dict(stride=t), th)
    for sh in SH:
        for th in (1, 4):
            run(res, "i128", "I128BitSplitAndGather", None, [i("x", sh)], "int64", dict(stride=2), th)


def to_i128(res):
    for sc in (1, 2 ** 20, 2 ** 40):
        for sh in ((), (2,), (2, 3)):
            x = var("x", sh, "float64")
            big = z3.FPVal(float(2 ** 126) / sc, z3.Float64())
            run(res, "i128", "ToI128", None, [("float64", x), ("int64", np.array(sc, dtype=np.int64))], "int64", (), 1,
                [z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLT(z3.fpAbs(v), big)) for v in x.reshape(-1)])


def from_i128(res):
    for sc in (1, 2 ** 20, 2 ** 40):
        for sh in ((), (2,), (2, 3)):
            run(res, "i128", "FromI128", None, [i("x", sh), ("int64", np.array(sc, dtype=np.int64))], "float64", (), 1)


for _op in ("I128Add", "I128Sub", "I128Mul"):
    direct(P, _op, i128_bin(_op, BC), cost=20)
direct(P, "I128Equal", i128_bin("I128Equal", [p for p in BC if p[0] == p[1] or () in p] + [((1,), (3,))]), cost=12)
direct(P, "I128Equal_broadcast", i128_bin("I128Equal", [((2, 3), (3,))]), cost=3)
direct(P, "I128Equal_single_element", i128_bin("I128Equal", [((3,), (1,))]), cost=3)
for _op in ("I128Negate", "I128Abs", "I128BitReverse"):
    direct(P, _op, i128_un(_op), cost=12)
for _op in ("I128LeftShift", "I128RightShift", "I128LogicRightShift"):
    direct(P, _op, i128_shift(_op), cost=14)
direct(P, "I128MatMul", i128_matmul, cost=20)
for _r in (1, 2, 3, 4):
    direct(P, "I128ReduceSum rank %d" % _r, i128_sum(_r), cost=14, tier="quick" if _r < 4 else "thorough")
direct(P, "I128BitGather", i128_gather, cost=14)
direct(P, "I128BitSplitAndGather", i128_split, cost=20)
direct(P, "ToI128", to_i128, cost=30)
direct(P, "FromI128", from_i128, cost=30)
