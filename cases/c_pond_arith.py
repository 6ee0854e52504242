"""Pond: linear operations and products."""
import numpy as np

from tfv.reg import add
from tfv.spec import Ring

from .pondlib import R64
from .pondlib import S
from .pondlib import enc
from .pondlib import low
from .pondlib import ni

LIN, MUL = "P13", "P14"
MK = low()
KINDS = "pvm"


def arg(h, kind, name, shp, scaled):
    if kind == "p":
        return h.pub(name, shp, scaled=scaled)
    x = h.priv(name, shp, scaled=scaled)
    return h.prot.mask(x) if kind == "m" else x


def lin(name, kx, ky, sc, op, shp=((2, 2), (2, 2))):
    def b(h):
        z = getattr(h.prot, op)(arg(h, kx, "x", shp[0], sc), arg(h, ky, "y", shp[1], sc))
        X, Y = S(h, "x", "y")
        h.check(z, R64.add(X, Y) if op == "add" else R64.sub(X, Y), scaled=sc)
    add(LIN, name, b, mk=MK)


for op in ("add", "sub"):
    for kx in KINDS:
        for ky in KINDS:
            lin("%s_%s%s" % (op, kx, ky), kx, ky, True, op)
            lin("%s_%s%s_raw" % (op, kx, ky), kx, ky, False, op, ((2,), (2,)))
    for kx, ky in ("vv", "vp", "mm", "pp"):
        lin("%s_bcast_%s%s" % (op, kx, ky), kx, ky, True, op, ((2, 3), (3,)))


def unary(name, op, spec, kinds=KINDS, shp=(2, 3), **kw):
    for k in kinds:
        def b(h, k=k):
            h.check(getattr(h.prot, op)(arg(h, k, "x", shp, True), **kw), spec(h.S["x"]), scaled=True)
        add(LIN, "%s_%s" % (name, k), b, mk=MK)


unary("negative", "negative", R64.neg)
unary("identity", "identity", lambda X: X, "pv")
for ax in (None, 0, 1):
    for keep in (False, True):
        unary("reduce_sum_%s_%s" % (ax, keep), "reduce_sum", lambda X, ax=ax, keep=keep: R64.sum(X, ax, keep), axis=ax, keepdims=keep)
unary("sum", "sum", lambda X: R64.sum(X, 1), axis=1)


def scan(X, axis, exclusive, reverse):
    X = np.moveaxis(X, axis, 0)
    if reverse:
        X = X[::-1]
    out, acc = [], np.zeros(X.shape[1:], dtype=object)
    acc.fill(0)
    for r in X:
        n = R64.add(acc, r)
        out.append(acc if exclusive else n)
        acc = n
    out = np.stack(out[::-1] if reverse else out)
    return np.moveaxis(out, 0, axis)


for ax in (0, 1):
    for ex in (False, True):
        for rev in (False, True):
            unary("cumsum_%d%d%d" % (ax, ex, rev), "cumsum", lambda X, a=(ax, ex, rev): scan(X, *a), axis=ax, exclusive=ex, reverse=rev)


def add_n(h):
    xs = [h.priv("x%d" % i, (2,)) for i in range(3)] + [h.pub("p", (2,))]
    acc = S(h, "x0")
    for n in ("x1", "x2", "p"):
        acc = R64.add(acc, h.S[n])
    h.check(h.prot.add_n(xs), acc, scaled=True)


add(LIN, "add_n", add_n, mk=MK)


def consts(h):
    x, u, p = h.priv("x", (2,)), h.priv("u", (2,), scaled=False), h.pub("p", (2,))
    X, U, P = S(h, "x", "u", "p")
    e = lambda v: enc(h, v)
    h.check(x + 1.5, R64.add(X, e(1.5)), "x+1.5", scaled=True)
    h.check(1.5 + x, R64.add(X, e(1.5)), "1.5+x", scaled=True)
    h.check(1.5 - x, R64.sub(e(1.5), X), "1.5-x", scaled=True)
    h.check(x - 2, R64.sub(X, e(2)), "x-2", scaled=True)
    h.check(3 + u, R64.add(U, R64.k(3)), "3+u", scaled=False)
    h.check(u - 7, R64.sub(U, R64.k(7)), "u-7", scaled=False)
    h.check(7 - u, R64.sub(R64.k(7), U), "7-u", scaled=False)
    h.check(p + 0.5, R64.add(P, e(0.5)), "p+.5", scaled=True)
    h.check(0.5 - p, R64.sub(e(0.5), P), ".5-p", scaled=True)
    h.check(x + x, R64.add(X, X), "x+x", scaled=True)
    h.check(x - x, R64.k([0, 0]), "x-x", scaled=True)
    h.check((x + p) - (p + x), R64.k([0, 0]), "cancel", scaled=True)
    h.check(x.negative() + x, R64.k([0, 0]), "neg", scaled=True)


add(LIN, "operators_with_constants", consts, mk=MK)


# ---------------------------------------------------------------- products
def prod(name, op, kx, ky, shp, sx=False, sy=False, mkf=MK, cost=1):
    def b(h):
        z = getattr(h.prot, op)(arg(h, kx, "x", shp[0], sx), arg(h, ky, "y", shp[1], sy))
        X, Y = S(h, "x", "y")
        h.check(z, R64.mul(X, Y) if op == "mul" else R64.matmul(X, Y), scaled=sx or sy)
    add(MUL, name, b, mk=mkf, cost=cost)


for kx in KINDS:
    for ky in KINDS:
        prod("mul_%s%s" % (kx, ky), "mul", kx, ky, ((2, 2), (2, 2)))
        prod("mul_left_scaled_%s%s" % (kx, ky), "mul", kx, ky, ((2,), (2,)), True, False)
        prod("mul_right_scaled_%s%s" % (kx, ky), "mul", kx, ky, ((2,), (2,)), False, True)
        prod("matmul_%s%s" % (kx, ky), "matmul", kx, ky, ((2, 3), (3, 2)))
        prod("matmul_left_scaled_%s%s" % (kx, ky), "matmul", kx, ky, ((1, 2), (2, 1)), True, False)
        prod("matmul_right_scaled_%s%s" % (kx, ky), "matmul", kx, ky, ((1, 2), (2, 1)), False, True)
for kx, ky in ("vv", "vp", "pv", "mm"):
    prod("mul_bcast_%s%s" % (kx, ky), "mul", kx, ky, ((2, 3), (3,)))
    prod("mul_bcast_left_%s%s" % (kx, ky), "mul", kx, ky, ((3,), (2, 3)))
    prod("matmul_batch_%s%s" % (kx, ky), "matmul", kx, ky, ((2, 1, 2), (2, 2, 1)))


def square(k):
    def b(h):
        X_ = arg(h, k, "x", (2, 2), False)
        X = h.S["x"]
        h.check(h.prot.square(X_), R64.mul(X, X), scaled=False)
    add(MUL, "square_" + k, b, mk=MK)


for k in KINDS:
    square(k)


def conv(name, kx, ky, xs, ws, s, pad, tier="quick", cost=2):
    st = [s, s] if kx == "v" else (s, s)

    def b(h):
        z = h.prot.conv2d(arg(h, kx, "x", xs, False), arg(h, ky, "w", ws, False), st, pad)
        X, W = S(h, "x", "w")
        h.check(z, R64.conv2d(X, W, st, pad), scaled=False)
    add(MUL, name, b, mk=MK, cost=cost, tier=tier)


for kx, ky in ("vv", "mm", "vm", "mv", "pp"):
    conv("conv_%s%s" % (kx, ky), kx, ky, (1, 1, 3, 3), (2, 2, 1, 2), 1, "VALID")
conv("conv_same", "v", "v", (1, 1, 3, 3), (2, 2, 1, 1), 1, "SAME")
conv("conv_same_stride2", "v", "v", (1, 1, 4, 3), (3, 3, 1, 1), 2, "SAME")
conv("conv_stride2", "v", "v", (1, 2, 4, 4), (2, 2, 2, 1), 2, "VALID")
conv("conv_batch", "m", "v", (2, 1, 3, 2), (2, 1, 1, 2), 1, "VALID")


def reuse(h):
    """one masked operand used in many products"""
    x, y, z = (h.priv(n, (2, 2), scaled=False) for n in "xyz")
    X, Y, Z = S(h, "x", "y", "z")
    m = R64.mul
    h.check(x * y, m(X, Y), "xy")
    h.check(x * z, m(X, Z), "xz")
    h.check(x.matmul(y), R64.matmul(X, Y), "x@y")
    h.check(y.matmul(x), R64.matmul(Y, X), "y@x")
    h.check(x.square(), m(X, X), "xx")
    h.check((x * y) * z, m(m(X, Y), Z), "xyz")
    h.check(x * (y - z) + z, R64.add(m(X, R64.sub(Y, Z)), Z), "mix")
    h.check(x * y + x * y, R64.add(m(X, Y), m(X, Y)), "memoized")


add(MUL, "mask_reused_in_many_products", reuse, mk=MK, cost=2)


def consts_mul(h):
    x, u = h.priv("x", (2,)), h.priv("u", (2,), scaled=False)
    X, U = S(h, "x", "u")
    h.check(u * 3, R64.mul(U, R64.k(3)), "u*3", scaled=False)
    h.check(-5 * u, R64.mul(U, R64.k(-5)), "-5*u", scaled=False)
    h.check(u * u, R64.mul(U, U), "u*u", scaled=False)
    h.check(x * u, R64.mul(X, U), "x*u", scaled=True)
    h.check(u * x, R64.mul(X, U), "u*x", scaled=True)


add(MUL, "products_with_integers", consts_mul, mk=MK)


def masked_struct(name, fn, spec, shp=(2, 3)):
    """a masked tensor stays usable after the operation: its mask follows"""
    def b(h):
        x = h.prot.mask(h.priv("x", shp, scaled=False))
        z = fn(h, x)
        Z = spec(h.S["x"])
        h.check(z, Z, "t", scaled=False)
        y = h.priv("y", Z.shape, scaled=False)
        h.check(h.prot.mul(z, y), R64.mul(Z, h.S["y"]), "product")
    add(MUL, "masked_" + name, b, mk=MK)


masked_struct("transpose", lambda h, x: h.prot.transpose(x), lambda X: X.T)
masked_struct("transpose_perm", lambda h, x: h.prot.transpose(x, perm=[0, 2, 1]), lambda X: X.transpose(0, 2, 1), (1, 2, 3))
masked_struct("reshape", lambda h, x: h.prot.reshape(x, [3, 2]), lambda X: X.reshape(3, 2))
masked_struct("index", lambda h, x: x[:, 1], lambda X: X[:, 1])
masked_struct("negative", lambda h, x: h.prot.negative(x), R64.neg)
masked_struct("expand_dims", lambda h, x: h.prot.expand_dims(x, axis=1), lambda X: X[:, None])
masked_struct("squeeze", lambda h, x: h.prot.squeeze(x, axis=[0]), lambda X: X[0], (1, 3))
masked_struct("gather", lambda h, x: h.prot.gather(x, [2, 0], axis=1), lambda X: X[:, [2, 0]])
masked_struct("stack", lambda h, x: h.prot.stack([x, x], axis=1), lambda X: np.stack([X, X], 1))
masked_struct("concat", lambda h, x: h.prot.concat([x, x], axis=1), lambda X: np.concatenate([X, X], 1))
masked_struct("split", lambda h, x: h.prot.split(x, 3, axis=1)[1], lambda X: X[:, 1:2])
masked_struct("strided_slice", lambda h, x: h.prot.strided_slice(x, [0, 1], [2, 3], [1, 1]), lambda X: X[:, 1:3])
