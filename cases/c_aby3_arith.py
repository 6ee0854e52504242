"""ABY3 arithmetic sharing: linear operations and products."""
import numpy as np

from tfv.reg import add
from tfv.spec import Ring
from tfv.spec import windows

from .aby3lib import F
from .aby3lib import R64
from .aby3lib import R128
from .aby3lib import S
from .aby3lib import mk
from .aby3lib import mk128

LIN, MUL = "P02", "P03"


def lin(name, mkf, nb, kx, ky, sx, sy, op, shp=((2, 2), (2, 2)), tier="quick"):
    """binary add/sub; kx, ky in {'v' private, 'p' public}"""
    R = Ring(nb)

    def b(h):
        x = h.priv("x", shp[0], scaled=sx) if kx == "v" else h.pub("x", shp[0], scaled=sx)
        y = h.priv("y", shp[1], scaled=sy) if ky == "v" else h.pub("y", shp[1], scaled=sy)
        z = getattr(h.prot, op)(x, y)
        X, Y = S(h, "x", "y")
        h.check(z, R.add(X, Y) if op == "add" else R.sub(X, Y), scaled=sx, share="A")
    add(LIN, name, b, mk=mkf, tier=tier)


for nb, mkf in ((64, mk), (128, mk128)):
    for op in ("add", "sub"):
        for kx, ky in ("vv", "vp", "pv", "pp"):
            lin("%s_%s%s_%d" % (op, kx, ky, nb), mkf, nb, kx, ky, True, True, op)
        for kx, ky in ("vv", "vp", "pv"):
            # the public operand may not enlarge the private one (the code refuses that)
            if kx == "v":
                lin("%s_bcast_%s%s_%d" % (op, kx, ky, nb), mkf, nb, kx, ky, True, True, op, ((2, 3), (3,)))
            if ky == "v":
                lin("%s_bcastl_%s%s_%d" % (op, kx, ky, nb), mkf, nb, kx, ky, False, False, op, ((1, 3), (2, 3)))


def neg(nb, mkf, kind):
    R = Ring(nb)

    def b(h):
        x = h.priv("x", (2, 2)) if kind == "v" else h.pub("x", (2, 2))
        h.check(h.prot.negative(x), R.neg(S(h, "x")), scaled=True, share="A")
    add(LIN, "negative_%s_%d" % (kind, nb), b, mk=mkf)


def reduce_sum(nb, mkf, kind, axis, keep):
    R = Ring(nb)

    def b(h):
        x = h.priv("x", (2, 3, 2)) if kind == "v" else h.pub("x", (2, 3, 2))
        h.check(h.prot.reduce_sum(x, axis=axis, keepdims=keep), R.sum(S(h, "x"), axis, keep), scaled=True, share="A")
    add(LIN, "reduce_sum_%s_%s_%s_%d" % (kind, axis, keep, nb), b, mk=mkf)


for nb, mkf in ((64, mk), (128, mk128)):
    for kind in "vp":
        neg(nb, mkf, kind)
        for axis in (0, 1, 2, None) if nb == 64 else (0, 1):
            for keep in (False, True):
                reduce_sum(nb, mkf, kind, axis, keep)


def add_n(h):
    xs = [h.priv("x%d" % i, (2,)) for i in range(3)] + [h.pub("p", (2,))]
    acc = S(h, "x0")
    for n in ("x1", "x2", "p"):
        acc = R64.add(acc, h.S[n])
    h.check(h.prot.add_n(xs), acc, scaled=True, share="A")


add(LIN, "add_n", add_n, mk=mk)


def scalar_ops(h):
    """python numbers and arrays mixed with shared tensors are encoded like the tensor"""
    x = h.priv("x", (2,), scaled=True)
    u = h.priv("u", (2,), scaled=False)
    X, U = S(h, "x", "u")
    e = lambda v: int(v * (1 << F)) & ((1 << 64) - 1)
    h.check(x + 1.5, R64.add(X, R64.k(e(1.5))), "x+1.5", scaled=True)
    h.check(1.5 - x, R64.sub(R64.k(e(1.5)), X), "1.5-x", scaled=True)
    h.check(x - 2, R64.sub(X, R64.k(e(2))), "x-2", scaled=True)
    h.check(3 + u, R64.add(U, R64.k(3)), "3+u", scaled=False)
    h.check(u - 7, R64.sub(U, R64.k(7)), "u-7", scaled=False)
    h.check(7 - u, R64.sub(R64.k(7), U), "7-u", scaled=False)
    h.check(x + np.array([1.25, -0.5]), R64.add(X, R64.k([e(1.25), e(-0.5)])), "x+arr", scaled=True)
    h.check(-u, R64.neg(U), "-u", scaled=False)
    h.check(x + x, R64.add(X, X), "x+x", scaled=True)
    h.check(x - x, R64.k([0, 0]), "x-x", scaled=True)


add(LIN, "operators_with_constants", scalar_ops, mk=mk)


# ---------------------------------------------------------------- products
def prod(name, mkf, nb, op, kx, ky, shp, sx=False, sy=False, tier="quick", cost=1):
    R = Ring(nb)

    def b(h):
        x = h.priv("x", shp[0], scaled=sx) if kx == "v" else h.pub("x", shp[0], scaled=sx)
        y = h.priv("y", shp[1], scaled=sy) if ky == "v" else h.pub("y", shp[1], scaled=sy)
        z = getattr(h.prot, op)(x, y)
        X, Y = S(h, "x", "y")
        e = R.mul(X, Y) if op.startswith("mul") else R.matmul(X, Y)
        h.check(z, e, scaled=sx or sy, share="A")
    add(MUL, name, b, mk=mkf, tier=tier, cost=cost)


for nb, mkf in ((64, mk), (128, mk128)):
    for kx, ky in ("vv", "vp", "pv", "pp"):
        prod("mul_%s%s_%d" % (kx, ky, nb), mkf, nb, "mul", kx, ky, ((2, 2), (2, 2)))
        if kx + ky != "pp":
            prod("matmul_%s%s_%d" % (kx, ky, nb), mkf, nb, "matmul", kx, ky, ((2, 3), (3, 2)))
            prod("mul_scaled_unscaled_%s%s_%d" % (kx, ky, nb), mkf, nb, "mul", kx, ky, ((2,), (2,)), True, False)
    prod("mul_bcast_vv_%d" % nb, mkf, nb, "mul", "v", "v", ((2, 3), (3,)))
    prod("mul_bcast2_vv_%d" % nb, mkf, nb, "mul", "v", "v", ((2, 3), (2, 1)))
    prod("mul_bcast_small_left_%d" % nb, mkf, nb, "mul", "v", "v", ((3,), (2, 3)))
    prod("matmul_1x1_%d" % nb, mkf, nb, "matmul", "v", "v", ((1, 1), (1, 1)))
    prod("matmul_col_row_%d" % nb, mkf, nb, "matmul", "v", "v", ((3, 1), (1, 2)))
prod("matmul_batched_vv_64", mk, 64, "matmul", "v", "v", ((2, 2, 2), (2, 2, 2)))


def ulp(R, f):
    """|actual * 2^f - product| <= 2^f for products that fit"""
    import tfv.boot as B
    from tfv.sym import bv, is_conc, signed
    n = R.n

    def p(a, s):
        if is_conc(a) and is_conc(s):
            d = signed(a, n) * (1 << f) - signed(s, n)
            return abs(d) <= (1 << f)
        a, s = bv(a, n), bv(s, n)
        z3 = B.z3
        d = a - (s >> z3.BitVecVal(f, n))
        # floor(product / 2^f) or one more
        return z3.And(d >= z3.BitVecVal(0, n), d <= z3.BitVecVal(1, n))
    return p


def scaled(name, mkf, nb, f, op, kx, ky, shp, bound, tier="quick", cost=5):
    """fixed-point product: within one unit in the last place whenever the product fits"""
    R = Ring(nb)

    def b(h):
        x = h.priv("x", shp[0]) if kx == "v" else h.pub("x", shp[0])
        y = h.priv("y", shp[1]) if ky == "v" else h.pub("y", shp[1])
        z = getattr(h.prot, op)(x, y)
        X, Y = S(h, "x", "y")
        e = R.mul(X, Y) if op.startswith("mul") else R.matmul(X, Y)
        h.assume_in(*R.in_range(e, bound))
        h.check(z, e, pred=ulp(R, f), scaled=True, share="A")
    add(MUL, name, b, mk=mkf, tier=tier, cost=cost)


for kx, ky in ("vv", "vp", "pv", "pp"):
    scaled("mul_fixed_%s%s_64" % (kx, ky), mk, 64, 16, "mul", kx, ky, ((2,), (2,)), 62)
    if kx + ky != "pp":
        scaled("matmul_fixed_%s%s_64" % (kx, ky), mk, 64, 16, "matmul", kx, ky, ((1, 2), (2, 2)), 62)
scaled("mul_fixed_vv_128", mk128, 128, 32, "mul", "v", "v", ((2,), (2,)), 126)
scaled("matmul_fixed_vv_128", mk128, 128, 32, "matmul", "v", "v", ((1, 2), (2, 1)), 126)


def square(h):
    x = h.priv("x", (3,), scaled=False)
    X = S(h, "x")
    h.check(h.prot.square(x), R64.mul(X, X), scaled=False)


add(MUL, "square", square, mk=mk)


def mul_constants(h):
    x = h.priv("x", (2,), scaled=True)
    u = h.priv("u", (2,), scaled=False)
    X, U = S(h, "x", "u")
    h.check(u * 5, R64.mul(U, R64.k(5)), "u*5", scaled=False)
    h.check(u * 4, R64.mul(U, R64.k(4)), "u*4", scaled=False)
    h.check(8 * u, R64.mul(U, R64.k(8)), "8*u", scaled=False)
    h.check(u * 1, U, "u*1", scaled=False)
    h.check(x * 2, R64.mul(X, R64.k(2)), "x*2", scaled=True)
    h.check(x * 1, X, "x*1", scaled=True)
    h.check(4.0 * x, R64.mul(X, R64.k(4)), "4.0*x", scaled=True)


add(MUL, "mul_powers_of_two", mul_constants, mk=mk)


def mul_const_fixed(c):
    def b(h):
        x = h.priv("x", (2,), scaled=True)
        X = S(h, "x")
        h.assume_in(*R64.in_range(X, 40))
        k = int(c * (1 << F))
        h.check(x * c, R64.mul(X, R64.k(k)), pred=ulp(R64, F), scaled=True)
    add(MUL, "mul_const_%s" % c, b, mk=mk, cost=3)


for c in (0.5, 0.25, 1.75, -3.0, -0.5, 0.1):
    mul_const_fixed(c)


def prod_(h):
    x = h.priv("x", (3, 2), scaled=False)
    h.check(h.prot.prod(x, axis=0), R64.prod(S(h, "x"), 0), scaled=False)


add(MUL, "prod_axis0", prod_, mk=mk)


def pow_(p):
    def b(h):
        x = h.priv("x", (2,), scaled=False)
        X = S(h, "x")
        e = X
        for _ in range(p - 1):
            e = R64.mul(e, X)
        h.check(h.prot.pow(x, p), e, scaled=False)
    add(MUL, "pow_%d" % p, b, mk=mk)


for p in (1, 2, 3, 5):
    pow_(p)


def conv(name, xs, ws, stride, padding, kx="v", kw="v", tier="quick"):
    def b(h):
        x = h.priv("x", xs, scaled=False) if kx == "v" else h.pub("x", xs, scaled=False)
        w = h.priv("w", ws, scaled=False) if kw == "v" else h.pub("w", ws, scaled=False)
        h.check(h.prot.conv2d(x, w, stride, padding), R64.conv2d(S(h, "x"), S(h, "w"), stride, padding), scaled=False)
    add(MUL, name, b, mk=mk, tier=tier, cost=2)


conv("conv_valid_s1", (1, 1, 3, 3), (2, 2, 1, 1), [1, 1], "VALID")
conv("conv_valid_ch", (1, 2, 3, 4), (2, 2, 2, 2), [1, 1], "VALID")
conv("conv_same_s1", (1, 1, 3, 3), (3, 3, 1, 1), [1, 1], "SAME")
conv("conv_same_s2", (1, 1, 4, 4), (2, 2, 1, 2), [2, 2], "SAME")
conv("conv_same_even", (1, 1, 3, 3), (2, 2, 1, 1), [1, 1], "SAME")
conv("conv_valid_s2_rect", (1, 1, 5, 4), (3, 2, 1, 1), [2, 1], "VALID")
conv("conv_valid_s12", (1, 1, 4, 5), (2, 3, 1, 1), [1, 2], "VALID")
conv("conv_same_s12", (1, 1, 3, 4), (2, 2, 1, 1), [1, 2], "SAME")
conv("conv_same_s21_rect", (1, 1, 4, 3), (3, 2, 1, 1), [2, 1], "SAME")
conv("conv_same_s3", (1, 1, 4, 4), (2, 2, 1, 1), [3, 3], "SAME")
conv("conv_batch_channels", (2, 2, 2, 2), (1, 2, 2, 3), [1, 1], "VALID")
conv("conv_batch_pub_w", (2, 2, 2, 2), (2, 1, 2, 2), [1, 1], "SAME", "v", "p")
conv("conv_batch_pub_x", (2, 2, 2, 2), (2, 1, 2, 2), [1, 1], "SAME", "p", "v")
conv("conv_1x1", (2, 3, 1, 2), (1, 1, 3, 2), [1, 1], "VALID")
conv("conv_batch", (2, 1, 3, 3), (2, 2, 1, 1), [1, 1], "VALID")
conv("conv_pub_w", (1, 1, 3, 3), (2, 2, 1, 1), [1, 1], "VALID", "v", "p")
conv("conv_pub_x", (1, 1, 3, 3), (2, 2, 1, 1), [1, 1], "VALID", "p", "v")


def conv_fixed(kx, kw):
    def b(h):
        x = h.priv("x", (1, 1, 2, 3)) if kx == "v" else h.pub("x", (1, 1, 2, 3))
        w = h.priv("w", (2, 2, 1, 1)) if kw == "v" else h.pub("w", (2, 2, 1, 1))
        z = h.prot.conv2d(x, w, [1, 1], "VALID")
        e = R64.conv2d(S(h, "x"), S(h, "w"), 1, "VALID")
        h.assume_in(*R64.in_range(e, 62))
        h.check(z, e, pred=ulp(R64, F), scaled=True)
    add(MUL, "conv_fixed_%s%s" % (kx, kw), b, mk=mk, cost=5)


for kx, kw in ("vv", "vp", "pv"):
    conv_fixed(kx, kw)


def avgpool(kind, shp, pool, stride, padding="VALID"):
    def b(h):
        x = h.priv("x", shp) if kind == "v" else h.pub("x", shp)
        X = S(h, "x")
        h.assume_in(*R64.in_range(X, 40))
        z = h.prot.avgpool2d(x, pool, stride, padding)
        W, out = windows(X, pool, stride, padding)
        e = np.empty(out, dtype=object)
        c = int(round((1 << F) / (pool[0] * pool[1])))
        for k, w in W.items():
            e[k] = R64.mul(R64.sum(np.array(w, dtype=object)), R64.k(c))[()]
        h.check(z, e, pred=ulp(R64, F), scaled=True)
    add(MUL, "avgpool2d_%s_%s_%dx%d_%d%d_%s" % ((kind, "x".join(map(str, shp))) + tuple(pool) + tuple(stride) + (padding,)), b, mk=mk, cost=5)


avgpool("v", (1, 2, 2, 4), (2, 2), (2, 2))
avgpool("v", (1, 1, 4, 4), (2, 2), (2, 1))
avgpool("v", (1, 1, 4, 4), (2, 1), (1, 3))
avgpool("v", (2, 1, 2, 3), (1, 2), (1, 1))
avgpool("v", (1, 2, 2, 2), (2, 2), (2, 2), "SAME")
