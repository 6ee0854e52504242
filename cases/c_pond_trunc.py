"""Pond: truncation after fixed-point products."""
import numpy as np

from tfv.boot import z3
from tfv.lia import IntPred
from tfv.reg import add
from tfv.spec import Ring

from .pondlib import R64
from .pondlib import S
from .pondlib import enc
from .pondlib import low
from .pondlib import ni
from .c_pond_arith import arg

P = "P15"
MK, NI = low(), ni()


def both(*cs):
    return z3.And(*cs) if any(isinstance(c, z3.ExprRef) for c in cs) else all(cs)


def trunc_any(K):
    """floor or ceiling of spec / K"""
    return IntPred(lambda d, a: both(K * d - a > -K, K * d - a < K))


def trunc_floor(K):
    return IntPred(lambda d, a: both(a - K * d >= 0, a - K * d < K))


def bounded(h, a, c=1):
    """-B <= c*a < B for the double precision bound B of the configuration"""
    B = h.prot.fixedpoint_config.bound_double_precision // c
    out = []
    for v in np.asarray(a, dtype=object).flat:
        if isinstance(v, z3.ExprRef):
            out.append(z3.And(v >= z3.BitVecVal(-B, 64), v < z3.BitVecVal(B, 64)))
        else:
            v = v - (1 << 64) if v >> 63 else v
            out.append(-B <= v < B)
    return out


def add_(name, b, mkf=MK, cost=2, **kw):
    add(P, name, b, mk=mkf, cost=cost, cut=False, **kw)


def trunc(k):
    def b(h):
        z = h.prot.truncate(arg(h, k, "x", (2,), True))
        X = h.S["x"]
        h.check(z, X, scaled=True, pred=(trunc_floor if k == "p" else trunc_any)(h.F), assume=[] if k == "p" else bounded(h, X))
    add_("truncate_" + k, b)


for k in "pvm":
    trunc(k)


def trunc_twice(h):
    """two truncations of one value and a truncation of a truncation's sum draw their own masks"""
    x = h.priv("x", (1,))
    y = h.prot.truncate(x)
    z = h.prot.truncate(x + x)
    X = h.S["x"]
    h.check(y, X, "y", pred=trunc_any(h.F), assume=bounded(h, X))
    h.check(z, R64.add(X, X), "z", pred=trunc_any(h.F), assume=bounded(h, R64.add(X, X)))


add_("truncate_twice", trunc_twice)


def prod(name, op, kx, ky, shp, pad=None, st=None):
    def b(h):
        x, y = arg(h, kx, "x", shp[0], True), arg(h, ky, "y", shp[1], True)
        X, Y = S(h, "x", "y")
        if op == "conv2d":
            z, e = h.prot.conv2d(x, y, [1, 1], "VALID"), R64.conv2d(X, Y, 1, "VALID")
        else:
            z = getattr(h.prot, op)(x, y)
            e = R64.mul(X, Y) if op == "mul" else R64.matmul(X, Y)
        pub = kx + ky == "pp"
        h.check(z, e, scaled=True, pred=(trunc_floor if pub else trunc_any)(h.F), assume=bounded(h, e))
    add_(name, b)


for kx in "pvm":
    for ky in "pvm":
        prod("mul_%s%s" % (kx, ky), "mul", kx, ky, ((2,), (2,)))
        prod("matmul_%s%s" % (kx, ky), "matmul", kx, ky, ((1, 2), (2, 1)))
for kx, ky in ("vv", "mm", "pp", "vm", "mv"):
    prod("conv_%s%s" % (kx, ky), "conv2d", kx, ky, ((1, 1, 2, 2), (2, 1, 1, 1)))


def square(k):
    def b(h):
        x = arg(h, k, "x", (2,), True)
        X = h.S["x"]
        e = R64.mul(X, X)
        h.check(h.prot.square(x), e, scaled=True, pred=(trunc_floor if k == "p" else trunc_any)(h.F), assume=bounded(h, e))
    add_("square_" + k, b)


for k in "pvm":
    square(k)


def const_mul(k):
    def b(h):
        x = arg(h, k, "x", (2,), True)
        X = h.S["x"]
        for lab, z, c in (("x*1.5", x * 1.5, 1.5), ("-2*x", -2 * x, -2.0), ("x*0.25", 0.25 * x, 0.25),
                          ("x/4", h.prot.div(x, 4), 0.25), ("x/2.5", x / 2.5, 1 / 2.5)):
            e = R64.mul(X, enc(h, [c, c]))
            h.check(z, e, lab, scaled=True, pred=(trunc_floor if k == "p" else trunc_any)(h.F), assume=bounded(h, X, int(abs(c) * h.F)))
    add_("constants_" + k, b)


for k in "pv":
    const_mul(k)


def div_public(h):
    """x / y for a public constant y multiplies by the encoded reciprocal"""
    x = h.priv("x", (2,))
    y = h.prot.define_constant(np.array([2.0, 5.0]))
    X = h.S["x"]
    e = R64.mul(X, enc(h, [0.5, 0.2]))
    h.check(x / y, e, scaled=True, pred=trunc_any(h.F), assume=bounded(h, X, 3280))


add_("div_by_public", div_public)


def nonint(name, fn, spec, shp=((2,), (2,)), kinds="v"):
    """non-interactive truncation: one unit off unless the shares wrap around"""
    def b(h):
        x = arg(h, kinds[0], "x", shp[0], True)
        h.check(fn(h, x), R64.shr(spec(h.S["x"]), 13), scaled=True, pred=R64.within(-1, 1), assume=[c for n in ("x",) for c in R64.in_range(h.S[n], 46) + R64.in_range(h.M[n][0], 62)])
    add(P, name, b, mk=NI, cost=2, cut=False)


nonint("noninteractive_truncate", lambda h, x: h.prot.truncate(x), lambda X: X)


def ni_mul_public(h):
    x, p = h.priv("x", (2,)), h.pub("p", (2,))
    X, Q = S(h, "x", "p")
    # the shares of the product are the products of the shares
    share = R64.mul(h.M["x"][0], Q)
    e = R64.mul(X, Q)
    h.check(x * p, R64.shr(e, 13), scaled=True, pred=R64.within(-1, 1), assume=R64.in_range(e, 46) + R64.in_range(share, 62))


add(P, "noninteractive_mul_public", ni_mul_public, mk=NI, cost=2, cut=False)


def ni_public(h):
    p, q = h.pub("p", (2,)), h.pub("q", (2,))
    A, B = S(h, "p", "q")
    h.check(p * q, R64.shr(R64.mul(A, B), 13), scaled=True)
    h.check(h.prot.truncate(p), R64.shr(A, 13), "t", scaled=True)


add(P, "noninteractive_public", ni_public, mk=NI)
