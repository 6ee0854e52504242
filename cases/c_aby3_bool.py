"""ABY3 boolean sharing, conversions, comparisons."""
import numpy as np

from tfv.boot import z3
from tfv.reg import add
from tfv.spec import Ring
from tfv.spec import b2i
from tfv.spec import bits_of
from tfv.sym import bmap
from tfv.sym import gather_bits
from tfv.sym import is_conc
from tfv.sym import reverse_bits
from tfv.sym import s_cast
from tfv.sym import signed

from .aby3lib import R64
from .aby3lib import RB
from .aby3lib import S
from .aby3lib import boolf
from .aby3lib import fac
from .aby3lib import mk
from .aby3lib import mk128

BOOL, CONV, CMP = "P05", "P06", "P07"


def fact(nb):
    return boolf() if nb == 0 else fac(nb)


def mkn(nb):
    return mk128 if nb == 128 else mk


# ---- gates -------------------------------------------------------------------------
def gate(op, nb, kx, ky, shp=((2,), (2,))):
    R = Ring(nb)

    def b(h):
        f = fact(nb)
        x = h.priv("x", shp[0], "B", False, f) if kx == "v" else h.pub("x", shp[0], False, f)
        y = h.priv("y", shp[1], "B", False, f) if ky == "v" else h.pub("y", shp[1], False, f)
        X, Y = S(h, "x", "y")
        h.check(getattr(h.prot, op)(x, y), getattr(R, op)(X, Y), share="B", scaled=False)
    add(BOOL, "%s_%s%s_%d_%s" % (op, kx, ky, nb, "x".join(str(len(q)) for q in shp)), b, mk=mkn(nb))


for nb in (0, 8, 64, 128):
    for op in ("xor", "and_", "or_"):
        for kx, ky in ("vv", "vp", "pv"):
            if op == "or_" and kx + ky != "vv":
                continue
            gate(op, nb, kx, ky)
    gate("and_", nb, "v", "v", ((2, 2), (2,)))
    gate("xor", nb, "v", "v", ((2, 2), (2,)))


def not_(nb):
    R = Ring(nb)

    def b(h):
        x = h.priv("x", (2,), "B", False, fact(nb))
        h.check(h.prot.not_(x), R.inv(S(h, "x")), share="B", scaled=False)
        h.check(~x, R.inv(S(h, "x")), "~", share="B", scaled=False)
    add(BOOL, "not_%d" % nb, b, mk=mkn(nb))


def shifts(nb, kind):
    R = Ring(nb)

    def b(h):
        f = fact(nb)
        x = h.priv("x", (2,), "B", False, f) if kind == "v" else h.pub("x", (2,), False, f)
        X = S(h, "x")
        for k in (0, 1, nb // 2 + 1, nb - 1):
            h.check(h.prot.lshift(x, k), R.shl(X, k), "lshift%d" % k)
            h.check(h.prot.rshift(x, k), R.shr(X, k), "rshift%d" % k)
            h.check(h.prot.logical_rshift(x, k), R.lshr(X, k), "lrshift%d" % k)
    add(BOOL, "shifts_%s_%d" % (kind, nb), b, mk=mkn(nb))


def arith_lshift(nb):
    R = Ring(nb)

    def b(h):
        x = h.priv("x", (2,), "A", False, fact(nb))
        X = S(h, "x")
        for k in (0, 1, 13, nb - 1):
            h.check(h.prot.lshift(x, k), R.shl(X, k), "lshift%d" % k, share="A", scaled=False)
    add(BOOL, "arith_lshift_%d" % nb, b, mk=mkn(nb))


for nb in (8, 64, 128):
    shifts(nb, "v")
    if nb != 8:
        arith_lshift(nb)
for nb in (0, 8, 64, 128):
    not_(nb)


def adders(nb, topo, op):
    R = Ring(nb)

    def b(h):
        x, y = h.priv("x", (1,), "B", True, fact(nb)), h.priv("y", (1,), "B", True, fact(nb))
        X, Y = S(h, "x", "y")
        h.check(h.prot.ppa(x, y, topology=topo), R.add(X, Y), share="B", scaled=True)
    add(BOOL, "%s_%s_%d" % (op, topo, nb), b, mk=mkn(nb), cost=20)


for topo in ("kogge_stone", "sklansky"):
    adders(64, topo, "ppa")
adders(128, "kogge_stone", "ppa")


def low(k):
    """equal in the low k bits"""
    return lambda a, s: (a ^ s) & ((1 << k) - 1) == 0


def short_adder(k, topo, nb=64):
    """only the low k bits of the sum, for any operands"""
    R = Ring(nb)

    def b(h):
        x, y = h.priv("x", (1,), "B", False, fact(nb)), h.priv("y", (1,), "B", False, fact(nb))
        X, Y = S(h, "x", "y")
        m = (1 << k) - 1
        h.check(h.prot.ppa(x, y, n_bits=k, topology=topo), R.add(X, Y), share="B", scaled=False, pred=low(k))
    add(BOOL, "ppa_%s_low%d" % (topo, k), b, mk=mkn(nb), cost=8)


for topo in ("kogge_stone", "sklansky"):
    for k in (1, 2, 3, 6, 8, 11, 24, 33, 63, 64):
        short_adder(k, topo)


def bitops(nb):
    def b(h):
        x = h.priv("x", (2,), "B", False, fact(nb))
        X = S(h, "x")
        for st, sd in ((0, 2), (1, 2), (0, 4), (3, 4)):
            h.check(h.prot.bit_gather(x, st, sd), bmap(lambda v: gather_bits(v, nb, st, sd), X), "gather%d_%d" % (st, sd), share="B")
        z = h.prot.bit_split_and_gather(x, 2)
        h.check(z, np.stack([bmap(lambda v: gather_bits(v, nb, s, 2), X) for s in range(2)]), "split", share="B")
        if nb >= 64:
            h.check(h.prot.bit_reverse(x), bmap(lambda v: reverse_bits(v, nb), X), "reverse", share="B")
    add(BOOL, "bit_ops_%d" % nb, b, mk=mkn(nb))


def bits(nb, k):
    def b(h):
        x = h.priv("x", (2,), "B", False, fact(nb))
        X = S(h, "x")
        e = np.empty((2, k), dtype=object)
        for i, j in np.ndindex(2, k):
            e[i, j] = bits_of(X[i], nb, j)
        h.check(h.prot.bits(x, bitsize=k), e, "bits%d" % k, share="B")
    add(BOOL, "bits_%d_%d" % (nb, k), b, mk=mkn(nb), cost=10)


def xor_indices_of(v, nb):
    """bit j of the result: parity of the bits of v at positions with bit j set"""
    k = (nb - 1).bit_length()
    if is_conc(v):
        return sum((bin(v & sum(1 << d for d in range(nb) if (d >> j) & 1)).count("1") & 1) << j for j in range(k))
    outs = []
    for j in reversed(range(k)):
        p = z3.BitVecVal(0, 1)
        for d in range(nb):
            if (d >> j) & 1:
                p = p ^ z3.Extract(d, d, v)
        outs.append(p)
    return z3.Concat(z3.BitVecVal(0, nb - k), *outs)


def xor_indices(nb):
    def b(h):
        x = h.priv("x", (1,), "B", False, fact(nb))
        X = S(h, "x")

        h.check(h.prot.xor_indices(x), bmap(lambda v: xor_indices_of(v, nb), X), "xor_indices", share="B")
    add(BOOL, "xor_indices_%d" % nb, b, mk=mkn(nb), cost=20)


for nb in (8, 64, 128):
    bitops(nb)
bits(64, 5)
bits(64, 64)
xor_indices(64)


def carry(nb, pos):
    def b(h):
        x, y = h.priv("x", (2,), "B", False, fact(nb)), h.priv("y", (2,), "B", False, fact(nb))
        X, Y = S(h, "x", "y")
        z = h.prot.carry(x, y, pos)
        p = (nb - 1 if pos is None else pos) + 1

        def f(a, c):
            if is_conc(a):
                return (((a & ((1 << p) - 1)) + (c & ((1 << p) - 1))) >> p) & 1
            w = nb + 1
            m = z3.BitVecVal((1 << p) - 1, w)
            sm = (z3.ZeroExt(1, a) & m) + (z3.ZeroExt(1, c) & m)
            return z3.ZeroExt(z.backing_dtype.nbits - 1, z3.Extract(p, p, sm))
        h.check(z, bmap(f, X, Y), share="B", scaled=False)
    add(BOOL, "carry_%d_%s" % (nb, pos), b, mk=mkn(nb), cost=5)


carry(64, None)
carry(64, 40)
carry(64, 0)
carry(8, None)
carry(128, None)


# ---- conversions -------------------------------------------------------------------
def heavy(nb):
    return {"tier": "quick" if nb == 64 else "thorough", "cost": 30 if nb == 64 else 90, "limit": 900}


def a2b(nb):
    def b(h):
        x = h.priv("x", (2,), "A", True)
        h.check(h.prot.a2b(x), S(h, "x"), share="B", scaled=True)
    add(CONV, "a2b_%d" % nb, b, mk=mkn(nb), **heavy(nb))


def b2a(nb, **kw):
    def b(h):
        x = h.priv("x", (2,), "B", True)
        X = S(h, "x")
        k = kw.get("nbits") or nb
        e = bmap(lambda v: (v & ((1 << k) - 1)) if is_conc(v) else v & z3.BitVecVal((1 << k) - 1, nb), X)
        h.check(h.prot.b2a(x, **kw), e, share="A", scaled=True)
    add(CONV, "b2a_%d_%s" % (nb, "_".join(str(v) for v in kw.values()) or "ppa"), b, mk=mkn(nb), **heavy(nb))


a2b(64)
a2b(128)


def a2b_low(k, nb=64):
    def b(h):
        x = h.priv("x", (1,), "A", False, fact(nb))
        h.check(h.prot.a2b(x, nbits=k), S(h, "x"), share="B", scaled=False, pred=low(k))
    add(CONV, "a2b_low%d" % k, b, mk=mkn(nb), cost=8)


for k in (1, 5, 8, 24, 33, 63):
    a2b_low(k)
b2a(64)
b2a(64, nbits=16, method="single")
b2a(64, nbits=5, method="single")
b2a(64, nbits=33, method="single")
b2a(128)


def b2a_single(h):
    x = h.priv("x", (3,), "B", False, boolf())
    h.check(h.prot.b2a_single(x), bmap(lambda c: b2i(c, 64), S(h, "x")), share="A", scaled=False)


add(CONV, "b2a_single", b2a_single, mk=mk)


def bit_extract(nb, share, i):
    def b(h):
        x = h.priv("x", (2,), share, True)
        h.check(h.prot.bit_extract(x, i), bmap(lambda v: bits_of(v, nb, i), S(h, "x")), share="B", scaled=False)
    add(CONV, "bit_extract_%s%d_%d" % (share, i, nb), b, mk=mkn(nb), cost=10)


for i in (0, 1, 2, 7, 31, 40, 62, 63):
    bit_extract(64, "A", i)
for i in (0, 1, 40, 63):
    bit_extract(64, "B", i)
bit_extract(128, "A", 127)
bit_extract(128, "B", 100)


def msb(nb):
    def b(h):
        x = h.priv("x", (2,), "A", True)
        h.check(h.prot.msb(x), bmap(lambda v: bits_of(v, nb, nb - 1), S(h, "x")), share="B", scaled=False)
    add(CONV, "msb_%d" % nb, b, mk=mkn(nb), cost=10)


msb(64)
msb(128)


def mul_ab(kx, nb=64):
    R = Ring(nb)

    def b(h):
        x = h.priv("x", (2,), "A", True) if kx == "v" else h.pub("x", (2,), True)
        c = h.priv("c", (2,), "B", False, boolf())
        X, C = S(h, "x", "c")
        h.check(h.prot.mul_ab(x, c), R.ite(C, X, R.k([0, 0])), share="A", scaled=True)
    add(CONV, "mul_ab_%s_%d" % (kx, nb), b, mk=mkn(nb), cost=4, tier="quick" if nb == 64 else "thorough")


mul_ab("v")
mul_ab("p")


def mul_ab_broadcast(kx, sx, sc):
    def b(h):
        x = h.priv("x", sx) if kx == "v" else h.pub("x", sx)
        c = h.priv("c", sc, "B", False, boolf())
        C, X = S(h, "c", "x")
        z = np.broadcast(C, X).shape
        C, X = np.broadcast_to(C, z), np.broadcast_to(X, z)
        h.check(h.prot.mul_ab(x, c), R64.ite(C, X, R64.k(np.zeros(z, dtype=int).tolist())), share="A", scaled=True)
    add(CONV, "mul_ab_broadcast_%s_%s_%s" % (kx, "x".join(map(str, sx)), "x".join(map(str, sc))), b, mk=mk, cost=4)


for k in "vp":
    for sx, sc in (((1,), (3,)), ((2, 1), (2,)), ((2, 2), (2,))):
        mul_ab_broadcast(k, sx, sc)


def cast(share, src, dst):
    def b(h):
        x = h.priv("x", (2,), share, False, fac(src))
        d, s = "int%d" % dst, "int%d" % src
        if dst == 128 or src == 128:
            return
        e = bmap(lambda v: s_cast(v, s, d), S(h, "x"))
        h.check(x.cast(fac(dst)), e, share=share, scaled=False)
    add(CONV, "cast_%s_%d_%d" % (share, src, dst), b, mk=mk)


for dst in (32, 16, 8):
    cast("A", 64, dst)
    cast("B", 64, dst)


# ---- comparisons --------------------------------------------------------------------
def compare(op, sym, kx, ky, nb=64, tier="quick"):
    R = Ring(nb)

    def b(h):
        x = h.priv("x", (2,)) if kx == "v" else h.pub("x", (2,))
        y = h.priv("y", (2,)) if ky == "v" else h.pub("y", (2,))
        X, Y = S(h, "x", "y")
        h.assume_in(*R.in_range(X, nb - 2), *R.in_range(Y, nb - 2))
        h.check(getattr(h.prot, op)(x, y), R.cmp(sym, X, Y), share="B", scaled=False)
    add(CMP, "%s_%s%s_%d" % (op, kx, ky, nb), b, mk=mkn(nb), cost=10, tier=tier)


for op, sym in (("less_than", "<"), ("less_equal", "<="), ("greater_than", ">"), ("greater_equal", ">="), ("equal", "==")):
    for kx, ky in ("vv", "vp", "pv"):
        compare(op, sym, kx, ky)
compare("less_than", "<", "v", "v", 128)
compare("greater_equal", ">=", "v", "v", 128)
compare("equal", "==", "v", "v", 128)


def equal_zero(nb):
    R = Ring(nb)

    def b(h):
        x = h.priv("x", (2,))
        X = S(h, "x")
        # -2^(n-1) is its own negation: both sign bits are set and the answer is still "no"
        h.check(h.prot.equal_zero(x), R.cmp("==", X, R.k([0, 0])), share="B", scaled=False)
    add(CMP, "equal_zero_%d" % nb, b, mk=mkn(nb), cost=10)


equal_zero(64)
equal_zero(128)


def operators(h):
    x = h.priv("x", (1,))
    X = S(h, "x")
    h.assume_in(*R64.in_range(X, 62))
    one = R64.k([1 << 16])
    h.check(x < 1, R64.cmp("<", X, one), "x<1")
    h.check(x > 1.0, R64.cmp(">", X, one), "x>1.0")
    h.check(x <= 1, R64.cmp("<=", X, one), "x<=1")
    h.check(x >= 1, R64.cmp(">=", X, one), "x>=1")


add(CMP, "operators_with_constants", operators, mk=mk, cost=15)
