"""Reference semantics over object arrays whose elements are python ints / z3 terms."""
import itertools

import numpy as np

from .boot import z3
from .sym import bin_scalar
from .sym import bl
from .sym import bmap
from .sym import bv
from .sym import is_conc
from .sym import obj
from .sym import reduce_axes
from .sym import s_add
from .sym import s_and
from .sym import s_cmp
from .sym import s_inv
from .sym import s_mul
from .sym import s_neg
from .sym import s_or
from .sym import s_sub
from .sym import s_xor
from .sym import signed

BOOL = bin_scalar("bool", "&"), bin_scalar("bool", "|"), bin_scalar("bool", "!=")


def b_not(v):
    return (not v) if is_conc(v) else z3.Not(v)


class Ring:
    """Z/2^n (n=0: booleans under xor/and)."""

    def __init__(self, n):
        self.n = n

    def _b(self, f, fb, a, b):
        return bmap(fb if self.n == 0 else (lambda x, y: f(x, y, self.n)), np.asarray(a, dtype=object), np.asarray(b, dtype=object))

    def add(self, a, b):
        return self._b(s_add, BOOL[2], a, b)

    def sub(self, a, b):
        return self._b(s_sub, BOOL[2], a, b)

    def mul(self, a, b):
        return self._b(s_mul, BOOL[0], a, b)

    def and_(self, a, b):
        return self._b(s_and, BOOL[0], a, b)

    def or_(self, a, b):
        return self._b(s_or, BOOL[1], a, b)

    def xor(self, a, b):
        return self._b(s_xor, BOOL[2], a, b)

    def neg(self, a):
        return bmap(lambda x: s_neg(x, self.n), a)

    def inv(self, a):
        return bmap(b_not if self.n == 0 else (lambda x: s_inv(x, self.n)), a)

    def k(self, v):
        """constant(s) reduced into the ring"""
        m = (1 << self.n) - 1
        a = np.asarray(v, dtype=object)
        return bmap((lambda x: int(x) & m) if self.n else bool, a)

    def shl(self, a, k):
        n = self.n
        return bmap(lambda v: 0 if k >= n else ((v << k) & ((1 << n) - 1) if is_conc(v) else v << z3.BitVecVal(k, n)), a)

    def shr(self, a, k):
        n = self.n
        k = min(k, n - 1)
        return bmap(lambda v: (signed(v, n) >> k) & ((1 << n) - 1) if is_conc(v) else v >> z3.BitVecVal(k, n), a)

    def lshr(self, a, k):
        n = self.n
        return bmap(lambda v: 0 if k >= n else (v >> k if is_conc(v) else z3.LShR(v, z3.BitVecVal(k, n))), a)

    def cmp(self, op, a, b, sgn=True):
        return bmap(lambda x, y: s_cmp(op, x, y, self.n, sgn), np.asarray(a, dtype=object), np.asarray(b, dtype=object))

    def sum(self, a, axis=None, keep=False):
        ax = list(range(a.ndim)) if axis is None else ([axis] if np.isscalar(axis) else list(axis))
        f = BOOL[2] if self.n == 0 else (lambda x, y: s_add(x, y, self.n))
        return reduce_axes(a, ax, keep, f, 0)

    def prod(self, a, axis=None, keep=False):
        ax = list(range(a.ndim)) if axis is None else [axis]
        return reduce_axes(a, ax, keep, lambda x, y: s_mul(x, y, self.n), 1)

    def ite(self, c, a, b):
        n = self.n

        def f(c, x, y):
            if is_conc(c):
                return x if c else y
            if n == 0:
                return z3.If(c, bl(x), bl(y))
            return z3.If(c, bv(x, n), bv(y, n))
        return bmap(f, np.asarray(c, dtype=object), np.asarray(a, dtype=object), np.asarray(b, dtype=object))

    def max(self, a, b):
        return self.ite(self.cmp(">=", a, b), a, b)

    def reduce_max(self, a, axis=None, keep=False):
        ax = list(range(a.ndim)) if axis is None else [axis]
        o = lambda x: np.array(x, dtype=object)
        return reduce_axes(a, ax, keep, lambda x, y: self.max(o(x), o(y))[()], 0)

    def matmul(self, a, b):
        bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        a = np.broadcast_to(a, bs + a.shape[-2:])
        b = np.broadcast_to(b, bs + b.shape[-2:])
        out = obj(bs + (a.shape[-2], b.shape[-1]))
        for idx in np.ndindex(*bs):
            for i in range(a.shape[-2]):
                for j in range(b.shape[-1]):
                    acc = 0
                    for k in range(a.shape[-1]):
                        acc = s_add(acc, s_mul(a[idx][i, k], b[idx][k, j], self.n), self.n)
                    out[idx + (i, j)] = acc
        return out

    def conv2d(self, x, w, stride, padding, fmt="NCHW"):
        """x NCHW, w HWIO (kh, kw, cin, cout); direct convolution"""
        N, C, H, W = x.shape
        kh, kw, ci, co = w.shape
        sh, sw = (stride, stride) if np.isscalar(stride) else stride
        (pt, pb), (pl, pr), oh, ow = geom(H, W, kh, kw, stride, padding)
        out = obj((N, co, oh, ow))
        for n, o, i, j in np.ndindex(*out.shape):
            acc = 0
            for c, a, b in itertools.product(range(C), range(kh), range(kw)):
                r, s = i * sh - pt + a, j * sw - pl + b
                if 0 <= r < H and 0 <= s < W:
                    acc = s_add(acc, s_mul(x[n, c, r, s], w[a, b, c, o], self.n), self.n)
            out[n, o, i, j] = acc
        return out

    # predicates -------------------------------------------------------------------
    def within(self, lo, hi, bound_bits=None):
        """pred(actual, spec): lo <= actual - spec <= hi (signed, as ring elements)"""
        n = self.n

        def p(a, s):
            if is_conc(a) and is_conc(s):
                return lo <= signed(a - s, n) <= hi
            d = bv(a, n) - bv(s, n)
            return z3.And(d >= z3.BitVecVal(lo, n), d <= z3.BitVecVal(hi, n))
        return p

    def in_range(self, a, bits):
        """constraints -2^bits <= a < 2^bits for every element"""
        out = []
        for v in np.asarray(a, dtype=object).flat:
            if is_conc(v):
                out.append(-(1 << bits) <= signed(v, self.n) < (1 << bits))
            else:
                out.append(z3.And(v >= z3.BitVecVal(-(1 << bits), self.n), v < z3.BitVecVal(1 << bits, self.n)))
        return out


def geom(H, W, kh, kw, stride, padding):
    sh, sw = (stride, stride) if np.isscalar(stride) else stride
    if padding == "SAME":
        oh, ow = -(-H // sh), -(-W // sw)
        ph = max((oh - 1) * sh + kh - H, 0)
        pw = max((ow - 1) * sw + kw - W, 0)
        return (ph // 2, ph - ph // 2), (pw // 2, pw - pw // 2), oh, ow
    return (0, 0), (0, 0), (H - kh) // sh + 1, (W - kw) // sw + 1


def windows(x, pool, stride, padding):
    """NCHW -> dict (n,c,i,j) -> list of elements inside the image"""
    N, C, H, W = x.shape
    sh, sw = (stride, stride) if np.isscalar(stride) else stride
    (pt, _), (pl, _), oh, ow = geom(H, W, pool[0], pool[1], stride, padding)
    out = {}
    for n, c, i, j in np.ndindex(N, C, oh, ow):
        w = []
        for a, b in np.ndindex(*pool):
            r, s = i * sh - pt + a, j * sw - pl + b
            if 0 <= r < H and 0 <= s < W:
                w.append(x[n, c, r, s])
        out[(n, c, i, j)] = w
    return out, (N, C, oh, ow)


def bits_of(v, n, i):
    """bit i of v as bool element"""
    if is_conc(v):
        return bool((v >> i) & 1)
    return z3.Extract(i, i, v) == 1


def bitwise_rev(v, n):
    if is_conc(v):
        return int(format(v, "0%db" % n)[::-1], 2)
    return z3.Concat(*[z3.Extract(i, i, v) for i in range(n)])


def b2i(c, n):
    if is_conc(c):
        return int(c)
    return z3.If(c, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
