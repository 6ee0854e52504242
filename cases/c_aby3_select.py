"""ABY3: oblivious selection, maxima, pooling, sorting."""
import contextlib

import numpy as np

from tfv.boot import z3
from tfv.reg import add
from tfv.spec import b2i
from tfv.spec import windows
from tfv.sym import bmap
from tfv.sym import is_conc
from tfv.sym import obj

from .aby3lib import R64
from .aby3lib import RB
from .aby3lib import S
from .aby3lib import boolf
from .aby3lib import mk

P = "P08"
o1 = lambda x: np.array(x, dtype=object)


def select(kx, ky, share="A", shp=(2,)):
    def b(h):
        c = h.priv("c", shp, "B", False, boolf())
        x = h.priv("x", shp, share) if kx == "v" else h.pub("x", shp)
        y = h.priv("y", shp, share) if ky == "v" else h.pub("y", shp)
        C, X, Y = S(h, "c", "x", "y")
        h.check(h.prot.select(c, x, y), R64.ite(C, Y, X), share=share, scaled=True)
    add(P, "select_%s%s_%s" % (kx, ky, share), b, mk=mk, cost=2)


for k in ("vv", "vp", "pv"):
    select(*k)


def select_broadcast(sc, sx, sy):
    def b(h):
        c, x, y = h.priv("c", sc, "B", False, boolf()), h.priv("x", sx), h.priv("y", sy)
        C, X, Y = S(h, "c", "x", "y")
        z = np.broadcast_shapes(sc, sx, sy)
        C, X, Y = (np.broadcast_to(v, z) for v in (C, X, Y))
        h.check(h.prot.select(c, x, y), R64.ite(C, Y, X), share="A", scaled=True)
    add(P, "select_broadcast_%s" % "_".join("x".join(map(str, s)) for s in (sc, sx, sy)), b, mk=mk, cost=2)


select_broadcast((3,), (1,), (1,))
select_broadcast((2, 1), (2, 2), (2, 2))
select_broadcast((2,), (2, 2), (1, 2))


def select_bits(h):
    c = h.priv("c", (3,), "B", False, boolf())
    x = h.priv("x", (3,), "B", False, boolf())
    y = h.priv("y", (3,), "B", False, boolf())
    C, X, Y = S(h, "c", "x", "y")
    h.check(h.prot.select(c, x, y), RB.ite(C, Y, X), share="B", scaled=False)


add(P, "select_bits", select_bits, mk=mk)


def ranged(h, name, shp, kind="v", bits=62):
    x = h.priv(name, shp) if kind == "v" else h.pub(name, shp)
    h.assume_in(*R64.in_range(h.S[name], bits))
    return x, h.S[name]


def binary(op, kx, ky):
    def b(h):
        x, X = ranged(h, "x", (2,), kx)
        y, Y = ranged(h, "y", (2,), ky)
        mx, mn = R64.max(X, Y), R64.ite(R64.cmp(">=", X, Y), Y, X)
        if op == "maximum":
            h.check(h.prot.maximum(x, y), mx, share="A", scaled=True)
        else:
            a, c = h.prot.cmp_swap(x, y)
            h.check(a, mn, "min", share="A", scaled=True)
            h.check(c, mx, "max", share="A", scaled=True)
    add(P, "%s_%s%s" % (op, kx, ky), b, mk=mk, cost=8)


for op in ("maximum", "cmp_swap"):
    for k in ("vv", "vp", "pv"):
        binary(op, *k)


def relu(h):
    x, X = ranged(h, "x", (2,))
    h.check(h.prot.relu(x), R64.ite(R64.cmp(">=", X, R64.k([0, 0])), X, R64.k([0, 0])), share="A", scaled=True)


add(P, "relu", relu, mk=mk, cost=6)


def relu_with_cmp(h):
    x, X = ranged(h, "x", (2,), "v", 62)
    z, bit = h.prot.relu_with_cmp(x)
    pos = R64.cmp(">=", X, R64.k([0, 0]))
    h.check(z, R64.ite(pos, X, R64.k([0, 0])), "relu", share="A", scaled=True)
    # the companion bit is the derivative; at zero either value is a subgradient
    h.check(bit, pos, "bit", share="B", pred=None, assume=[x != 0 for x in X if not is_conc(x)] or [bool(x) for x in X])


add(P, "relu_with_cmp", relu_with_cmp, mk=mk, cost=8)


def reduce_max(shp, axis, keep, method, tier="quick"):
    def b(h):
        with unrolled(h):
            x, X = ranged(h, "x", shp)
            kw = {} if method is None else {"method": method}
            z = h.prot.reduce_max(x, axis=axis, keepdims=keep, **kw)
        h.check(z, R64.reduce_max(X, axis, keep), share="A", scaled=True)
    add(P, "reduce_max_%s_%s_%s_%s" % ("x".join(map(str, shp)), axis, keep, method), b, mk=mk, cost=12, tier=tier)


@contextlib.contextmanager
def unrolled(h):
    """prot.while_loop replaced by its contract (iterate the body while the condition holds);
    the loop itself is checked by while_loop_* below"""
    from tensorflow.python.eager.context import eager_mode

    from tfv.boot import tf

    def static(t):
        if h.mode == "sym" and isinstance(t, tf.Tensor):
            from tfv.sym import Interp
            from tfv.sym import Rng

            with eager_mode():
                v = Interp(t.graph, {}, Rng()).get(t)
            return np.asarray(v).item()
        return t

    def loop(cond, body, loop_vars):
        v = list(loop_vars)
        while bool(static(cond(*v))):
            v = list(body(*v))
            if h.mode == "sym":
                k = static(v[0])
                with h.graph.as_default():
                    v[0] = tf.constant(k)
        return v
    h.prot.while_loop = loop
    try:
        yield
    finally:
        del h.prot.while_loop


def reduce_max_public(h):
    x, X = ranged(h, "x", (2, 3), "p")
    h.check(h.prot.reduce_max(x, axis=1), R64.reduce_max(X, 1), "axis1", scaled=True)
    h.check(h.prot.reduce_max(x, axis=0, keepdims=True), R64.reduce_max(X, 0, True), "axis0", scaled=True)


add(P, "reduce_max_public", reduce_max_public, mk=mk)
reduce_max((3, 2), 0, False, "tree")
reduce_max((2, 3), 1, True, "tree")
reduce_max((5,), 0, False, "tree", "thorough")
reduce_max((3,), None, False, "tree")
reduce_max((2, 2), None, True, "tree")
reduce_max((2,), 0, False, "network")
reduce_max((2, 2), 1, True, "network")
reduce_max((3,), 0, False, "network", "thorough")
reduce_max((2,), None, False, "network")
reduce_max((1, 2), None, True, "network")


def argmax(shp, axis, style, tier="quick"):
    """the answer is *a* position of the maximum (ties may go either way)"""
    def b(h):
        x, X = ranged(h, "x", shp)
        m, a = h.prot.reduce_max_with_argmax(x, axis=axis, output_style=style)
        M = R64.reduce_max(X, axis, False)
        h.check(m, M, "max", share="A", scaled=True)
        n = shp[axis]
        Xm = np.moveaxis(X, axis, 0)
        table = {}
        idx = obj(M.shape)
        for j, i in enumerate(np.ndindex(*M.shape)):
            table[j], idx[i] = ([Xm[(k,) + i] for k in range(n)], M[i]), j
        if style == "normal":
            h.check(a, idx, "argmax", pred=lambda v, j: attains([eq(v, k << 16) for k in range(n)], *table[int(j)]), scaled=True)
        else:
            h.check(a, np.full(M.shape, True, dtype=object), "argmax", share="B")
            ob = h.obs[-1]

            def post(g):
                g = np.moveaxis(g, axis, 0)
                out = obj(M.shape)
                for i in np.ndindex(*M.shape):
                    out[i] = attains([g[(k,) + i] for k in range(n)], *table[idx[i]], only=True)
                return out
            ob.post = post
    add(P, "argmax_%s_%d_%s" % ("x".join(map(str, shp)), axis, style), b, mk=mk, cost=12, tier=tier)


def eq(v, k):
    return v == k if is_conc(v) else v == z3.BitVecVal(k, 64)


def attains(marks, xs, m, only=False):
    """one mark is set (exactly one if only), and only where the maximum is"""
    if all(is_conc(v) for v in marks + xs + [m]):
        return sum(map(bool, marks)) == 1 and all(x == m for k, x in zip(marks, xs) if k)
    b = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v
    c = [z3.Or([b(k) for k in marks])] + [z3.Implies(b(k), x == m) for k, x in zip(marks, xs)]
    if only:
        c += [z3.Not(z3.And(b(marks[i]), b(marks[j]))) for i in range(len(marks)) for j in range(i)]
    return z3.And(c)


argmax((2,), 0, "normal")
argmax((3,), 0, "normal")
argmax((2,), 0, "onehot")
argmax((3,), 0, "onehot")
argmax((2, 2), 1, "onehot")
argmax((2, 2), 0, "onehot")
argmax((2, 2), 0, "normal")
argmax((4,), 0, "onehot", "thorough")


def sort(shp, axis, acc, tier="quick"):
    def b(h):
        with unrolled(h):
            x, X = ranged(h, "x", shp)
            z = h.prot.sort(x, axis, acc)
        Y = np.moveaxis(X, axis, 0).copy()
        n = Y.shape[0]
        for i in range(n):          # insertion network
            for j in range(i, 0, -1):
                u, v = o1(Y[j - 1]), o1(Y[j])
                lo, hi = R64.ite(R64.cmp("<=", u, v), u, v), R64.ite(R64.cmp("<=", u, v), v, u)
                Y[j - 1], Y[j] = (lo[()], hi[()]) if acc else (hi[()], lo[()])
        h.check(z, np.moveaxis(Y, 0, axis), share="A", scaled=True)
    add(P, "sort_%s_%d_%s" % ("x".join(map(str, shp)), axis, "acc" if acc else "desc"), b, mk=mk, cost=20, tier=tier)


sort((2,), 0, True)
sort((2,), 0, False)
sort((3,), 0, True)
sort((3,), 0, False)
sort((2, 2), 1, True)
sort((4,), 0, True, "thorough")
sort((4,), 0, False, "thorough")


def maxpool(shp, pool, strides, padding, tier="quick", nonneg=False):
    def b(h):
        x, X = ranged(h, "x", shp)
        if nonneg:
            h.assume_in(*[c for c in R64.cmp(">=", X, R64.k(np.zeros(shp, int))).flat])
        z = h.prot.maxpool2d(x, pool, strides, padding)
        W, s = windows(X, pool, strides, padding)
        e = obj(s)
        for k, w in W.items():
            e[k] = R64.reduce_max(o1(w))[()]
        h.check(z, e, share="A", scaled=True)
    add(P, "maxpool_%s_%s_%s_%s" % ("x".join(map(str, shp)), "x".join(map(str, pool)), "x".join(map(str, strides)), padding + ("_nonnegative" if nonneg else "")),
        b, mk=mk, cost=15, tier=tier)


maxpool((1, 1, 2, 4), (2, 2), (2, 2), "VALID")
maxpool((1, 2, 2, 2), (2, 2), (2, 2), "VALID")
maxpool((2, 1, 2, 2), (2, 2), (2, 2), "VALID")
maxpool((1, 1, 2, 3), (1, 2), (1, 1), "VALID")
maxpool((1, 1, 3, 2), (2, 1), (1, 2), "VALID", "thorough")
maxpool((1, 1, 2, 3), (1, 2), (1, 2), "SAME")
maxpool((1, 1, 2, 3), (1, 2), (1, 2), "SAME", nonneg=True)
maxpool((1, 1, 3, 3), (2, 2), (2, 2), "SAME", "thorough", nonneg=True)
