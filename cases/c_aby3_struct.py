"""ABY3: operations that only move data."""
import numpy as np

from tfv.reg import add
from tfv.spec import geom
from tfv.sym import obj

from .aby3lib import R64
from .aby3lib import S
from .aby3lib import boolf
from .aby3lib import fac
from .aby3lib import mk
from .aby3lib import mk128

P = "P09"


def zeros_like(shape, nb=64):
    o = obj(tuple(shape))
    for i in np.ndindex(*o.shape):
        o[i] = 0 if nb else False
    return o


def one(h, kind, name, shp, scaled=True):
    if kind == "v":
        return h.priv(name, shp, "A", scaled)
    if kind == "b":
        return h.priv(name, shp, "B", scaled)
    if kind == "o":
        return h.priv(name, shp, "B", False, boolf())
    if kind == "8":
        return h.priv(name, shp, "B", False, fac(8))
    return h.pub(name, shp, scaled)


def st(name, shp, run, spec, kinds="vpb", mkf=mk, tier="quick", tag=""):
    for kind in kinds:
        def b(h, kind=kind):
            x = one(h, kind, "x", shp)
            share = {"v": "A", "p": None}.get(kind, "B")
            h.check(run(h.prot, x), spec(S(h, "x")), scaled=kind in "vpb", share=share)
        add(P, "%s_%s%s" % (name, kind, tag), b, mk=mkf, tier=tier)


K = "vpbo"
for mkf, tag, K in ((mk, "", "vpbo"), (mk128, "_128", "vp")):
    st("reshape", (2, 3), lambda p, x: p.reshape(x, [3, 2]), lambda X: X.reshape(3, 2), K, mkf, tag=tag)
    st("reshape_minus1", (2, 3, 2), lambda p, x: p.reshape(x, [4, -1]), lambda X: X.reshape(4, 3), K, mkf, tag=tag)
    st("transpose", (2, 3), lambda p, x: p.transpose(x), lambda X: X.T, K, mkf, tag=tag)
    st("transpose_perm", (2, 3, 2), lambda p, x: p.transpose(x, [2, 0, 1]), lambda X: X.transpose(2, 0, 1), K, mkf, tag=tag)
    st("index_int", (3, 2), lambda p, x: x[1], lambda X: X[1], K, mkf, tag=tag)
    st("index_slice", (4, 3), lambda p, x: x[1:3], lambda X: X[1:3], K, mkf, tag=tag)
    st("index_step", (5, 2), lambda p, x: x[1:5:2], lambda X: X[1:5:2], K, mkf, tag=tag)
    st("index_tuple", (4, 3), lambda p, x: x[1:3, 0:2], lambda X: X[1:3, 0:2], K, mkf, tag=tag)
    st("expand_dims", (2, 3), lambda p, x: p.expand_dims(x, 1), lambda X: X[:, None], K, mkf, tag=tag)
    st("squeeze", (2, 1, 3), lambda p, x: p.squeeze(x, [1]), lambda X: X[:, 0], K, mkf, tag=tag)
    st("tile", (2, 2), lambda p, x: p.tile(x, [2, 3]), lambda X: np.tile(X, (2, 3)), K.replace("o", ""), mkf, tag=tag)
    st("gather0", (3, 2), lambda p, x: p.gather(x, [2, 0, 2], 0), lambda X: X[[2, 0, 2]], K, mkf, tag=tag)
    st("gather1", (2, 3), lambda p, x: p.gather(x, [2, 1], 1), lambda X: X[:, [2, 1]], K, mkf, tag=tag)
st("index_last", (3, 4), lambda p, x: x[:, -1], lambda X: X[:, -1])
st("index_newaxis_ellipsis", (3, 4), lambda p, x: x[..., 1:], lambda X: X[..., 1:])
st("strided_slice", (4, 5), lambda p, x: p.strided_slice(x, [1, 0], [4, 5], [2, 3]), lambda X: X[1:4:2, 0:5:3])
st("expand_dims_last", (2, 3), lambda p, x: p.expand_dims(x, -1), lambda X: X[..., None])
st("reverse0", (3, 2), lambda p, x: p.reverse(x, [0]), lambda X: X[::-1], "vb")
st("reverse1", (2, 3), lambda p, x: p.reverse(x, [1]), lambda X: X[:, ::-1], "vb")
st("pad", (2, 2), lambda p, x: p.pad(x, [[1, 0], [2, 1]]),
   lambda X: np.pad(X, ((1, 0), (2, 1)), constant_values=0), "vpb")
st("pad_one_side", (2, 3), lambda p, x: p.pad(x, [[0, 2], [0, 0]]),
   lambda X: np.pad(X, ((0, 2), (0, 0)), constant_values=0), "vp")


def exp_spec(s):
    def f(X):
        o = zeros_like(((X.shape[0] - 1) * s + 1, (X.shape[1] - 1) * s + 1) + X.shape[2:])
        o[::s, ::s] = X
        return o
    return f


st("expand_2", (2, 3, 2), lambda p, x: p.expand(x, 2), exp_spec(2), "vb")
st("expand_3", (2, 2), lambda p, x: p.expand(x, 3), exp_spec(3), "v")


def joins(op, axis, kind, n=3, same=False):
    def b(h):
        shapes = [(2, 2)] * n if op == "stack" or same else [tuple(2 + (i if a == axis else 0) for a in range(2)) for i in range(n)]
        xs = [one(h, kind, "x%d" % i, s) for i, s in enumerate(shapes)]
        X = [h.S["x%d" % i] for i in range(n)]
        z = getattr(h.prot, op)(xs, axis)
        h.check(z, np.stack(X, axis) if op == "stack" else np.concatenate(X, axis), scaled=kind in "vpb",
                share={"v": "A", "p": None}.get(kind, "B"))
    add(P, "%s_axis%d_%s" % (op, axis, kind), b, mk=mk)


for kind in "vpbo":
    for op in ("concat", "stack"):
        for axis in (0, 1, -1):
            joins(op, axis, kind)


def split(kind, num, axis):
    def b(h):
        x = one(h, kind, "x", (4, 6))
        X = S(h, "x")
        zs = h.prot.split(x, num, axis=axis)
        es = np.split(X, num if np.isscalar(num) else np.cumsum(num)[:-1], axis)
        h.raw.append(("pieces", len(zs) == len(es), str(len(zs))))
        for i, (z, e) in enumerate(zip(zs, es)):
            h.check(z, e, "piece%d" % i, scaled=kind in "vpb", share={"v": "A", "p": None}.get(kind, "B"))
    add(P, "split_%s_%s_%d" % (kind, num if np.isscalar(num) else "list", axis), b, mk=mk)


for kind in "vpb":
    split(kind, 2, 0)
    split(kind, 3, 1)


def gather_pub(kind):
    def b(h):
        from tfv.boot import tf

        x = one(h, kind, "x", (4, 2))
        z = h.prot.gather(x, tf.constant([3, 1, 1]), axis=0)
        h.check(z, S(h, "x")[[3, 1, 1]], scaled=True)
    add(P, "gather_tensor_indices_" + kind, b, mk=mk)


for kind in "vp":
    gather_pub(kind)


def scatter(kind):
    def b(h):
        from tfv.boot import tf

        x = one(h, kind, "x", (3,))
        X = S(h, "x")
        z = h.prot.scatter_nd(tf.constant([[4], [0], [2]]), x, [6])
        e = zeros_like((6,))
        e[4], e[0], e[2] = X
        h.check(z, e, scaled=True)
    add(P, "scatter_nd_" + kind, b, mk=mk)


for kind in "vb":
    scatter(kind)


# ---- patches -----------------------------------------------------------------------
def im2col_spec(X, kh, kw, stride, padding):
    N, C, H, W = X.shape
    (pt, _), (pl, _), oh, ow = geom(H, W, kh, kw, stride, padding)
    o = obj((C * kh * kw, oh * ow * N))
    for c, a, b, i, j, n in np.ndindex(C, kh, kw, oh, ow, N):
        r, s = i * stride - pt + a, j * stride - pl + b
        o[(c * kh + a) * kw + b, (i * ow + j) * N + n] = X[n, c, r, s] if 0 <= r < H and 0 <= s < W else 0
    return o


def patches_spec(X, ps, strides, padding, fmt="NCHW"):
    """(ph*pw*C, n_patches) with the patches of one image in row-major order; see im2patches"""
    N, C, H, W = X.shape
    kh, kw = ps
    (pt, _), (pl, _), oh, ow = geom(H, W, kh, kw, strides, padding)
    o = obj((N, oh * ow, kh * kw, C))
    for n, i, j, a, b, c in np.ndindex(N, oh, ow, kh, kw, C):
        r, s = i * strides[0] - pt + a, j * strides[1] - pl + b
        o[n, i * ow + j, a * kw + b, c] = X[n, c, r, s] if 0 <= r < H and 0 <= s < W else 0
    return o


for k in (0, 1):
    for padding in ("VALID", "SAME"):
        for shp, kh, kw, s in (((1, 2, 3, 4), 2, 2, 1), ((2, 1, 4, 3), 3, 2, 2)):
            st("im2col_%s_s%d" % (padding.lower(), s), shp,
               lambda p, x, kh=kh, kw=kw, s=s, padding=padding: p.im2col(x, kh, kw, [s, s], padding),
               lambda X, kh=kh, kw=kw, s=s, padding=padding: im2col_spec(X, kh, kw, s, padding), "v" if k == 0 else "p")


# ---- constants ---------------------------------------------------------------------
def consts(h):
    ST = h.prot_share if False else h.ST
    for share in ("ARITHMETIC", "BOOLEAN"):
        for sc in (False, True):
            z = h.prot.zeros((2, 2), sc, getattr(ST, share))
            h.check(z, zeros_like((2, 2)), "zeros_%s_%s" % (share, sc), scaled=sc, share=share[0])
    z = h.prot.zeros((2, 3), True, ST.PUBLIC)
    h.check(z, zeros_like((2, 3)), "zeros_public", scaled=True)


add(P, "zeros", consts, mk=mk)


def ones(h):
    import tf_encrypted.protocol.aby3.aby3 as m

    for share in ("ARITHMETIC", "BOOLEAN"):
        for sc in (False, True):
            z = m._ones_private(h.prot, (2, 2), sc, getattr(h.ST, share), None)
            e = zeros_like((2, 2)) + (1 << 16 if sc else 1)
            h.check(z, e, "ones_%s_%s" % (share, sc), scaled=sc, share=share[0])
    z = m._ones_public(h.prot, (2,), True, h.ST.PUBLIC, None)
    h.check(z, zeros_like((2,)) + (1 << 16), "ones_public", scaled=True)


add(P, "ones", ones, mk=mk)


def chain(h):
    """a longer sequence, so that cached results of one step are reused by the next"""
    x = h.priv("x", (2, 3, 2))
    X = S(h, "x")
    a = h.prot.transpose(x, [1, 0, 2])
    b = h.prot.reshape(a, [3, 4])
    c = h.prot.concat([b, b[0:1]], 0)
    d = h.prot.stack([c, h.prot.reverse(c, [0])], 1)
    A = X.transpose(1, 0, 2)
    B = A.reshape(3, 4)
    C = np.concatenate([B, B[0:1]], 0)
    D = np.stack([C, C[::-1]], 1)
    h.check(a, A, "transpose")
    h.check(c, C, "concat")
    h.check(d, D, "stack")
    h.check(h.prot.transpose(x, [2, 1, 0]), X.transpose(2, 1, 0), "other permutation")
    h.check(h.prot.reshape(a, [4, 3]), A.reshape(4, 3), "other shape")
    h.check(d[1:3], D[1:3], "slice")
    h.check(d[1:4], D[1:4], "another slice")


add(P, "chain", chain, mk=mk)
