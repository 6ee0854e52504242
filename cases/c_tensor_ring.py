"""Tensor factories: every factory computes in its ring, structure operations move elements."""
import numpy as np

from tfv.boot import tf
from tfv.boot import tfe  # noqa: F401
from tfv.boot import z3
from tfv.harness import Ob
from tfv.harness import nbits_of
from tfv.reg import add
from tfv.spec import Ring
from tfv.spec import bitwise_rev
from tfv.spec import geom
from tfv.sym import bmap
from tfv.sym import is_conc
from tfv.sym import obj

from .pondlib import low

P = "P21"
MK = low()


def factories():
    from tf_encrypted.tensor import int1factory, int8factory, int16factory, int32factory, int64factory, int128factory
    return {"b": int1factory, "i8": int8factory, "i16": int16factory, "i32": int32factory, "i64": int64factory, "i128": int128factory}


BITS_ = {"b": 0, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}


def ten(h, fn, name, shape):
    f = factories()[fn]
    X = h.secret("%s" % name, shape, nbits_of(f))
    return h.native(X, f, h.dev(0), "in_" + name)


def out(h, t, spec, label="out", pred=None, assume=None):
    spec = np.asarray(spec, dtype=object)
    h.raw.append((label + ":shape", tuple(t.shape) == spec.shape, "shape %s, expected %s" % (t.shape, spec.shape)))
    h.obs.append(Ob(label, [("value", t)], spec, pred, assume or []))


def op1(name, shp, run, spec, fs, **kw):
    for fn in fs.split():
        def b(h, fn=fn):
            x = ten(h, fn, "x", shp)
            out(h, run(x), spec(Ring(BITS_[fn]), h.S["x"]))
        add(P, "%s_%s" % (name, fn), b, mk=MK, **kw)


def op2(name, sx, sy, run, spec, fs, **kw):
    for fn in fs.split():
        def b(h, fn=fn):
            x, y = ten(h, fn, "x", sx), ten(h, fn, "y", sy)
            out(h, run(x, y), spec(Ring(BITS_[fn]), h.S["x"], h.S["y"]))
        add(P, "%s_%s" % (name, fn), b, mk=MK, **kw)


INTS = "i8 i16 i32 i64 i128"
NAT = "i8 i16 i32 i64"
ALL = "b " + INTS
# ---- ring arithmetic
op2("add", (2, 2), (2, 2), lambda x, y: x + y, lambda R, X, Y: R.add(X, Y), INTS)
op2("add_bcast", (2, 2), (2,), lambda x, y: x.add(y), lambda R, X, Y: R.add(X, Y), INTS)
op2("sub", (2, 2), (2, 2), lambda x, y: x - y, lambda R, X, Y: R.sub(X, Y), INTS)
op2("sub_bcast", (2,), (2, 2), lambda x, y: x.sub(y), lambda R, X, Y: R.sub(X, Y), INTS)
op2("mul", (2,), (2,), lambda x, y: x * y, lambda R, X, Y: R.mul(X, Y), INTS)
op2("mul_bcast", (2, 1), (2,), lambda x, y: x.mul(y), lambda R, X, Y: R.mul(X, Y), INTS)
op2("matmul", (2, 2), (2, 2), lambda x, y: x.matmul(y), lambda R, X, Y: R.matmul(X, Y), "i32 i64 i128")
op2("matmul_rect", (1, 3), (3, 2), lambda x, y: x.matmul(y), lambda R, X, Y: R.matmul(X, Y), "i32 i64 i128")
op2("matmul_batch", (2, 1, 2), (2, 2, 1), lambda x, y: x.matmul(y), lambda R, X, Y: R.matmul(X, Y), "i32 i64")
for k in (3, -1, 0, (1 << 62) + 5):
    fs = INTS if abs(k) < 100 else "i64 i128"
    op1("add_int_%d" % k, (2,), lambda x, k=k: x + k, lambda R, X, k=k: R.add(X, R.k(k)), fs)
    op1("radd_int_%d" % k, (2,), lambda x, k=k: k + x, lambda R, X, k=k: R.add(X, R.k(k)), fs)
    op1("sub_int_%d" % k, (2,), lambda x, k=k: x - k, lambda R, X, k=k: R.sub(X, R.k(k)), fs)
    op1("rsub_int_%d" % k, (2,), lambda x, k=k: k - x, lambda R, X, k=k: R.sub(R.k(k), X), fs)
    op1("mul_int_%d" % k, (2,), lambda x, k=k: x * k, lambda R, X, k=k: R.mul(X, R.k(k)), fs)
    op1("rmul_int_%d" % k, (2,), lambda x, k=k: k * x, lambda R, X, k=k: R.mul(X, R.k(k)), fs)
op1("neg", (2,), lambda x: -x, lambda R, X: R.neg(X), INTS)
op1("negative", (2,), lambda x: x.negative(), lambda R, X: R.neg(X), INTS)
for ax, keep in ((None, False), (0, False), (1, True), (-1, False)):
    if ax is not None:
        op1("reduce_sum_%s_%d" % (ax, keep), (2, 3), lambda x, a=ax, k=keep: x.reduce_sum(a, k), lambda R, X, a=ax, k=keep: R.sum(X, a % 2, k), INTS)
    else:
        op1("reduce_sum_%s_%d" % (ax, keep), (2, 3), lambda x, a=ax, k=keep: x.reduce_sum(a, k), lambda R, X, k=keep: R.sum(X, None, k), NAT)


def cums(R, X, axis, ex, rev):
    Y = np.flip(X, axis) if rev else X
    Y = np.moveaxis(Y, axis, 0)
    acc, res = R.k(np.zeros(Y.shape[1:], dtype=int)), []
    for v in Y:
        nxt = R.add(acc, v)
        res.append(acc if ex else nxt)
        acc = nxt
    r = np.moveaxis(np.array(res, dtype=object), 0, axis)
    return np.flip(r, axis) if rev else r


for ex in (False, True):
    for rev in (False, True):
        op1("cumsum_%d%d" % (ex, rev), (3, 2), lambda x, e=ex, r=rev: x.cumsum(0, e, r), lambda R, X, e=ex, r=rev: cums(R, X, 0, e, r), "i32 i64")
op1("reduce_max", (2, 3), lambda x: x.reduce_max(1), lambda R, X: R.reduce_max(X, 1), NAT)

# ---- bitwise
op2("and", (2,), (2,), lambda x, y: x & y, lambda R, X, Y: R.and_(X, Y), ALL)
op2("or", (2,), (2,), lambda x, y: x | y, lambda R, X, Y: R.or_(X, Y), ALL)
op2("xor", (2,), (2,), lambda x, y: x ^ y, lambda R, X, Y: R.xor(X, Y), ALL)
op1("invert", (2,), lambda x: ~x, lambda R, X: R.inv(X), ALL)
for k in (0, 1, 5, 7, 31, 63, 64, 100, 127):
    fs = " ".join(f for f in INTS.split() if k < BITS_[f])
    op1("lshift_%d" % k, (2,), lambda x, k=k: x << k, lambda R, X, k=k: R.shl(X, k), fs)
    op1("rshift_%d" % k, (2,), lambda x, k=k: x >> k, lambda R, X, k=k: R.shr(X, k), fs)
    op1("right_shift_%d" % k, (2,), lambda x, k=k: x.right_shift(k), lambda R, X, k=k: R.shr(X, k), fs)
    op1("logical_rshift_%d" % k, (2,), lambda x, k=k: x.logical_rshift(k), lambda R, X, k=k: R.lshr(X, k), fs)
    op1("truncate_%d" % k, (2,), lambda x, k=k: x.truncate(k), lambda R, X, k=k: R.shr(X, k), fs)


def allbits(R, X, n=None):
    return np.stack([bmap(lambda v: (v >> i & 1) if is_conc(v) else z3.ZeroExt(R.n - 1, z3.Extract(i, i, v)), X) for i in range(n or R.n)], -1)


op1("bits", (2,), lambda x: x.bits(), allbits, "i32 i64 i128")
op1("bits_5", (2, 1), lambda x: x.bits(bitsize=5), lambda R, X: allbits(R, X, 5), "i32 i64 i128")
op1("bits_100", (1,), lambda x: x.bits(bitsize=100), lambda R, X: allbits(R, X, 100), "i128")
op1("bit_reverse", (2,), lambda x: x.bit_reverse(), lambda R, X: bmap(lambda v: bitwise_rev(v, R.n), X), "i64 i128")


def gath(R, X, start, stride):
    def f(v):
        bs = [(v >> i & 1) if is_conc(v) else z3.Extract(i, i, v) for i in range(start, R.n, stride)]
        if is_conc(v):
            return sum(b << i for i, b in enumerate(bs))
        e = z3.Concat(*bs[::-1]) if len(bs) > 1 else bs[0]
        return z3.ZeroExt(R.n - e.size(), e) if e.size() < R.n else e
    return bmap(f, X)


for st, sd in ((0, 2), (1, 2), (2, 4), (0, 1)):
    op1("bit_gather_%d_%d" % (st, sd), (2,), lambda x, a=st, b=sd: x.bit_gather(a, b), lambda R, X, a=st, b=sd: gath(R, X, a, b), "i8 i16 i32 i64 i128")
op1("bit_split_2", (2,), lambda x: x.bit_split_and_gather(2), lambda R, X: np.stack([gath(R, X, i, 2) for i in range(2)]), "i8 i64 i128")


# ---- comparisons
def eq(R, X, Y):
    return R.ite(R.cmp("==", X, Y), R.k(np.ones(X.shape, int)), R.k(np.zeros(X.shape, int)))


op2("equal", (2,), (2,), lambda x, y: x.equal(y), eq, NAT)
op1("equal_zero", (2,), lambda x: x.equal_zero(), lambda R, X: eq(R, X, R.k(np.zeros(X.shape, int))), NAT)


def eqb(fn):
    def b(h):
        f = factories()
        x, y = ten(h, fn, "x", (2,)), ten(h, fn, "y", (2,))
        r = x.equal(y, factory=f["b"]) if fn not in ("i128",) else x.equal(y)
        spec = Ring(BITS_[fn]).cmp("==", h.S["x"], h.S["y"]) if fn != "b" else Ring(0).inv(Ring(0).xor(h.S["x"], h.S["y"]))
        h.obs.append(Ob("equal", [("value", r)], spec))
    add(P, "equal_bool_" + fn, b, mk=MK)


for fn in ALL.split():
    eqb(fn)


# ---- structure
def st(name, shp, run, spec, fs=ALL, **kw):
    op1(name, shp, run, lambda R, X: spec(X), fs, **kw)


zero = lambda X, w: np.pad(X, w, constant_values=0)
st("identity", (2,), lambda x: x.identity(), lambda X: X)
st("reshape", (2, 3), lambda x: x.reshape([3, 2]), lambda X: X.reshape(3, 2))
st("reshape_m1", (2, 3), lambda x: x.reshape([-1]), lambda X: X.reshape(-1))
st("reshape_tuple", (2, 3), lambda x: x.reshape((6, 1)), lambda X: X.reshape(6, 1))
st("transpose", (2, 3), lambda x: x.transpose([1, 0]), lambda X: X.T)
st("transpose_none", (2, 3, 2), lambda x: x.transpose(None), lambda X: X.T)
st("transpose_perm", (2, 3, 2), lambda x: x.transpose([2, 0, 1]), lambda X: X.transpose(2, 0, 1))
st("index", (3, 2), lambda x: x[1], lambda X: X[1])
st("slice", (4, 3), lambda x: x[1:3, ::2], lambda X: X[1:3, ::2])
st("slice_neg", (4, 2), lambda x: x[-2:], lambda X: X[-2:])
st("ellipsis", (3, 4), lambda x: x[..., -1], lambda X: X[..., -1])
st("ellipsis_slice", (2, 2, 4), lambda x: x[..., 1:3], lambda X: X[..., 1:3])
st("expand0", (2, 3), lambda x: x.expand_dims(0), lambda X: X[None])
st("expand1", (2, 3), lambda x: x.expand_dims(1), lambda X: X[:, None])
st("expandm1", (2, 3), lambda x: x.expand_dims(-1), lambda X: X[..., None])
st("expandm2", (2, 3), lambda x: x.expand_dims(-2), lambda X: X[:, None])
st("squeeze", (1, 2, 1), lambda x: x.squeeze(), lambda X: X.reshape(2))
st("squeeze0", (1, 2, 1), lambda x: x.squeeze([0]), lambda X: X[0])
st("squeezem1", (1, 2, 1), lambda x: x.squeeze([-1]), lambda X: X[..., 0])
st("strided", (4, 5), lambda x: x.strided_slice(([1, 0], [4, 5], [2, 3]), {}), lambda X: X[1:4:2, 0:5:3])
st("gather0", (3, 2), lambda x: x.gather([2, 0, 2]), lambda X: X[[2, 0, 2]])
st("gather1", (2, 3), lambda x: x.gather([2, 1], axis=1), lambda X: X[:, [2, 1]])
st("gatherm1", (2, 3), lambda x: x.gather([2, 1], axis=-1), lambda X: X[:, [2, 1]])
st("gatherm2", (3, 2), lambda x: x.gather([2, 1], axis=-2), lambda X: X[[2, 1]])
for i in range(2):
    st("split_%d" % i, (4, 2), lambda x, i=i: x.split(2, axis=0)[i], lambda X, i=i: X[2 * i:2 * i + 2])
    st("split_sizes_%d" % i, (2, 3), lambda x, i=i: x.split([1, 2], axis=-1)[i], lambda X, i=i: X[:, :1] if i == 0 else X[:, 1:])
st("reverse0", (3, 2), lambda x: x.reverse([0]), lambda X: X[::-1], INTS)
st("reversem1", (2, 3), lambda x: x.reverse([-1]), lambda X: X[:, ::-1], INTS)
st("batch_to_space", (4, 2, 1, 1), lambda x: x.batch_to_space([2, 2], [[0, 1], [0, 0]]),
   lambda X: X.reshape(2, 2, 1, 2, 1, 1).transpose(2, 3, 0, 4, 1, 5).reshape(1, 4, 2, 1)[:, :3], INTS)
st("space_to_batch", (1, 3, 2, 1), lambda x: x.space_to_batch([2, 2], [[1, 0], [0, 0]]),
   lambda X: zero(X, ((0, 0), (1, 0), (0, 0), (0, 0))).reshape(1, 2, 2, 1, 2, 1).transpose(2, 4, 0, 1, 3, 5).reshape(4, 2, 1, 1), INTS)
st("pad", (2, 2), lambda x: x.factory.pad(x, [[1, 0], [2, 1]]), lambda X: zero(X, ((1, 0), (2, 1))), INTS)
st("tile", (2, 1), lambda x: x.factory.tile(x, [2, 3]), lambda X: np.tile(X, (2, 3)), INTS)
st("ones_like", (2, 3), lambda x: x.factory.ones_like(x), lambda X: np.ones(X.shape, dtype=object), INTS)
st("zeros_like", (2, 3), lambda x: x.factory.zeros_like(x), lambda X: np.zeros(X.shape, dtype=object), INTS)
st("ones", (1,), lambda x: x.factory.ones([2, 3]), lambda X: np.ones((2, 3), dtype=object), INTS)
st("zeros", (1,), lambda x: x.factory.zeros([2, 3]), lambda X: np.zeros((2, 3), dtype=object), INTS)


def scat(X, idx, shape):
    r = np.zeros(shape, dtype=object)
    for k, i in enumerate(idx):
        r[tuple(i)] = X[k]
    return r


st("scatter", (2,), lambda x: x.scatter_nd([[3], [1]], [4]), lambda X: scat(X, [[3], [1]], (4,)), INTS)
st("scatter_factory", (2,), lambda x: x.factory.scatter_nd([[1, 0], [0, 2]], x, [2, 3]), lambda X: scat(X, [[1, 0], [0, 2]], (2, 3)), INTS)
for ax in (0, 1, -1):
    op2("concat%d" % ax, (2, 2), (2, 2), lambda x, y, a=ax: x.factory.concat([x, y], a), lambda R, X, Y, a=ax: np.concatenate([X, Y], a), ALL)
    op2("stack%d" % ax, (2, 2), (2, 2), lambda x, y, a=ax: x.factory.stack([x, y], a), lambda R, X, Y, a=ax: np.stack([X, Y], a), ALL)


def wh(fn):
    def b(h):
        x, y = ten(h, fn, "x", (2, 2)), ten(h, fn, "y", (2, 2))
        c = h.plain("c", (2, 2), "bool", device=h.dev(0))
        out(h, x.factory.where(c, x, y), Ring(BITS_[fn]).ite(h.S["c"], h.S["x"], h.S["y"]))
    add(P, "where_" + fn, b, mk=MK)


for fn in ALL.split():
    wh(fn)


# ---- windows
def patches(X, ps, s, pad):
    """NCHW -> NCHW with depth = patch row, patch column, channel"""
    N, C, H, W = X.shape
    (pt, pb), (pl, pr), oh, ow = geom(H, W, ps[0], ps[1], s, pad)
    r = np.zeros((N, ps[0] * ps[1] * C, oh, ow), dtype=object)
    for n, i, j, a, b, c in np.ndindex(N, oh, ow, ps[0], ps[1], C):
        y, x = i * s[0] - pt + a, j * s[1] - pl + b
        if 0 <= y < H and 0 <= x < W:
            r[n, (a * ps[1] + b) * C + c, i, j] = X[n, c, y, x]
    return r


def unpatch(R, X, ps, s, pad, hw):
    """sum of the patches back at their places"""
    N, D, oh, ow = X.shape
    C = D // (ps[0] * ps[1])
    (pt, pb), (pl, pr), _, _ = geom(hw[0], hw[1], ps[0], ps[1], s, pad)
    r = np.zeros((N, C) + tuple(hw), dtype=object)
    for n, i, j, a, b, c in np.ndindex(N, oh, ow, ps[0], ps[1], C):
        y, x = i * s[0] - pt + a, j * s[1] - pl + b
        if 0 <= y < hw[0] and 0 <= x < hw[1]:
            r[n, c, y, x] = R.add(np.array(r[n, c, y, x], dtype=object), np.array(X[n, (a * ps[1] + b) * C + c, i, j], dtype=object))[()]
    return r


for ps, s, pad, hw in (((2, 2), [1, 1], "VALID", (3, 3)), ((2, 2), [2, 2], "SAME", (3, 3)), ((2, 1), [1, 2], "VALID", (3, 4)), ((3, 2), [2, 1], "SAME", (4, 3)),
                       ((1, 2), [2, 3], "VALID", (4, 6)), ((2, 2), [2, 1], "VALID", (4, 4))):
    tag = "%dx%d_%d%d_%s_%dx%d" % (ps + tuple(s) + (pad,) + hw)
    st("im2patches_" + tag, (1, 2) + hw, lambda x, p=ps, s=s, d=pad: x.im2patches(p, strides=s, padding=d), lambda X, p=ps, s=s, d=pad: patches(X, p, s, d), "i64 i128 i32")
    _, _, oh, ow = geom(hw[0], hw[1], ps[0], ps[1], s, pad)
    op1("patches2im_" + tag, (1, 2 * ps[0] * ps[1], oh, ow), lambda x, p=ps, s=s, d=pad, hw=hw: x.patches2im(p, s, d, img_size=hw),
        lambda R, X, p=ps, s=s, d=pad, hw=hw: unpatch(R, X, p, s, d, hw), "i64 i128")
    op2("conv2d_" + tag, (1, 2) + hw, ps + (2, 1), lambda x, w, s=s, d=pad: x.conv2d(w, s, d), lambda R, X, W, s=s, d=pad: R.conv2d(X, W, s, d), "i64 i128")
    st("im2col_" + tag, (1, 2) + hw, lambda x, p=ps, s=s, d=pad: x.im2col(p[0], p[1], s, d),
       lambda X, p=ps, s=s, d=pad: col(X, p, s, d), "i64 i128")


def col(X, ps, s, pad):
    Y = patches(X, ps, s, pad)
    N, D, oh, ow = Y.shape
    C = X.shape[1]
    Y = Y.reshape(N, ps[0], ps[1], C, oh, ow).transpose(3, 1, 2, 4, 5, 0)
    return Y.reshape(C * ps[0] * ps[1], -1)


# ---- converting values
def enc_numpy(fn):
    vals = {"b": [True, False]}.get(fn, [0, 1, -1, 100, -128])

    def b(h):
        x = ten(h, fn, "x", (1,))
        f = factories()[fn]
        k = Ring(BITS_[fn]).k(np.array(vals))
        out(h, f.tensor(np.array(vals)), k, "tensor")
        out(h, f.constant(np.array(vals)), k, "constant")
        if fn != "b":
            out(h, f.tensor(-3), Ring(BITS_[fn]).k(-3), "int")
            out(h, f.tensor(2.0), Ring(BITS_[fn]).k(2), "float")
        del x
    add(P, "encode_" + fn, b, mk=MK)


for fn in ALL.split():
    enc_numpy(fn)


def casts(a, b_):
    def b(h):
        f = factories()
        x = ten(h, a, "x", (2,))
        y = x.cast(f[b_])
        na, nb = BITS_[a], BITS_[b_]
        X = h.S["x"]
        if nb == 0:
            spec = X if na == 0 else bmap(lambda v: (v != 0) if is_conc(v) else v != z3.BitVecVal(0, na), X)
        elif na == 0:
            spec = bmap(lambda v: int(v) if is_conc(v) else z3.If(v, z3.BitVecVal(1, nb), z3.BitVecVal(0, nb)), X)
        elif nb <= na:
            spec = bmap(lambda v: v & ((1 << nb) - 1) if is_conc(v) else (v if na == nb else z3.Extract(nb - 1, 0, v)), X)
        else:
            spec = bmap(lambda v: ((v - (1 << na) if v >> (na - 1) else v) & ((1 << nb) - 1)) if is_conc(v) else z3.SignExt(nb - na, v), X)
        h.raw.append(("factory", y.factory == f[b_], str(y.factory)))
        out(h, y, spec)
    add(P, "cast_%s_%s" % (a, b_), b, mk=MK)


for a in ALL.split():
    for b_ in "b i8 i32 i64".split():
        casts(a, b_)


# ---- odd modulus: the base of another power needs a modular inverse
def trunc3(fn, base, amount):
    n = BITS_[fn]

    def b(h):
        x = ten(h, fn, "x", (2,))
        z = x.truncate(amount, base)
        K = base ** amount
        X = h.S["x"]
        spec = bmap(lambda v: ((v - (1 << n) if v >> (n - 1) else v) // K) & ((1 << n) - 1) if is_conc(v) else
                    (lambda q, r: z3.If(z3.And(r != 0, v < 0), q - 1, q))(v / z3.BitVecVal(K, n), z3.SRem(v, z3.BitVecVal(K, n))), X)
        out(h, z, spec)
    add(P, "truncate_%d_%d_%s" % (base, amount, fn), b, mk=MK, cost=4)


for base, amount in ((3, 2), (5, 1)):
    for fn in "i8 i16 i32".split():
        trunc3(fn, base, amount)
del tf, obj
