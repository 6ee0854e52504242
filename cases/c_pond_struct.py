"""Pond: operations that only move data, and remembered results."""
import numpy as np

from tfv.reg import add
from tfv.spec import windows
from tfv.sym import obj

from .c_pond_arith import arg
from .c_pond_trunc import bounded
from .c_pond_trunc import trunc_any
from .c_pond_trunc import trunc_floor
from .pondlib import R64
from .pondlib import S
from .pondlib import enc
from .pondlib import low

P = "P17"
MK = low()


def st(name, shp, run, spec, kinds="pvm"):
    for kind in kinds:
        for sc in (True, False):
            def b(h, kind=kind, sc=sc):
                x = arg(h, kind, "x", shp, sc)
                h.check(run(h.prot, x), spec(S(h, "x")), scaled=sc)
            add(P, "%s_%s%s" % (name, kind, "" if sc else "_raw"), b, mk=MK)


pad = lambda X, w: np.pad(X, w, constant_values=0)
st("reshape", (2, 3), lambda p, x: p.reshape(x, [3, 2]), lambda X: X.reshape(3, 2))
st("reshape_minus1", (2, 3, 2), lambda p, x: x.reshape([4, -1]), lambda X: X.reshape(4, 3))
st("transpose", (2, 3), lambda p, x: p.transpose(x), lambda X: X.T)
st("transpose_perm", (2, 3, 2), lambda p, x: x.transpose(perm=[2, 0, 1]), lambda X: X.transpose(2, 0, 1))
st("index_int", (3, 2), lambda p, x: x[1], lambda X: X[1])
st("index_slice", (4, 3), lambda p, x: x[1:3, ::2], lambda X: X[1:3, ::2])
st("index_last", (3, 4), lambda p, x: x[..., -1], lambda X: X[..., -1])
st("expand_dims", (2, 3), lambda p, x: p.expand_dims(x, axis=1), lambda X: X[:, None])
st("expand_dims_last", (2, 3), lambda p, x: x.expand_dims(axis=-1), lambda X: X[..., None])
st("squeeze", (1, 2, 1), lambda p, x: p.squeeze(x), lambda X: X.reshape(2))
st("squeeze_axis", (1, 2, 1), lambda p, x: p.squeeze(x, axis=[2]), lambda X: X[:, :, 0])
st("strided_slice", (4, 5), lambda p, x: p.strided_slice(x, [1, 0], [4, 5], [2, 3]), lambda X: X[1:4:2, 0:5:3])
st("gather0", (3, 2), lambda p, x: p.gather(x, [2, 0, 2]), lambda X: X[[2, 0, 2]])
st("gather1", (2, 3), lambda p, x: p.gather(x, [2, 1], axis=1), lambda X: X[:, [2, 1]])
st("batch_to_space", (4, 2, 1, 1), lambda p, x: p.batch_to_space(x, [2, 2], [[0, 1], [0, 0]]),
   lambda X: X.reshape(2, 2, 1, 2, 1, 1).transpose(2, 3, 0, 4, 1, 5).reshape(1, 4, 2, 1)[:, :3])
st("space_to_batch", (1, 3, 2, 1), lambda p, x: p.space_to_batch(x, [2, 2], [[1, 0], [0, 0]]),
   lambda X: pad(X, ((0, 0), (1, 0), (0, 0), (0, 0))).reshape(1, 2, 2, 1, 2, 1).transpose(2, 4, 0, 1, 3, 5).reshape(4, 2, 1, 1))
st("pad", (2, 2), lambda p, x: p.pad(x, [[1, 0], [2, 1]]), lambda X: pad(X, ((1, 0), (2, 1))), "pv")
st("pad_one_side", (2, 3), lambda p, x: p.pad(x, [[0, 2], [0, 0]]), lambda X: pad(X, ((0, 2), (0, 0))), "pv")


def joins(op, axis, kind):
    def b(h):
        shapes = [(2, 2)] * 3 if op == "stack" else [tuple(2 + (i if a == axis % 2 else 0) for a in range(2)) for i in range(3)]
        xs = [arg(h, kind, "x%d" % i, s, True) for i, s in enumerate(shapes)]
        X = [h.S["x%d" % i] for i in range(3)]
        z = getattr(h.prot, op)(xs, axis=axis)
        h.check(z, np.stack(X, axis) if op == "stack" else np.concatenate(X, axis), scaled=True)
    add(P, "%s_axis%d_%s" % (op, axis, kind), b, mk=MK)


for kind in "pvm":
    for op in ("concat", "stack"):
        for axis in (0, 1, -1):
            joins(op, axis, kind)


def split(kind, num, axis):
    def b(h):
        x = arg(h, kind, "x", (4, 6), False)
        X = S(h, "x")
        zs = h.prot.split(x, num, axis=axis)
        es = np.split(X, num if np.isscalar(num) else np.cumsum(num)[:-1], axis)
        h.raw.append(("pieces", len(zs) == len(es), str(len(zs))))
        for i, (z, e) in enumerate(zip(zs, es)):
            h.check(z, e, "piece%d" % i, scaled=False)
    add(P, "split_%s_%s_%d" % (kind, "_".join(map(str, np.atleast_1d(num))), axis), b, mk=MK)


for kind in "pvm":
    split(kind, 2, 0)
    split(kind, 3, 1)
    split(kind, [1, 2, 3], 1)


def equal(sc):
    def b(h):
        x, y = h.pub("x", (2,), scaled=sc), h.pub("y", (2,), scaled=sc)
        X, Y = S(h, "x", "y")
        h.check(h.prot.equal(x, y), R64.ite(R64.cmp("==", X, Y), R64.k([1, 1]), R64.k([0, 0])), scaled=False)
    add(P, "equal_public_%d" % sc, b, mk=MK)


equal(True)
equal(False)


def avg(kind, shp, pool, stride, padding, tag=""):
    def b(h):
        x = arg(h, kind, "x", shp, True)
        w, shape = windows(S(h, "x"), pool, stride, padding)
        k = pool[0] * pool[1]
        c = enc(h, 1 / k)[()]
        e, s = obj(shape), obj(shape)
        for i, v in w.items():
            assert len(v) == k, "windows that reach outside are not in this case"
            t = np.array(v, dtype=object)
            s[i] = R64.sum(t)[()]
            e[i] = R64.mul(s[i], c)[()]
        z = h.prot.avgpool2d(x, pool, stride, padding)
        h.check(z, e, scaled=True, pred=(trunc_floor if kind == "p" else trunc_any)(h.F), assume=[a for v in h.S["x"].flat for a in bounded(h, np.array([v], dtype=object), c * k)])
    add(P, "avgpool_%s_%s_%s_%s%s" % (kind, "x".join(map(str, shp)), "x".join(map(str, pool)), padding, tag), b, mk=MK, cost=3, cut=False)


for kind in "pvm":
    avg(kind, (1, 1, 2, 4), (2, 2), (2, 2), "VALID")
    avg(kind, (1, 2, 2, 2), (2, 2), (2, 2), "SAME")
    avg(kind, (1, 1, 3, 3), (2, 2), (1, 1), "VALID")
avg("v", (2, 1, 2, 3), (1, 2), (1, 1), "VALID")
avg("v", (1, 2, 2, 4), (2, 1), (1, 2), "VALID", "_s12")
avg("v", (1, 1, 4, 2), (2, 2), [2, 2], "VALID", "_list")
for pool in ((2, 2), (1, 2), (2, 1), (3, 2), (1, 1)):
    for stride in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 3)):
        avg("pvm"[(pool[0] + 2 * pool[1] + stride[0]) % 3], (1, 1, 4, 4), pool, stride, "VALID", "_%d%d" % stride)
avg("v", (2, 2, 4, 4), (2, 2), (2, 1), "VALID", "_21")


def again(name, shp, runs, kinds="pvm"):
    """the same operation on the same tensor with other arguments is another operation"""
    for kind in kinds:
        def b(h, kind=kind):
            x = arg(h, kind, "x", shp, False)
            X = h.S["x"]
            for i, (run, spec) in enumerate(runs):
                h.check(run(h.prot, x), spec(X), "call%d" % i, scaled=False)
            h.check(runs[0][0](h.prot, x), runs[0][1](X), "again", scaled=False)
        add(P, "again_%s_%s" % (name, kind), b, mk=MK)


again("transpose", (2, 1, 3), [(lambda p, x: p.transpose(x), lambda X: X.T),
                               (lambda p, x: p.transpose(x, perm=[1, 0, 2]), lambda X: X.transpose(1, 0, 2)),
                               (lambda p, x: p.transpose(x, perm=[0, 2, 1]), lambda X: X.transpose(0, 2, 1))])
again("strided_slice", (3, 4), [(lambda p, x: p.strided_slice(x, [0, 1], [3, 4], [1, 2]), lambda X: X[:, 1::2]),
                                (lambda p, x: p.strided_slice(x, [1, 0], [3, 2], [1, 1]), lambda X: X[1:, :2])])
again("stack", (2, 2), [(lambda p, x: p.stack([x, x], axis=0), lambda X: np.stack([X, X])),
                        (lambda p, x: p.stack([x, x], axis=2), lambda X: np.stack([X, X], 2))])
again("concat", (2, 2), [(lambda p, x: p.concat([x, x], axis=0), lambda X: np.concatenate([X, X])),
                         (lambda p, x: p.concat([x, x], axis=1), lambda X: np.concatenate([X, X], 1))])
again("reshape", (2, 6), [(lambda p, x: p.reshape(x, [3, 4]), lambda X: X.reshape(3, 4)),
                          (lambda p, x: p.reshape(x, [4, 3]), lambda X: X.reshape(4, 3))])
again("reduce_sum", (2, 3), [(lambda p, x: p.reduce_sum(x, axis=0), lambda X: R64.sum(X, 0)),
                             (lambda p, x: p.reduce_sum(x, axis=1), lambda X: R64.sum(X, 1)),
                             (lambda p, x: p.reduce_sum(x, axis=1, keepdims=True), lambda X: R64.sum(X, 1, True))])
again("index", (3, 3), [(lambda p, x: x[0], lambda X: X[0]), (lambda p, x: x[:, 0], lambda X: X[:, 0]), (lambda p, x: x[1:], lambda X: X[1:])])
again("gather", (3, 3), [(lambda p, x: p.gather(x, [0, 1]), lambda X: X[[0, 1]]), (lambda p, x: p.gather(x, [1, 0]), lambda X: X[[1, 0]]),
                         (lambda p, x: p.gather(x, [0, 1], axis=1), lambda X: X[:, [0, 1]])])
again("split", (2, 4), [(lambda p, x: p.split(x, 2)[1], lambda X: X[1:]), (lambda p, x: p.split(x, 2, axis=1)[1], lambda X: X[:, 2:]),
                        (lambda p, x: p.split(x, 4, axis=1)[1], lambda X: X[:, 1:2])])
again("expand_dims", (2, 3), [(lambda p, x: p.expand_dims(x, axis=0), lambda X: X[None]), (lambda p, x: p.expand_dims(x, axis=2), lambda X: X[..., None])])
again("squeeze", (1, 2, 1), [(lambda p, x: p.squeeze(x, axis=[0]), lambda X: X[0]), (lambda p, x: p.squeeze(x, axis=[2]), lambda X: X[..., 0])])
again("cumsum", (2, 2), [(lambda p, x: p.cumsum(x, axis=0), lambda X: np.stack([X[0], R64.add(X[0], X[1])])),
                         (lambda p, x: p.cumsum(x, axis=0, reverse=True), lambda X: np.stack([R64.add(X[0], X[1]), X[1]]))], "pv")


def constants_again(h):
    x = h.priv("x", (2,), scaled=False)
    X = h.S["x"]
    for c in (1, 2, 3, 1):
        h.check(x + c, R64.add(X, R64.k([c, c])), "x+%d" % c)
        h.check(x * c, R64.mul(X, R64.k([c, c])), "x*%d" % c)
        h.check(c - x, R64.sub(R64.k([c, c]), X), "%d-x" % c)
    y = h.priv("y", (2,), scaled=False)
    h.check(x - y, R64.sub(X, h.S["y"]), "x-y")
    h.check(y - x, R64.sub(h.S["y"], X), "y-x")


add(P, "again_constants", constants_again, mk=MK)


def conv_again(h):
    x, w = h.priv("x", (1, 1, 3, 3), scaled=False), h.priv("w", (2, 2, 1, 1), scaled=False)
    X, W = S(h, "x", "w")
    for s, p in ((1, "VALID"), (2, "SAME"), (1, "SAME"), (2, "VALID")):
        h.check(h.prot.conv2d(x, w, [s, s], p), R64.conv2d(X, W, s, p), "%d%s" % (s, p))


add(P, "again_conv2d", conv_again, mk=MK, cost=3)
