"""SecureNN: comparisons and what is built on them."""
import numpy as np

from tfv.boot import z3
from tfv.reg import add
from tfv.spec import windows
from tfv.sym import bmap
from tfv.sym import is_conc
from tfv.sym import obj
from tfv.sym import signed

from .c_pond_arith import arg
from .pondlib import R64
from .pondlib import S
from .snnlib import snn
from .snnlib import within

P = "P19"
U = snn("users")
B = 1 << 62
K = lambda X: R64.k(np.ones(X.shape, int))
Z = lambda X: R64.k(np.zeros(X.shape, int))
bit = lambda c: R64.ite(c, K(c), Z(c))
neg = lambda X: R64.cmp("<", X, Z(X))
no = lambda c: bmap(lambda v: (not v) if is_conc(v) else z3.Not(v), c)


def unary(name, run, spec, shp=(3,), kinds="pvm", scs=(True, False), out=None, mk=U, **kw):
    for k in kinds:
        for sc in scs:
            def b(h, k=k, sc=sc):
                x = arg(h, k, "x", shp, sc)
                within(h, "x", B)
                h.check(run(h.prot, x), spec(h.S["x"]), scaled=sc if out is None else out)
            add(P, "%s_%s%s" % (name, k, "" if sc else "_raw"), b, mk=mk, **kw)


def binary(name, run, spec, shp=((3,), (3,)), kinds=("vv", "vp", "pv", "pp", "mv", "mm"), scs=(True, False), out=None, **kw):
    for k in kinds:
        for sc in scs:
            def b(h, k=k, sc=sc):
                x, y = arg(h, k[0], "x", shp[0], sc), arg(h, k[1], "y", shp[1], sc)
                within(h, "x", B)
                within(h, "y", B)
                h.check(run(h.prot, x, y), spec(*S(h, "x", "y")), scaled=sc if out is None else out)
            add(P, "%s_%s%s" % (name, k, "" if sc else "_raw"), b, mk=U, **kw)


unary("is_negative", lambda p, x: p.is_negative(x), lambda X: bit(neg(X)), out=False)
unary("msb", lambda p, x: p.msb(x), lambda X: bit(neg(X)), out=False)
unary("non_negative", lambda p, x: p.non_negative(x), lambda X: bit(no(neg(X))), out=False)
binary("less", lambda p, x, y: p.less(x, y), lambda X, Y: bit(R64.cmp("<", X, Y)), out=False)
binary("less_equal", lambda p, x, y: p.less_equal(x, y), lambda X, Y: bit(R64.cmp("<=", X, Y)), out=False)
binary("greater", lambda p, x, y: p.greater(x, y), lambda X, Y: bit(R64.cmp("<", Y, X)), out=False)
binary("greater_equal", lambda p, x, y: p.greater_equal(x, y), lambda X, Y: bit(R64.cmp("<=", Y, X)), out=False)
mx = lambda X, Y: R64.ite(R64.cmp("<", X, Y), Y, X)
binary("maximum", lambda p, x, y: p.maximum(x, y), mx)
binary("maximum_bcast", lambda p, x, y: p.maximum(x, y), lambda X, Y: mx(*np.broadcast_arrays(X, Y)), shp=((2, 2), (2,)), kinds=("vv",))
unary("relu", lambda p, x: p.relu(x), lambda X: R64.ite(neg(X), Z(X), X))
unary("relu_split", lambda p, x: p.relu(x, max_size=2), lambda X: R64.ite(neg(X), Z(X), X), shp=(5,))
unary("relu_split_2d", lambda p, x: p.relu(x, max_size=4), lambda X: R64.ite(neg(X), Z(X), X), shp=(2, 3))
unary("relu_cmp", lambda p, x: p.relu_with_cmp(x)[1], lambda X: bit(no(neg(X))), out=False)
unary("relu_split_cmp", lambda p, x: p.relu_with_cmp(x, max_size=2)[1], lambda X: bit(no(neg(X))), shp=(2, 3), out=False)

# ---- logic on bits
for nm, f in (("and", lambda a, b: a & b), ("or", lambda a, b: a | b), ("xor", lambda a, b: a ^ b)):
    for k in ("vv", "vp", "pv", "pp", "mv", "mm"):
        def blog(h, nm=nm, f=f, k=k):
            x, y = arg(h, k[0], "x", (2,), False), arg(h, k[1], "y", (2,), False)
            for n in "xy":
                h.assume_in(*[z3.Or(v == 0, v == 1) if not is_conc(v) else True for v in h.S[n]])
            h.check(getattr(h.prot, "bitwise_" + nm)(x, y), bmap(f, *S(h, "x", "y")), scaled=False)
        add(P, "bitwise_%s_%s" % (nm, k), blog, mk=U)
for k in "pvm":
    def bnot(h, k=k):
        x = arg(h, k, "x", (2,), False)
        h.check(h.prot.bitwise_not(x), R64.sub(K(h.S["x"]), h.S["x"]), scaled=False)
    add(P, "bitwise_not_" + k, bnot, mk=U)

# ---- choosing
for k in ("vvv", "vpv", "vvp", "pvv", "ppp", "vmm", "mvv"):
    for sc in (True, False):
        def bsel(h, k=k, sc=sc):
            c = arg(h, k[0], "c", (2,), False)
            x, y = arg(h, k[1], "x", (2,), sc), arg(h, k[2], "y", (2,), sc)
            h.assume_in(*[z3.Or(v == 0, v == 1) if not is_conc(v) else True for v in h.S["c"]])
            c_, X, Y = S(h, "c", "x", "y")
            h.check(h.prot.select(c, x, y), R64.ite(R64.cmp("==", c_, Z(c_)), X, Y), scaled=sc)
        add(P, "select_%s%s" % (k, "" if sc else "_raw"), bsel, mk=U)
def eqz(h):
    x = h.pub("x", (3,), scaled=False)
    h.check(h.prot.equal_zero(x), bit(R64.cmp("==", h.S["x"], Z(h.S["x"]))), scaled=False)
add(P, "equal_zero", eqz, mk=U)
def bits(h):
    x = h.pub("x", (2,), scaled=False)
    h.check(h.prot.bits(x), np.stack([bmap(lambda v: (v >> i & 1) if is_conc(v) else z3.LShR(v, i) & 1, h.S["x"]) for i in range(64)], -1), scaled=False)
add(P, "bits", bits, mk=U)
def lsbp(h):
    x = h.pub("x", (2,), scaled=False)
    h.check(h.prot.lsb(x), bmap(lambda v: v & 1, h.S["x"]), scaled=False)
add(P, "lsb_public", lsbp, mk=U)


# ---- maxima
def rmax(X, axis):
    X = np.moveaxis(X, axis, 0)
    acc = X[0]
    for v in X[1:]:
        acc = mx(acc, v)
    return acc


for shp, ax in (((4,), 0), ((3, 2), 0), ((2, 3), 1), ((1, 2), 0), ((2, 2, 2), 2)):
    t = "%s_%d" % ("x".join(map(str, shp)), ax)
    unary("reduce_max_" + t, lambda p, x, a=ax: p.reduce_max(x, a), lambda X, a=ax: rmax(X, a), shp=shp, cost=3)

    def first(X, a):
        """which positions hold the maximum, one bit each"""
        m, X = rmax(X, a), np.moveaxis(X, a, 0)
        r = Z(m)
        for i, v in enumerate(X):
            r = bmap(lambda c, q: (q | 1 << i if c else q) if is_conc(c) else z3.If(c, q | (1 << i), q), R64.cmp("==", v, m),
                     bmap(lambda q: q if is_conc(q) and is_conc(m.reshape(-1)[0]) else z3.BitVecVal(q, 64) if is_conc(q) else q, r))
        return r

    for k in "vpm":
        def am(h, k=k, shp=shp, ax=ax):
            x = arg(h, k, "x", shp, True)
            within(h, "x", B)
            F = h.F
            n = shp[ax]

            def ok(a, s):
                if is_conc(a) and is_conc(s):
                    return a % F == 0 and a // F < n and bool(s >> (a // F) & 1)
                a, s = [z3.BitVecVal(v, 64) if is_conc(v) else v for v in (a, s)]
                return z3.Or(*[z3.And(a == i * F, z3.Extract(i, i, s) == 1) for i in range(n)])
            h.check(h.prot.argmax(x, ax), first(h.S["x"], ax), pred=ok, label="argmax")
            h.check(h.prot.reduce_max_with_argmax(x, ax)[0], rmax(h.S["x"], ax), label="max", scaled=True)
        add(P, "argmax_%s_%s" % (t, k), am, mk=U, cost=4)


def pool(X, ps, s):
    N, C, H, W = X.shape
    oh, ow = (H - ps[0]) // s[0] + 1, (W - ps[1]) // s[1] + 1
    r = obj((N, C, oh, ow))
    for n, c, i, j in np.ndindex(*r.shape):
        w = [X[n, c, i * s[0] + a, j * s[1] + b] for a in range(ps[0]) for b in range(ps[1])]
        r[n, c, i, j] = rmax(np.array(w, dtype=object), 0)[()] if len(w) > 1 else w[0]
    return r


for ps, s, shp in (((2, 2), (2, 2), (1, 1, 2, 4)), ((2, 1), (1, 2), (1, 2, 3, 3)), ((1, 2), (2, 1), (2, 1, 3, 2))):
    unary("maxpool_%dx%d_%d%d" % (ps + s), lambda p, x, q=ps, s=s: p.maxpool2d(x, list(q), list(s), "VALID"), lambda X, q=ps, s=s: pool(X, q, s), shp=shp, scs=(True,), cost=4)
unary("maxpool_same", lambda p, x: p.maxpool2d(x, [2, 2], [2, 2], "SAME"), lambda X: pool(X, (2, 2), (2, 2)), shp=(1, 1, 2, 4), scs=(True,), cost=4)

def pool_same(X):
    """1x2 windows at step 2 over three columns: the last window holds one value"""
    r = obj(X.shape[:3] + (2,))
    for i in np.ndindex(*X.shape[:3]):
        r[i + (0,)] = rmax(X[i][:2], 0)[()] if X[i][:2].ndim > 1 else mx(X[i][:1], X[i][1:2])[0]
        r[i + (1,)] = X[i][2]
    return r


unary("maxpool_same_padded", lambda p, x: p.maxpool2d(x, [1, 2], [1, 2], "SAME"), pool_same, shp=(1, 1, 1, 3), scs=(True,), cost=4)
del windows, signed


# ---- the sign through the odd type
def msb_case(name, shp, sc, coin):
    def b(h):
        x = h.priv("x", shp, scaled=sc)
        C = 1 << 40
        within(h, "x", C)
        # all but 2^-23 of the masks
        for m in h.M["x"][0].reshape(-1):
            if not is_conc(m):
                h.assume_in(z3.And(z3.UGE(m, z3.BitVecVal(C, 64)), z3.ULT(m, z3.BitVecVal(-C, 64))))
        h.check(h.prot.msb(x), bit(neg(h.S["x"])), scaled=False)
    add(P, name, b, mk=snn("msb", coin), cost=20)


msb_case("msb_private", (1,), True, 0.0)
msb_case("msb_private_raw", (2,), False, 0.9)
