"""Tensors modulo an explicit number: residues of the Chinese remainder representation, the
prime factory and the odd factory."""
import itertools

import numpy as np

from tfv import lia
from tfv.boot import tf
from tfv.boot import z3
from tfv.harness import Ob
from tfv.harness import Result
from tfv.harness import traced
from tfv.reg import add
from tfv.spec import geom
from tfv.sym import Interp
from tfv.sym import Rng
from tfv.sym import Sym
from tfv.sym import Unsupported
from tfv.sym import bmap
from tfv.sym import is_conc
from tfv.sym import obj

from .c_tensor_crt import moduli
from .c_tensor_crt import reach
from .c_tensor_crt import solver_valid
from .c_tensor_ring import patches
from .pondlib import low

P = "P21"


class Poly:
    """polynomial with integer coefficients over residues (bit-vector constants)"""

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v}

    @staticmethod
    def of(v):
        return v if isinstance(v, Poly) else Poly({(): int(v)})

    def __add__(self, o):
        d = dict(self.d)
        for k, v in Poly.of(o).d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        d = {}
        for (k, v), (j, w) in itertools.product(self.d.items(), Poly.of(o).d.items()):
            m = tuple(sorted(k + j))
            d[m] = d.get(m, 0) + v * w
        return Poly(d)

    __rmul__ = __mul__

    def value(self, env):
        return sum(v * int(np.prod([env[n] for n in k], dtype=object)) for k, v in self.d.items())


class ModTrans(lia.Trans):
    """products of bounded variables are bounded; the quotient of a floor-mod is kept"""

    def define(self, a, f, n):
        pass

    def atom(self, e):
        i = e.get_id()
        if i not in self.atoms and e.decl().kind() == z3.Z3_OP_BMUL and all(z3.is_const(x) for x in e.children()):
            hi = 1
            for x in e.children():
                lo, h = self.box[self.atom(x)]
                assert lo == 0
                hi *= h
            n = e.size()
            if hi >= 1 << (n - 1):
                return super().atom(e)      # may wrap: any value
            v = self.fresh("p", 0, hi)
            self.prods.append((v, [self.atom(x) for x in e.children()]))
            self.atoms[i] = v
            self.keep.append(e)
            return v
        return super().atom(e)


def vals(kind):
    if kind == "crt":
        from tf_encrypted.tensor import int100factory as f

        return f, moduli(), "int32"
    from tf_encrypted.tensor.native import native_factory

    dt, p = kind
    return native_factory(tf.as_dtype(dt), p), [p], dt


def mod_case(name, kind, shapes, run, spec, tier="quick", cost=3, comps=None):
    """run(f, *tensors) on tensors whose residues are arbitrary reduced ones; spec(*arrays of
    Poly) = what the result must be congruent to"""
    def fn():
        res = Result(name)
        f, ms, dt = vals(kind)
        n = tf.as_dtype(dt).size * 8
        feeds, S, ts = [], [], []
        g = tf.Graph()
        mk = lambda back: f.tensor(back, encode=False) if kind == "crt" else f.tensor(back[0], encode=False)
        backs = lambda t: list(t.backing) if kind == "crt" else [t.value]
        try:
            with g.as_default(), traced(res):
                for k, shp in enumerate(shapes):
                    back, sy = [], []
                    for i in range(len(ms)):
                        a = obj(shp)
                        for j in np.ndindex(*shp):
                            a[j] = z3.BitVec("S!x%d_%d_%s" % (k, i, "_".join(map(str, j))), n)
                        p = tf.compat.v1.placeholder(dt, list(shp))
                        feeds.append((p, Sym(dt, a)))
                        back.append(p)
                        sy.append(a)
                    ts.append(mk(back))
                    S.append(sy)
                r = run(f, *ts)
                outs = backs(r)
        except Exception as e:  # noqa: BLE001
            res.violation("raises %s: %s" % (type(e).__name__, str(e)[:200]))
            return res

        def real(env):
            with tf.init_scope():
                t = run(f, *[mk([tf.constant(np.array([env.get(str(v), 0) for v in a.reshape(-1)]).reshape(a.shape), dt) for a in sy]) for sy in S])
                return [b.numpy() for b in backs(t)]

        it = Interp(g, _D(feeds), Rng())
        try:
            for i in (range(len(ms)) if comps is None else comps):
                m = ms[i]
                T = ModTrans()
                T.prods = []
                poly, names = [], {}
                for sy in S:
                    a = obj(sy[i].shape)
                    for j in np.ndindex(*a.shape):
                        e = sy[i][j]
                        names[str(e)] = e
                        v = lia.Trans.atom(T, e)
                        T.box[v] = [0, m - 1]
                        T.cs.append(z3.And(T.vars[v] >= 0, T.vars[v] < m))
                        a[j] = Poly({(str(e),): 1})
                    poly.append(a)
                want = np.asarray(spec(*poly), dtype=object)
                got = it.get(outs[i])
                got = obj_of(got)
                if got.shape != want.shape or tuple(outs[i].shape) != want.shape:
                    res.violation("shape %s, expected %s" % (outs[i].shape, want.shape))
                    return res
                for j in np.ndindex(*want.shape):
                    w = Poly.of(want[j])
                    res.obligations += 1
                    if is_conc(got[j]):
                        if set(w.d) - {()} or not (got[j] == w.d.get((), 0) % m):
                            raise Unsupported("constant result")
                        continue
                    a = z3.simplify(got[j], som=True)
                    z = T.num(a)
                    tot = z3.IntVal(0)
                    for mono, c in w.d.items():
                        if not mono:
                            tot = tot + c
                            continue
                        core = names[mono[0]]
                        for x in mono[1:]:
                            core = core * names[x]
                        core = z3.simplify(core, som=True)
                        tot = tot + c * T.vars[T.atom(core)]
                    goal = z3.And(z >= 0, z < m, (tot - z) % m == 0)
                    ok, mod = solver_valid(reach(T.cs, goal), goal)
                    if ok == z3.unsat:
                        continue
                    if ok == z3.sat and T.prods:
                        non = [T.vars[v] == z3.Product([T.vars[x] for x in xs]) for v, xs in T.prods]
                        ok, mod = solver_valid(reach(T.cs + non, goal), goal, 60000)
                        if ok == z3.unsat:
                            continue
                    if ok == z3.sat:
                        env = {s: mod.eval(T.vars[T.atom(e)], model_completion=True).as_long() for s, e in names.items()}
                        v = int(real(env)[i][j])
                        exp = w.value(env) % m
                        if v != exp:
                            res.violation("modulus %d, element %s: %d, expected %d for %s" % (m, j, v, exp, {k: u for k, u in sorted(env.items())[:8]}))
                        else:
                            res.undecided("counterexample not confirmed (modulus %d, element %s)" % (m, j))
                        return res
                    res.undecided("solver unknown (modulus %d, element %s)" % (m, j))
                    return res
        except (lia.NotLinear, Unsupported) as e:
            res.undecided("encoding: %s" % e)
        return res
    add(P, name, fn, kind="direct", cost=cost, tier=tier)


def obj_of(v):
    return v.a if isinstance(v, Sym) else np.asarray(v).astype(object)


class _D:
    def __init__(self, feeds):
        self.f = feeds

    def items(self):
        return self.f

    def __bool__(self):
        return True


def mm(X, Y):
    r = obj((X.shape[0], Y.shape[1]))
    for i, j in np.ndindex(*r.shape):
        r[i, j] = sum((X[i, k] * Y[k, j] for k in range(X.shape[1])), Poly({}))
    return r


def cums(X, axis, ex, rev):
    Y = np.moveaxis(np.flip(X, axis) if rev else X, axis, 0)
    acc, out = np.full(Y.shape[1:], Poly({}), dtype=object), []
    for v in Y:
        out.append(acc if ex else acc + v)
        acc = acc + v
    r = np.moveaxis(np.array(out, dtype=object), 0, axis)
    return np.flip(r, axis) if rev else r


def conv(X, W, s, pad):
    N, C, H, V = X.shape
    kh, kw, _, O = W.shape
    Y = patches(X, (kh, kw), s, pad)
    K = W.reshape(-1, O)                       # kernel row, kernel column, channel
    r = np.tensordot(Y, K, ([1], [0])) if 0 else obj((N, O) + Y.shape[2:])
    for n, o, i, j in np.ndindex(*r.shape):
        r[n, o, i, j] = sum((Poly.of(Y[n, d, i, j]) * K[d, o] for d in range(K.shape[0])), Poly({}))
    return r


KINDS = (("crt", "crt"), ("p107", ("int64", 107)), ("p67_32", ("int32", 67)))
for tag, kd in KINDS:
    c = lambda nm, *a, tag=tag, kd=kd, **k: mod_case("%s_%s" % (tag, nm), kd, *a, **k)
    c("add", [(2,), (2,)], lambda f, x, y: x + y, lambda X, Y: X + Y)
    c("add_bcast", [(2, 1), (2,)], lambda f, x, y: x.add(y), lambda X, Y: X + Y)
    c("sub", [(2,), (2,)], lambda f, x, y: x - y, lambda X, Y: X - Y)
    c("sub_bcast", [(2,), (2, 1)], lambda f, x, y: x.sub(y), lambda X, Y: X - Y)
    c("mul", [(2,), (2,)], lambda f, x, y: x * y, lambda X, Y: X * Y)
    c("neg", [(2,)], lambda f, x: x.negative(), lambda X: -X)
    c("dot", [(1, 40), (40, 1)], lambda f, x, y: x.matmul(y), mm)
    c("matmul", [(2, 2), (2, 2)], lambda f, x, y: x.matmul(y), mm)
    for k in (3, -1, 0, 1000):
        c("add_int_%d" % k, [(2,)], lambda f, x, k=k: x + k, lambda X, k=k: X + k)
        c("radd_int_%d" % k, [(2,)], lambda f, x, k=k: k + x, lambda X, k=k: X + k)
        c("sub_int_%d" % k, [(2,)], lambda f, x, k=k: x - k, lambda X, k=k: X - k)
        c("rsub_int_%d" % k, [(2,)], lambda f, x, k=k: k - x, lambda X, k=k: k - X)
        c("mul_int_%d" % k, [(2,)], lambda f, x, k=k: x * k, lambda X, k=k: X * k)
        c("rmul_int_%d" % k, [(2,)], lambda f, x, k=k: k * x, lambda X, k=k: X * k)
    for ax, keep in ((0, False), (1, True), (-1, False)):
        c("reduce_sum_%d_%d" % (ax, keep), [(2, 3)], lambda f, x, a=ax, k=keep: x.reduce_sum(a, k), lambda X, a=ax, k=keep: X.sum(axis=a, keepdims=k))
    for ex, rev in itertools.product((False, True), (False, True)):
        c("cumsum_%d%d" % (ex, rev), [(3, 2)], lambda f, x, e=ex, r=rev: x.cumsum(0, e, r), lambda X, e=ex, r=rev: cums(X, 0, e, r))
    # structure
    c("reshape", [(2, 3)], lambda f, x: x.reshape([3, 2]), lambda X: X.reshape(3, 2))
    c("transpose", [(2, 3)], lambda f, x: x.transpose([1, 0]), lambda X: X.T)
    c("slice", [(4, 3)], lambda f, x: x[1:3, ::2], lambda X: X[1:3, ::2])
    c("ellipsis", [(3, 4)], lambda f, x: x[..., -1], lambda X: X[..., -1])
    c("expand", [(2, 3)], lambda f, x: x.expand_dims(-1), lambda X: X[..., None])
    c("squeeze", [(1, 2, 1)], lambda f, x: x.squeeze([0]), lambda X: X[0])
    c("strided", [(4, 5)], lambda f, x: x.strided_slice(([1, 0], [4, 5], [2, 3]), {}), lambda X: X[1:4:2, 0:5:3])
    c("gather", [(2, 3)], lambda f, x: x.gather([2, 1], axis=1), lambda X: X[:, [2, 1]])
    c("split", [(2, 3)], lambda f, x: x.split([1, 2], axis=-1)[1], lambda X: X[:, 1:])
    c("identity", [(2,)], lambda f, x: x.identity(), lambda X: X)
    for ax in (0, 1):
        c("concat%d" % ax, [(2, 2), (2, 2)], lambda f, x, y, a=ax: f.concat([x, y], a), lambda X, Y, a=ax: np.concatenate([X, Y], a))
        c("stack%d" % ax, [(2, 2), (2, 2)], lambda f, x, y, a=ax: f.stack([x, y], a), lambda X, Y, a=ax: np.stack([X, Y], a))
    if tag == "crt":
        # the widest product that is not split, the narrowest that is, and one with a rest
        for w in (1024, 1025):
            c("dot_%d" % w, [(1, w), (w, 1)], lambda f, x, y: x.matmul(y), mm, cost=20, comps=[1, 9] if w == 1024 else [0])
        c("dot_2050", [(1, 2050), (2050, 1)], lambda f, x, y: x.matmul(y), mm, cost=60, comps=[0], tier="thorough")
        c("batch_to_space", [(4, 2, 1, 1)], lambda f, x: x.batch_to_space([2, 2], [[0, 1], [0, 0]]),
          lambda X: X.reshape(2, 2, 1, 2, 1, 1).transpose(2, 3, 0, 4, 1, 5).reshape(1, 4, 2, 1)[:, :3])
        for ps, s, pad, hw in (((2, 2), [1, 1], "VALID", (3, 3)), ((2, 2), [2, 2], "SAME", (3, 3)), ((2, 1), [1, 2], "VALID", (3, 4))):
            t = "%dx%d_%d%d_%s" % (ps + tuple(s) + (pad,))
            c("im2patches_" + t, [(1, 2) + hw], lambda f, x, p=ps, s=s, d=pad: x.im2patches(p, strides=s, padding=d), lambda X, p=ps, s=s, d=pad: patches(X, p, s, d))
            c("conv2d_" + t, [(1, 2) + hw, ps + (2, 1)], lambda f, x, w, s=s, d=pad: x.conv2d(w, s, d), lambda X, W, s=s, d=pad: conv(X, W, s, d))


# ---- comparisons of residue vectors
def crt_equal(name, shapes, run, spec):
    def b(h):
        from tf_encrypted.tensor import int100factory as f

        ms = moduli()
        ts, S = [], []
        for k, shp in enumerate(shapes):
            back = [h.plain("x%d_%d" % (k, i), shp, "int32") for i in range(len(ms))]
            for i, m in enumerate(ms):
                h.assume_in(*[z3.And(e >= 0, e < m) for e in h.S["x%d_%d" % (k, i)].reshape(-1) if not is_conc(e)])
            ts.append(f.tensor(back, encode=False))
            S.append([h.S["x%d_%d" % (k, i)] for i in range(len(ms))])
        r = run(*ts)
        want = spec(S)
        for i, m in enumerate(ms):
            h.check_plain(r.backing[i], bmap(lambda c: int(c) if is_conc(c) else z3.If(c, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), want), "residue%d" % i)
    add(P, name, b, mk=low(), cost=3)


def allof(cs):
    r = None
    for c in cs:
        r = c if r is None else bmap(lambda a, b: (a and b) if is_conc(a) and is_conc(b) else z3.And(a, b), r, c)
    return r


EQ = lambda x, y: bmap(lambda a, b: (a == b), x, y)
crt_equal("crt_equal", [(2,), (2,)], lambda x, y: x.equal(y), lambda S: allof([EQ(a, b) for a, b in zip(S[0], S[1])]))
crt_equal("crt_equal_zero", [(2,)], lambda x: x.equal_zero(), lambda S: allof([bmap(lambda a: a == 0, v) for v in S[0]]))


# ---- the odd factory: Z/(2^n - 1), the bit pattern of -1 is not used
def odd(name, dt, shapes, run, spec, **kw):
    n = tf.as_dtype(dt).size * 8

    def b(h):
        from tf_encrypted.protocol.securenn.odd_tensor import odd_factory

        f = odd_factory(tf.as_dtype(dt))
        xs = []
        for k, shp in enumerate(shapes):
            xs.append(f.tensor(h.plain("x%d" % k, shp, dt)))
        one = (1 << n) - 1
        # an element is what its bit pattern says, read without a sign; -1 stands for 0
        can = lambda v: (0 if v == one else v) if is_conc(v) else z3.If(v == z3.BitVecVal(one, n), z3.BitVecVal(0, n), v)
        w = [bmap(lambda v: can(v) if is_conc(v) else z3.ZeroExt(2, can(v)), h.S["x%d" % k]) for k in range(len(shapes))]
        m = one

        def red(v):
            """0 <= v < 2m or -m < v < 0 (two's complement, n+2 bits) reduced"""
            if is_conc(v):
                return v % m
            v = z3.If(v < 0, v + m, z3.If(v >= m, v - m, v))
            return z3.Extract(n - 1, 0, v)
        r = run(f, *xs)
        h.check_plain(r.value, bmap(red, spec(*w)))
    add(P, "odd%d_%s" % (n, name), b, mk=low(), **kw)


for dt in ("int32", "int64"):
    odd("tensor", dt, [(2,)], lambda f, x: x, lambda X: X)
    odd("add", dt, [(2,), (2,)], lambda f, x, y: x + y, lambda X, Y: bmap(lambda a, b: a + b, X, Y))
    odd("sub", dt, [(2,), (2,)], lambda f, x, y: x - y, lambda X, Y: bmap(lambda a, b: a - b, X, Y))
    odd("add_bcast", dt, [(2, 1), (2,)], lambda f, x, y: x.add(y), lambda X, Y: bmap(lambda a, b: a + b, *np.broadcast_arrays(X, Y)))
    odd("add_int", dt, [(2,)], lambda f, x: x + 7, lambda X: bmap(lambda a: a + 7, X))
    odd("sub_int", dt, [(2,)], lambda f, x: x - 7, lambda X: bmap(lambda a: a - 7, X))
    odd("identity", dt, [(2,)], lambda f, x: x.identity(), lambda X: X)
    odd("slice", dt, [(3,)], lambda f, x: x[1:], lambda X: X[1:])
    odd("cast_self", dt, [(2,)], lambda f, x: x.cast(f), lambda X: X)


def odd_sample(dt, seeded):
    n = tf.as_dtype(dt).size * 8

    def b(h):
        from tf_encrypted.operations import secure_random as sr
        from tf_encrypted.protocol.securenn.odd_tensor import odd_factory

        rng = []

        def draw(shape, dtype=None, minval=None, maxval=None, seed=None, name=None):
            rng.append((minval, maxval))
            return h.plain("u", tuple(shape), dt)
        names = ("seeded_random_uniform", "random_uniform", "supports_seeded_randomness", "supports_secure_randomness")
        old = {k: getattr(sr, k) for k in names}
        try:
            sr.seeded_random_uniform = sr.random_uniform = draw
            sr.supports_seeded_randomness = lambda: seeded
            sr.supports_secure_randomness = lambda: True
            v = odd_factory(tf.as_dtype(dt)).sample_uniform([2]).value
        finally:
            for k, w in old.items():
                setattr(sr, k, w)
        U = h.S["u"]
        lo, hi = (int(w) for w in rng[0])
        h.raw.append(("draws", len(rng) == 1 and hi - lo >= (1 << n) - 2, "draws %s" % rng))
        h.assume_in(*[z3.And(e >= lo, e < hi) for e in U if not is_conc(e)])
        one = (1 << n) - 1
        h.check_plain(v, np.array([one, one], dtype=object), "never -1", pred=lambda a, s: a != s)
        # different draws give different elements
        same = (U[0] == U[1])
        h.check_plain(tf.reshape(tf.equal(v[0], v[1]), [1]), np.array([same], dtype=object), "injective")
    add(P, "odd%d_sample_%s" % (n, "seeded" if seeded else "plain"), b, mk=low())


for dt in ("int32", "int64"):
    odd_sample(dt, True)
    odd_sample(dt, False)


def crt_sample(seeded):
    """every residue is a draw below its own modulus, no two from the same seed"""
    def b(h):
        from tf_encrypted.operations import secure_random as sr
        from tf_encrypted.tensor import int100factory as f

        ms = moduli()
        rng = []

        def draw(shape, minval=0, maxval=None, dtype=None, seed=None, name=None):
            i = len(rng)
            rng.append((int(minval), int(maxval), seed))
            return h.plain("u%d" % i, tuple(shape), "int32")
        old = sr.seeded_random_uniform
        key = sr.secure_seed() if seeded else None
        try:
            sr.seeded_random_uniform = draw
            t = f.sample_seeded_uniform([2], key) if seeded else f.sample_uniform([2])
        finally:
            sr.seeded_random_uniform = old
        for i, m in enumerate(ms):
            hit = [k for k, v in enumerate(rng) if v[:2] == (0, m)]
            h.raw.append(("range%d" % i, len(hit) == 1, "draws %s" % [v[:2] for v in rng]))
            if len(hit) == 1:
                h.check_plain(t.backing[i], h.S["u%d" % hit[0]], "residue%d" % i)
        used = [v[2] for v in rng if v[:2] in [(0, m) for m in ms]]
        h.raw.append(("seeds", len({x.ref() for x in used}) == len(used), "a seed is used for two residues"))
    add(P, "crt_sample_%s" % ("seeded" if seeded else "fresh"), b, mk=low())


crt_sample(True)
crt_sample(False)
del Ob, geom
