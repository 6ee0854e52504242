"""ABY3: sharing and revealing (P01), truncation (P04)."""
import numpy as np

from tfv.boot import tf
from tfv.boot import z3
from tfv.reg import add
from tfv.spec import Ring
from tfv.sym import is_conc

from .aby3lib import F
from .aby3lib import R64
from .aby3lib import S
from .aby3lib import boolf
from .aby3lib import fac
from .aby3lib import mk
from .aby3lib import mk128

SHARE, TRUNC = "P01", "P04"
DT = {0: "bool", 8: "int8", 16: "int16", 32: "int32", 64: "int64"}


def st(h, k):
    return h.ST.ARITHMETIC if k == "A" else h.ST.BOOLEAN


def fact(nb):
    return boolf() if nb == 0 else fac(nb)


def roundtrip(kind, share, nb, shape=(2, 2)):
    def b(h):
        def v(name="x"):
            return h.plain(name, shape, DT[nb], device="/job:tfe/replica:0/task:3/device:CPU:0" if h.mode == "sym" else None)
        kw = dict(apply_scaling=False, factory=fact(nb))
        if kind == "variable":
            z = h.prot.define_private_variable(v(), share_type=st(h, share), **kw)
            h.check(z.read_value(), S(h, "x"), "read", scaled=False, share=share)
        elif kind == "input":
            z = h.prot.define_private_input("input-provider", lambda: v(), share_type=st(h, share), **kw)
        elif kind == "input2":
            z, y = h.prot.define_private_input("server1", lambda: [v(), v("y")], share_type=st(h, share), **kw)
            h.check(y, S(h, "y"), "second", scaled=False, share=share)
        elif kind == "from_private":
            x = h.priv("x", shape, share, False, fact(nb))
            z = h.prot.define_private_variable(x, share_type=st(h, share), **kw)
        elif kind == "local":
            z = h.prot.define_local_computation("input-provider", lambda: v(), share_type=st(h, share), **kw)
        h.check(z, S(h, "x"), scaled=False, share=share)
    add(SHARE, "%s_%s_%d" % (kind, share, nb), b, mk=mk)


for nb in (8, 64):
    for share in "AB":
        for kind in ("variable", "input", "input2", "from_private", "local"):
            roundtrip(kind, share, nb)
for kind in ("variable", "input", "from_private"):
    roundtrip(kind, "B", 0)


def public(kind, nb=64):
    def b(h):
        if kind == "constant":
            z = h.prot.define_constant(np.array([[1, -2], [3, 1 << 40]]), apply_scaling=False)
            e = R64.k([[1, -2], [3, 1 << 40]])
        elif kind == "constant_tensor":
            z = h.prot.define_constant(h.plain("x", (2,)), apply_scaling=False)
            e = S(h, "x")
        elif kind == "variable":
            z = h.prot.define_public_variable(h.plain("x", (2,)), apply_scaling=False)
            e = S(h, "x")
        elif kind == "input":
            z = h.prot.define_public_input("input-provider", lambda: h.plain("x", (2,)), apply_scaling=False)
            e = S(h, "x")
        elif kind == "constant_scaled":
            z = h.prot.define_constant(np.array([1.5, -0.25, 3.0, 1000.0 + 2.0**-16]))
            e = R64.k([int(v * 65536) for v in (1.5, -0.25, 3.0, 1000.0 + 2.0**-16)])
        h.check(z, e, scaled=kind == "constant_scaled")
    add(SHARE, "public_%s" % kind, b, mk=mk)


for kind in ("constant", "constant_tensor", "variable", "input", "constant_scaled"):
    public(kind)


def private_const(scaled, share):
    def b(h):
        vals = np.array([1.5, -0.25, 3.0, -1000.0]) if scaled else np.array([1, -2, 3, 1 << 40])
        z = h.prot.define_private_variable(vals, apply_scaling=scaled, share_type=st(h, share))
        h.check(z, R64.k([int(v * 65536) for v in vals] if scaled else vals), scaled=scaled, share=share)
    add(SHARE, "private_numpy_%s_%d" % (share, scaled), b, mk=mk)


for sc in (True, False):
    for share in "AB":
        private_const(sc, share)


def outputs(player, share, kind="v"):
    """what a party receives when a value is handed to it in the clear"""
    def b(h):
        x = h.priv("x", (2,), share, False) if kind == "v" else h.pub("x", (2,), False)
        seen = []
        h.prot.define_local_computation(player, lambda t: seen.append(t), arguments=[x], share_type=st(h, share), apply_scaling=False)
        h.check_plain(seen[0], S(h, "x"), "received")
    add(SHARE, "output_%s_%s_%s" % (player, share, kind), b, mk=mk)


for player in ("server0", "server1", "server2", "result-receiver"):
    for share in "AB":
        outputs(player, share)
outputs("result-receiver", "A", "p")
outputs("server1", "A", "p")


def output_boolean(h):
    """no sharing kind is passed along: the value's own is what counts"""
    x = h.priv("x", (2,), "B", False)
    seen = []
    h.prot.define_output("result-receiver", [x], lambda t: seen.append(t))
    h.check_plain(seen[0], S(h, "x"), "received")


add(SHARE, "define_output_boolean", output_boolean, mk=mk)


def zero_share(share, nb, rand):
    R = Ring(nb)

    def b(h):
        from tf_encrypted.protocol.aby3.aby3_tensors import ABY3PrivateTensor

        if rand:
            z1 = h.prot._gen_random_sharing([2], st(h, share), fact(nb))
            t = z1
            # any value will do; the copies must agree
            z = h.prot.sub(t, t) if share == "A" else h.prot.xor(t, t)
            h.check(t, R.k([0, 0]) if nb else np.array([False, False], dtype=object), "copies", pred=lambda a, b: True)
        else:
            a = h.prot._gen_zero_sharing([2], st(h, share), fact(nb))
            x = h.priv("x", (2,), share, False, fact(nb))
            sh = x.shares
            w = [[None, None] for _ in range(3)]
            for i in range(3):
                with tf.device(h.prot.servers[i].device_name):
                    w[i][0] = sh[i][0] + a[i] if share == "A" else sh[i][0] ^ a[i]
            for i in range(3):
                with tf.device(h.prot.servers[i].device_name):
                    w[i][1] = w[(i + 1) % 3][0].identity()
            z = ABY3PrivateTensor(h.prot, w, False, st(h, share))
        h.check(z, S(h, "x") if not rand else (R.k([0, 0]) if nb else np.array([False, False], dtype=object)), share=share)
    add(SHARE, "%s_sharing_%s_%d" % ("random" if rand else "zero", share, nb), b, mk=mk)


for nb, share in ((64, "A"), (64, "B"), (8, "A"), (8, "B"), (0, "B")):
    zero_share(share, nb, False)
for nb, share in ((64, "A"), (64, "B"), (0, "B")):
    zero_share(share, nb, True)


# ---- truncation -----------------------------------------------------------------------
def floor_or_up(R, f):
    def pred(got, x):
        """got is floor(x / 2^f) or one more"""
        if is_conc(got) and is_conc(x):
            return got in (R.shr(np.array([x], dtype=object), f)[0], (R.shr(np.array([x], dtype=object), f)[0] + 1) & ((1 << R.n) - 1))
        x = x if not is_conc(x) else z3.BitVecVal(x, R.n)
        got = got if not is_conc(got) else z3.BitVecVal(got, R.n)
        fl = x >> f
        return z3.Or(got == fl, got == fl + 1)
    return pred


def floor_or_down(R, f):
    up = floor_or_up(R, f)
    one = lambda g: (g + 1) & ((1 << R.n) - 1) if is_conc(g) else g + 1
    return lambda got, x: up(one(got), x)


def trunc(method, nb, amount, lo0, shape=(2,), scaled=True, m=mk, tier="quick"):
    R = Ring(nb)

    def b(h):
        f = amount if amount is not None else h.prot.fixedpoint_config.precision_fractional
        x = h.priv("x", shape, scaled=scaled)
        X = S(h, "x")
        if not lo0:
            h.assume_in(*R.in_range(X, nb - 2))
        if lo0:
            h.assume_in(*[(c >= 0) if not is_conc(c) else c < (1 << (nb - 1)) for c in X.flat])
        if lo0:
            z = h.prot.truncate_msb0(x, method=method, amount=amount)
        else:
            z = h.prot.truncate(x, method=method, amount=amount) if method else h.prot.truncate(x, amount=amount)
        h.check(z, X, pred=floor_or_down(R, f) if method == "cheetah" else floor_or_up(R, f), scaled=scaled, share="A")
    add(TRUNC, "%s%s_%d_%s_%d" % (method or "default", "_msb0" if lo0 else "", nb, amount, scaled), b, mk=m, cost=5, tier=tier)


for a in (None, 1, 7, 30):
    trunc("heuristic", 64, a, False)
    trunc("secureq8", 64, a, True)
    trunc("cheetah", 64, a, True)
trunc("secureq8", 64, 47, True)
trunc("cheetah", 64, 47, True)
trunc("heuristic", 64, 45, False)
for a in (None, 3, 16):
    trunc("heuristic", 64, a, False, scaled=False)
trunc(None, 64, None, False)
trunc("heuristic", 128, None, False, m=mk128)
trunc("secureq8", 128, 20, True, m=mk128)


def local_public(amount, nb, m):
    R = Ring(nb)

    def b(h):
        x = h.pub("x", (2,))
        f = amount if amount is not None else h.prot.fixedpoint_config.precision_fractional
        z = h.prot.truncate(x, method="local", amount=amount)
        h.check(z, R.shr(S(h, "x"), f), scaled=True)
    add(TRUNC, "public_%d_%s" % (nb, amount), b, mk=m)


for a in (None, 1, 20, 40):
    local_public(a, 64, mk)
local_public(None, 128, mk128)


def local_private(amount):
    """two-party local truncation: exact to one unit unless the share sum wraps"""
    def b(h):
        f = amount if amount is not None else F
        x = h.priv("x", (2,))
        X = S(h, "x")
        z = h.prot.truncate(x, method="local", amount=amount)
        sh = x.shares
        u = h.prot.servers  # noqa: F841
        h.assume_in(*R64.in_range(X, 62))
        # the error condition is a statement about the shares: a = x0, b = x1 + x2 as signed numbers
        m0, m1 = [z3.BitVec("M!x_0_%d" % i, 64) for i in range(2)], None
        del sh, m1
        if h.mode == "sym":
            for i in range(2):
                a = m0[i]
                bb = X[i] - a
                sa, sb = z3.SignExt(1, a), z3.SignExt(1, bb)
                sm = sa + sb
                lim = 1 << 63
                h.assume.append(z3.And(sm < lim, sm >= -lim))
            h.check(z, X, pred=floor_or_up_or_down(R64, f), scaled=True, share="A")
        else:
            h.check(z, X, pred=lambda g, e: True, scaled=True, share="A")
    add(TRUNC, "local_private_%s" % amount, b, mk=mk, cost=5)


def floor_or_up_or_down(R, f):
    def pred(got, x):
        if is_conc(got) and is_conc(x):
            fl = R.shr(np.array([x], dtype=object), f)[0]
            return (got - fl + 1) & ((1 << R.n) - 1) in (0, 1, 2)
        x = x if not is_conc(x) else z3.BitVecVal(x, R.n)
        got = got if not is_conc(got) else z3.BitVecVal(got, R.n)
        fl = x >> f
        return z3.Or(got == fl, got == fl + 1, got == fl - 1)
    return pred


for a in (None, 7, 30):
    local_private(a)
