"""Pond: how values enter and leave the two servers."""
import numpy as np

from tfv.boot import tf
from tfv.reg import add

from .pondlib import R64
from .pondlib import S
from .pondlib import enc
from .pondlib import low

P = "P13"
HEADS, TAILS = low(0.0), low(0.9)
KIND = {"heads": HEADS, "tails": TAILS}


def val(h, name="x", shape=(2, 2), dt="int64"):
    return h.plain(name, shape, dt, device=h.prot.triple_source.producer.device_name if h.mode == "sym" else None)


def roundtrip(kind, coin):
    kw = dict(apply_scaling=False)

    def b(h):
        if kind == "variable":
            z = h.prot.define_private_variable(val(h), **kw)
            h.check(z.read_value(), S(h, "x"), "read", scaled=False)
        elif kind == "variable_from_public":
            z = h.prot.define_private_variable(h.pub("x", (2, 2), scaled=False), **kw)
        elif kind == "variable_from_private":
            z = h.prot.define_private_variable(h.priv("x", (2, 2), scaled=False), **kw)
        elif kind == "input":
            z = h.prot.define_private_input("input-provider", lambda: val(h), **kw)
        elif kind == "input_list":
            z, y = h.prot.define_private_input("server1", lambda: [val(h), val(h, "y")], **kw)
            h.check(y, S(h, "y"), "second", scaled=False)
        elif kind == "input_masked":
            z = h.prot.define_private_input("input-provider", lambda: val(h), masked=True, **kw)
            y = h.priv("y", (2, 2), scaled=False)
            h.check(z * y, R64.mul(*S(h, "x", "y")), "product")
            h.check(h.prot.matmul(z, z), R64.matmul(S(h, "x"), S(h, "x")), "matmul")
        elif kind == "local":
            z = h.prot.define_local_computation("input-provider", lambda: val(h), **kw)
        elif kind == "local_arguments":
            x, p = h.priv("x", (2, 2), scaled=False), h.pub("p", (2, 2), scaled=False)
            m = h.prot.mask(h.priv("m", (2, 2), scaled=False))
            z0 = h.prot.define_local_computation("input-provider", lambda a, b, c: [a + b, c * a], arguments=[x, p, m], **kw)
            h.check(z0[0], R64.add(*S(h, "x", "p")), "x+p", scaled=False)
            h.check(z0[1], R64.mul(*S(h, "m", "x")), "m*x", scaled=False)
            return
        elif kind == "decorator":
            @h.prot.local_computation("input-provider", apply_scaling=False)
            def provide():
                return val(h)
            z = provide()
        elif kind == "decorator_method":
            class Owner:
                player_name = "input-provider"

                @h.prot.local_computation(apply_scaling=False)
                def give(self, a):
                    return a + a
            z0 = Owner().give(h.priv("y", (2, 2), scaled=False))
            h.check(z0, R64.add(S(h, "y"), S(h, "y")), scaled=False)
            return
        h.check(z, S(h, "x"), scaled=False)
    add(P, "%s_%s" % (kind, coin), b, mk=KIND[coin])


for coin in KIND:
    for kind in ("variable", "variable_from_public", "variable_from_private", "input", "input_list", "input_masked",
                 "local", "local_arguments", "decorator", "decorator_method"):
        roundtrip(kind, coin)


def public(kind):
    def b(h):
        if kind == "constant":
            z, e = h.prot.define_constant(np.array([[1, -2], [3, 1 << 40]]), apply_scaling=False), R64.k([[1, -2], [3, 1 << 40]])
        elif kind == "constant_scaled":
            v = np.array([1.5, -0.25, 3.0, 1000.0])
            z, e = h.prot.define_constant(v), enc(h, v)
        elif kind == "variable":
            z, e = h.prot.define_public_variable(val(h), apply_scaling=False), S(h, "x")
            h.check(z.read_value(), e, "read", scaled=False)
        elif kind == "variable_numpy":
            v = np.array([1.5, -0.25])
            z, e = h.prot.define_public_variable(v), enc(h, v)
        elif kind == "variable_from_public":
            z, e = h.prot.define_public_variable(h.pub("x", (2,), scaled=False), apply_scaling=False), S(h, "x")
        elif kind == "input":
            z, e = h.prot.define_public_input("input-provider", lambda: val(h), apply_scaling=False), S(h, "x")
        elif kind == "input_list":
            y, z = h.prot.define_public_input("input-provider", lambda: [val(h, "y"), val(h)], apply_scaling=False)
            e = S(h, "x")
            h.check(y, S(h, "y"), "first", scaled=False)
        h.check(z, e, scaled="scaled" in kind or "numpy" in kind)
    add(P, "public_%s" % kind, b, mk=HEADS)


for kind in ("constant", "constant_scaled", "variable", "variable_numpy", "variable_from_public", "input", "input_list"):
    public(kind)


def private_numpy(scaled, coin):
    def b(h):
        v = np.array([1.5, -0.25, 3.0, -1000.0]) if scaled else np.array([1, -2, 3, 1 << 40])
        z = h.prot.define_private_variable(v, apply_scaling=scaled)
        h.check(z, enc(h, v) if scaled else R64.k(v), scaled=scaled)
    add(P, "private_numpy_%d_%s" % (scaled, coin), b, mk=KIND[coin])


for coin in KIND:
    for sc in (True, False):
        private_numpy(sc, coin)


def encoded_int(h):
    """an integer input of the clear domain is scaled exactly"""
    x = h.plain("x", (2,), "int8", device=h.prot.server_0.device_name if h.mode == "sym" else None)
    z = h.prot.define_private_input("input-provider", lambda: x)
    X = S(h, "x")
    from tfv.boot import z3
    e = R64.mul(np.vectorize(lambda v: z3.SignExt(56, v) if isinstance(v, z3.ExprRef) else (v - 256 if v >> 7 else v) & ((1 << 64) - 1), otypes=[object])(X), R64.k(h.F))
    h.check(z, e, scaled=True)


add(P, "integer_input_scaled", encoded_int, mk=HEADS, cost=4)


def output(player, kind):
    def b(h):
        x = h.pub("x", (2,), False) if kind == "p" else h.priv("x", (2,), False)
        if kind == "m":
            x = h.prot.mask(x)
        seen = []
        h.prot.define_output(player, [x], lambda t: seen.append(t))
        h.check_plain(seen[0], S(h, "x"), "received")
    add(P, "output_%s_%s" % (player, kind), b, mk=HEADS)


for player in ("server0", "server1", "server2", "result-receiver"):
    for kind in "pvm":
        output(player, kind)


def masks(h):
    """a masked tensor: alpha is the value minus the mask, and the servers share the mask"""
    x = h.priv("x", (2, 2))
    h.check(h.prot.mask(x), S(h, "x"), scaled=True)
    a, b = h.prot.mask([h.priv("y", (2,)), h.priv("z", (2,))])
    h.check(a, S(h, "y"), "first", scaled=True)
    h.check(b, S(h, "z"), "second", scaled=True)
    h.check(h.prot.reveal(h.prot.mask(x)), S(h, "x"), "revealed", scaled=True)


add(P, "mask", masks, mk=HEADS)


def bones(kind):
    """tensors that cross a tfe.function boundary keep their value"""
    def b(h):
        x = h.pub("x", (2,)) if kind == "p" else h.priv("x", (2,))
        if kind == "m":
            x = h.prot.mask(x)
        z = h.prot.from_bone(x.bone)
        h.check(z, S(h, "x"), scaled=True)
        h.raw.append(("kind kept", type(z) is type(x), "%s" % type(z)))
    add(P, "bone_%s" % kind, b, mk=HEADS)


for kind in "pvm":
    bones(kind)
del tf
