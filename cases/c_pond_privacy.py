"""Pond: what each server and the crypto producer see is independent of the secrets."""
import numpy as np

from tfv.boot import tf
from tfv.reg import add
from tfv.sym import is_conc

from .c_aby3_privacy import pv as _pv
from .c_pond_arith import arg
from .c_pond_trunc import bounded
from .pondlib import R64
from .pondlib import low
from .pondlib import ni

P = "P16"
HEADS, TAILS, NI = low(0.0), low(0.9), ni()


def ops(*ts):
    r = []
    for t in ts:
        if isinstance(t, (list, tuple)):
            r += ops(*t)
        elif hasattr(t, "unwrapped"):
            r += [v.value.op for v in t.unwrapped]
        else:
            r.append(t.op)
    return r


def pv(name, fn, tier="quick", cost=2, mkf=HEADS, public=(), outputs=None):
    def b(h):
        z = fn(h)
        o = outputs(h) if outputs else None
        return dict(roots=ops(z), public=public, outputs=o)
    add(P, name, b, tier=tier, cost=cost, kind="privacy", mk=mkf)


raw = lambda h, n, s=(2,): h.priv(n, s, scaled=False)
for k in ("vv", "mm", "vm"):
    pv("mul_" + k, lambda h, k=k: h.prot.mul(arg(h, k[0], "x", (2,), False), arg(h, k[1], "y", (2,), False)))
    pv("matmul_" + k, lambda h, k=k: h.prot.matmul(arg(h, k[0], "x", (1, 2), False), arg(h, k[1], "y", (2, 2), False)))
    pv("conv_" + k, lambda h, k=k: h.prot.conv2d(arg(h, k[0], "x", (1, 1, 2, 2), False), arg(h, k[1], "w", (2, 1, 1, 2), False), [1, 1], "VALID"))
pv("mul_broadcast", lambda h: raw(h, "x") * raw(h, "y", (2, 2)))
pv("mul_broadcast_right", lambda h: raw(h, "x", (2, 2)) * raw(h, "y"))
pv("matmul_batch", lambda h: h.prot.matmul(raw(h, "x", (2, 1, 2)), raw(h, "y", (2, 2, 1))))
pv("square", lambda h: h.prot.square(raw(h, "x")))
pv("mul_public", lambda h: [raw(h, "x") * h.pub("p", (2,), scaled=False), h.pub("p", (2,), scaled=False) * raw(h, "z")], public=("p",))
pv("matmul_public", lambda h: [h.prot.matmul(raw(h, "x", (1, 2)), h.pub("p", (2, 1), scaled=False)), h.prot.matmul(h.pub("q", (1, 2), scaled=False), raw(h, "y", (2, 1)))], public=("p", "q"))
pv("linear", lambda h: [raw(h, "x") + raw(h, "y"), raw(h, "z") - 3, h.prot.reduce_sum(raw(h, "u")), h.prot.cumsum(raw(h, "t")), -1 * raw(h, "s")])
pv("structure", lambda h: [h.prot.concat([h.prot.transpose(raw(h, "x", (2, 2))), h.prot.reshape(raw(h, "y"), [1, 2])], 0), h.prot.pad(raw(h, "z"), [[1, 1]])])


def several(h):
    """many products of the same and of different tensors"""
    x, y, z = (raw(h, n, (1,)) for n in "xyz")
    return [x * y, x * z, y * z, (x * y) * z, x.square(), h.prot.square(x * y), (x + y) * (x - z)]


pv("product_sequence", several, cost=4)


def masked_ops(h):
    """a masked tensor after moving its data around"""
    m = h.prot.mask(raw(h, "x", (2, 2)))
    y = raw(h, "y", (2, 2))
    p = h.prot
    return [p.mul(p.transpose(m), y), p.mul(m, y), p.mul(p.concat([m, m], axis=1)[:, 1:3], y), p.mul(p.stack([m[0], m[1]], axis=0), y),
            p.mul(p.expand_dims(m[0], axis=0), y), p.mul(p.negative(m), y), p.mul(p.reshape(m, [4]), p.reshape(y, [4]))]


pv("masked_structure", masked_ops, cost=4)


def private_variable(h):
    """defined and initialized by the party that owns the value"""
    dev = "/job:tfe/replica:0/task:3/device:CPU:0"
    t = h.plain("x", (2,), "int64", device=dev)
    with tf.device(dev):
        return h.prot.define_private_variable(t, apply_scaling=False)


for tag, mkf in (("heads", HEADS), ("tails", TAILS)):
    dev = lambda h, n, pl="/job:tfe/replica:0/task:3/device:CPU:0": h.plain(n, (2,), "int64", device=pl)
    own = lambda *n: lambda h: {"tfe3": [e for k in n for e in h.S[k].flat]}
    pv("input_" + tag, lambda h: h.prot.define_private_input("input-provider", lambda: dev(h, "x"), apply_scaling=False), mkf=mkf, outputs=own("x"))
    pv("input_masked_" + tag, lambda h: h.prot.define_private_input("input-provider", lambda: dev(h, "x"), apply_scaling=False, masked=True) * raw(h, "y"), mkf=mkf, outputs=own("x"))
    pv("inputs_" + tag, lambda h: [a * b for a, b in [h.prot.define_private_input("input-provider", lambda: [dev(h, "x"), dev(h, "y")], apply_scaling=False)]], mkf=mkf,
       outputs=own("x", "y"))
    pv("variable_" + tag, private_variable, mkf=mkf, outputs=own("x"))
    pv("mul_" + tag, lambda h: raw(h, "x") * raw(h, "y"), mkf=mkf)
    pv("local_computation_" + tag, lambda h: h.prot.define_local_computation("input-provider", lambda t: t + t, arguments=[raw(h, "x")], apply_scaling=False), mkf=mkf,
       outputs=lambda h: {"tfe3": list(h.S["x"].flat)})


def fixed(name, fn, names, spec, cost=4, mkf=HEADS, more=()):
    """fixed-point products: the truncation shows server 1 a statistically masked value"""
    def b(h):
        z = fn(h)
        for e in spec(h):
            h.assume_in(*bounded(h, e))
        return dict(roots=ops(z), public=(), outputs=None)
    add(P, "fixed_" + name, b, cost=cost, kind="privacy", mk=mkf)


fixed("truncate", lambda h: h.prot.truncate(h.priv("x", (2,))), "x", lambda h: [h.S["x"]])
fixed("truncate_twice", lambda h: [h.prot.truncate(h.priv("x", (1,))), h.prot.truncate(h.priv("y", (1,)))], "xy", lambda h: [h.S["x"], h.S["y"]])
fixed("mul", lambda h: h.priv("x", (1,)) * h.priv("y", (1,)), "xy", lambda h: [R64.mul(h.S["x"], h.S["y"])])
fixed("matmul", lambda h: h.prot.matmul(h.priv("x", (1, 2)), h.priv("y", (2, 1))), "xy", lambda h: [R64.matmul(h.S["x"], h.S["y"])])
fixed("square", lambda h: h.prot.square(h.priv("x", (1,))), "x", lambda h: [R64.mul(h.S["x"], h.S["x"])])
pv("noninteractive", lambda h: [h.priv("x", (1,)) * h.priv("y", (1,)), h.prot.truncate(h.priv("z", (2,)))], mkf=NI)
pv("reveal", lambda h: h.prot.reveal(raw(h, "x")), outputs=lambda h: {"*": list(h.S["x"].flat)})
pv("output", lambda h: h.prot.define_output("result-receiver", [raw(h, "x")], lambda t: t), outputs=lambda h: {"tfe5": list(h.S["x"].flat), "tfe4": list(h.S["x"].flat)})


def reveal_sum(h):
    return h.prot.reveal(raw(h, "x") + raw(h, "y"))


pv("reveal_sum", reveal_sum, outputs=lambda h: {"*": list(R64.add(h.S["x"], h.S["y"]).flat)})
del _pv, np, is_conc
