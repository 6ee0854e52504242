"""ABY3: what each server sees is independent of the secrets."""
import numpy as np

from tfv.reg import add

from .aby3lib import boolf
from .aby3lib import fac
from .aby3lib import mk

P = "P11"


def shares(*ts):
    r = []
    for t in ts:
        if isinstance(t, (list, tuple)):
            r += shares(*t)
        elif hasattr(t, "shares"):
            r += [s.value.op for p in t.shares for s in p]
        else:
            r += [v.value.op for v in t.unwrapped]
    return r


def pv(name, fn, tier="quick", cost=3, mkf=mk, public=(), outputs=None):
    def b(h):
        z = fn(h)
        o = outputs(h) if outputs else None
        return dict(roots=shares(z), public=public, outputs=o)
    add(P, name, b, tier=tier, cost=cost, kind="privacy", mk=mkf)


pv("mul", lambda h: h.priv("x", (2,), scaled=False) * h.priv("y", (2,), scaled=False))
pv("and", lambda h: h.priv("x", (2,), "B") & h.priv("y", (2,), "B"))
pv("and_bits", lambda h: h.priv("x", (2,), "B", False, boolf()) & h.priv("y", (2,), "B", False, boolf()))
pv("matmul", lambda h: h.prot.matmul(h.priv("x", (1, 2), scaled=False), h.priv("y", (2, 2), scaled=False)))
pv("matmul_batch", lambda h: h.prot.matmul(h.priv("x", (1, 2), scaled=False), h.priv("y", (2, 2, 1), scaled=False)))
pv("mul_broadcast", lambda h: h.priv("x", (2,), scaled=False) * h.priv("y", (2, 2), scaled=False))
pv("mul_broadcast_right", lambda h: h.priv("x", (2, 2), scaled=False) * h.priv("y", (2,), scaled=False))


def twice(h):
    x, y, z = (h.priv(n, (1,), scaled=False) for n in "xyz")
    return [x * y, x * z, (x * y) * z]


pv("mul_sequence", twice)
pv("and_broadcast", lambda h: h.priv("x", (2,), "B") & h.priv("y", (2, 2), "B"))
pv("mul_fixed", lambda h: h.priv("x", (1,)) * h.priv("y", (1,)))
pv("mul_8bit", lambda h: h.prot.and_(h.priv("x", (1,), "B", False, fac(8)), h.priv("y", (1,), "B", False, fac(8))))
pv("or_not", lambda h: [h.priv("x", (1,), "B") | h.priv("y", (1,), "B"), ~h.priv("z", (1,), "B")])
pv("linear", lambda h: [h.priv("x", (2,)) + h.priv("y", (2,)), h.priv("z", (1,)) - h.pub("p", (1,)), h.pub("q", (1,)) * h.priv("w", (1,), scaled=False)], public=("p", "q"))
pv("mul_public_fixed", lambda h: h.priv("x", (2,)) * h.pub("p", (2,)), public=("p",))
pv("conv", lambda h: h.prot.conv2d(h.priv("x", (1, 1, 2, 2), scaled=False), h.priv("w", (2, 1, 1, 1), scaled=False), [1, 1], "VALID"))
pv("square_power", lambda h: h.prot.pow(h.priv("x", (1,), scaled=False), 5))
for m in ("local", "heuristic", "msb0_cheetah", "msb0_secureq8"):
    pv("truncate_" + m, lambda h, m=m: h.prot.truncate(h.priv("x", (2,)), m) if not m.startswith("msb0") else h.prot.truncate_msb0(h.priv("x", (2,)), m[5:]))
    pv("truncate_%s_twice" % m, lambda h, m=m: [
        h.prot.truncate(h.priv(n, (1,)), m) if not m.startswith("msb0") else h.prot.truncate_msb0(h.priv(n, (1,)), m[5:]) for n in "xy"])
pv("mul_trunc2", lambda h: h.prot.mul_trunc2(h.priv("x", (1,)), h.priv("y", (1,))))
pv("mul_trunc2_broadcast", lambda h: h.prot.mul_trunc2(h.priv("x", (1,)), h.priv("y", (2, 1))))
pv("ppa_kogge_stone", lambda h: h.prot.ppa(h.priv("x", (1,), "B"), h.priv("y", (1,), "B"), topology="kogge_stone"), cost=6)
pv("ppa_sklansky", lambda h: h.prot.ppa(h.priv("x", (1,), "B"), h.priv("y", (1,), "B"), topology="sklansky"), cost=6)
pv("a2b", lambda h: h.prot.a2b(h.priv("x", (1,))), cost=6)
pv("b2a", lambda h: h.prot.b2a(h.priv("x", (1,), "B")), cost=6)
pv("b2a_twice", lambda h: [h.prot.b2a(h.priv("x", (1,), "B")), h.prot.b2a(h.priv("y", (1,), "B"))], cost=12)
pv("b2a_single", lambda h: h.prot.b2a_single(h.priv("x", (2,), "B", False, boolf())))
pv("b2a_bits", lambda h: h.prot.b2a(h.priv("x", (1,), "B"), nbits=4, method="single"))
pv("bit_extract", lambda h: h.prot.bit_extract(h.priv("x", (1,)), 20), cost=6)
pv("msb", lambda h: h.prot.msb(h.priv("x", (1,))), cost=6)
pv("less_than", lambda h: h.priv("x", (1,)) < h.priv("y", (1,)), cost=6)
pv("equal", lambda h: h.prot.equal(h.priv("x", (1,)), h.priv("y", (1,))), cost=12)
pv("mul_ab", lambda h: h.prot.mul_ab(h.priv("x", (2,)), h.priv("c", (2,), "B", False, boolf())))
pv("mul_ab_public", lambda h: h.prot.mul_ab(h.pub("p", (2,)), h.priv("c", (2,), "B", False, boolf())), public=("p",))
pv("mul_ab_twice", lambda h: [h.prot.mul_ab(h.priv(a, (1,)), h.priv(c, (1,), "B", False, boolf())) for a, c in ("xc", "yd")])
pv("mul_ab_public_twice", lambda h: [h.prot.mul_ab(h.pub("p", (1,)), h.priv(c, (1,), "B", False, boolf())) for c in "cd"], public=("p",))
pv("mul_ab_broadcast", lambda h: h.prot.mul_ab(h.priv("x", (1,)), h.priv("c", (2,), "B", False, boolf())))
pv("mul_ab_broadcast_bit", lambda h: h.prot.mul_ab(h.priv("x", (2, 1)), h.priv("c", (2,), "B", False, boolf())))
pv("mul_ab_public_broadcast", lambda h: h.prot.mul_ab(h.pub("p", (1,)), h.priv("c", (2,), "B", False, boolf())), public=("p",))
pv("select_broadcast", lambda h: h.prot.select(h.priv("c", (2,), "B", False, boolf()), h.priv("x", (1,)), h.priv("y", (1,))), cost=6)
pv("select", lambda h: h.prot.select(h.priv("c", (1,), "B", False, boolf()), h.priv("x", (1,)), h.priv("y", (1,))))
pv("relu", lambda h: h.prot.relu(h.priv("x", (1,))), cost=8)
pv("maximum", lambda h: h.prot.maximum(h.priv("x", (1,)), h.priv("y", (1,))), cost=8)
pv("structure", lambda h: h.prot.concat([h.prot.transpose(h.priv("x", (2, 2))), h.prot.reverse(h.priv("y", (1, 2)), [1])], 0))


def mixed(h):
    """different protocols one after the other: every mask is used once"""
    x, y = h.priv("x", (1,), scaled=False), h.priv("y", (1,), scaled=False)
    c, d = (h.priv(n, (1,), "B", False, boolf()) for n in "cd")
    b = h.priv("b", (1,), "B")
    return [x * y, h.prot.mul_ab(x, c), c & d, h.prot.truncate(x), h.prot.b2a_single(d), h.prot.mul_ab(h.pub("p", (1,)), d), b & b, y * y]


pv("mixed_sequence", mixed, public=("p",), cost=4)


def reveal(h):
    return h.prot.reveal(h.priv("x", (2,)))


pv("reveal", reveal, outputs=lambda h: {"*": list(h.S["x"].flat)})


def reveal_product(h):
    return h.prot.reveal(h.priv("x", (1,), "B", False, fac(8)) & h.priv("y", (1,), "B", False, fac(8)))


def product_out(h):
    return {"*": [h.S["x"][0] & h.S["y"][0]]}


pv("reveal_and", reveal_product, outputs=product_out)
