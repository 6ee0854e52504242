"""Encoder validation: every tensor of a traced graph, evaluated symbolically and then at a
random point, against the same tensor computed by the TensorFlow runtime with the same inputs
and the same sampled randomness fed."""
import random

import numpy as np

from . import solve
from .boot import tf
from .boot import z3
from .harness import dict_feeds
from .sym import Interp
from .sym import Rng
from .sym import Sym
from .sym import Unsupported
from .sym import lift
from .sym import obj
from .sym import to_np


def compare(h, points=2, seed=1, limit=4000, special=None):
    it = Interp(h.graph, dict_feeds(h), Rng())
    ts = []
    bad = []
    uns = set()
    for op in h.graph.get_operations():
        for t in op.outputs:
            if t.dtype in (tf.resource, tf.variant, tf.string) or len(ts) > limit:
                continue
            try:
                ts.append((t, it.get(t)))
            except Unsupported as e:
                uns.add(str(e))
    gd = h.graph.as_graph_def()
    for n in gd.node:
        n.device = ""
    for f in gd.library.function:
        for n in f.node_def:
            n.device = ""
    rs = random.Random(seed)
    for pt in range(points):
        vals = {}

        def ev(e):
            if not isinstance(e, z3.ExprRef):
                return e
            sub = []
            for n, v in solve.free_vars(e).items():
                if n not in vals:
                    if z3.is_bv(v):
                        c = rs.choice([0, 1, 2, 3])
                        x = rs.getrandbits(v.size()) if c else rs.choice([0, 1 << (v.size() - 1), (1 << v.size()) - 1])
                        vals[n] = z3.BitVecVal(x, v.size())
                    elif z3.is_bool(v):
                        vals[n] = z3.BoolVal(rs.random() < .5)
                    else:
                        vals[n] = z3.FPVal(rs.uniform(-50, 50), v.sort())
                sub.append((v, vals[n]))
            return solve.mval(None, z3.simplify(z3.substitute(e, *sub)))

        fd = {}
        fed = set()
        for t, s in list(h.feeds) + list(it.rng.feeds):
            if t.graph is not h.graph:
                continue
            a = obj(s.a.shape)
            for i in np.ndindex(*s.a.shape):
                a[i] = ev(s.a[i])
            fd[t.name] = to_np(Sym(s.dt, a))
            fed.add(t.name)
        g2 = tf.Graph()
        with g2.as_default():
            tf.import_graph_def(gd, name="")
            with tf.compat.v1.Session(graph=g2) as sess:
                outs = sess.run([g2.get_tensor_by_name(t.name) for t, _ in ts], feed_dict=fd)
        for (t, s), o in zip(ts, outs):
            a = lift(s).a
            b = lift(o).a
            if a.shape != b.shape:
                bad.append((t.op.type, t.name, "shape %s vs %s" % (a.shape, b.shape)))
                continue
            for i in np.ndindex(*a.shape):
                x = ev(a[i])
                if x != b[i] and not (x != x and b[i] != b[i]):
                    bad.append((t.op.type, t.name, "%s: model %r runtime %r" % (i, x, b[i])))
                    break
    return dict(tensors=len(ts), bad=bad, unsupported=sorted(uns))
