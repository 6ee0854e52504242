"""Drives the real protocol code, either to build a graph that is executed symbolically
(mode 'sym') or eagerly on concrete values (mode 'eager', used to replay models)."""
import contextlib
import sys
import time

import numpy as np

from . import lia
from . import solve
from .boot import REPO
from .boot import tf
from .boot import tfe
from .boot import z3
from .sym import BITS
from .sym import FP
from .sym import Interp
from .sym import Rng
from .sym import SIGNED
from .sym import Sym
from .sym import Unsupported
from .sym import bmap
from .sym import fpsort
from .sym import is_conc
from .sym import join128
from .sym import lift
from .sym import norm
from .sym import obj
from .sym import s_add
from .sym import s_and
from .sym import s_sub
from .sym import s_xor
from .sym import signed
from .sym import split128
from .sym import to_np

BITS.setdefault("i128", 128)
SIGNED.add("i128")

PLAYERS = ["server0", "server1", "server2", "input-provider", "result-receiver", "weights-provider"]


def elems_of(at, value):
    """logical elements (object array) of an AbstractTensor whose native value is given"""
    if getattr(at.factory, "native_size", 1) == 2 and at.factory.nbits == 128:
        return join128(lift(value, "int64").a)
    return lift(value).a if isinstance(value, Sym) else lift(value).a


def nbits_of(factory):
    if factory.native_type == tf.bool:
        return 0
    return factory.nbits


class Ob:
    def __init__(self, label, fetch, spec, pred=None, assume=None, extra=None):
        self.label = label
        self.fetch = fetch      # list of (party label, AbstractTensor or tf.Tensor)
        self.spec = spec        # object array (symbolic or concrete)
        self.pred = pred        # pred(actual, spec) -> bool/BoolRef, elementwise; None = equality
        self.assume = assume or []
        self.post = None        # applied to the fetched elements before they are compared

    def map(self, g):
        return g if self.post is None else self.post(g)


class Harness:
    """Base: subclass per protocol."""
    fragile = False  # inputs are stand-ins that real code may not accept: no verdict from exceptions

    def __init__(self, mode="sym", values=None, seed=0):
        self.mode = mode
        self.values = values or {}   # eager: name -> object array of ints
        self.S = {}                  # name -> object array (symbolic or concrete)
        self.info = {}               # name -> (nbits)
        self.feeds = []              # (placeholder, Sym)
        self.reg = []                # private tensors in creation order
        self.obs = []
        self.assume = []             # global assumptions (inputs)
        self.raw = []                # python-level (bool) facts
        self.rs = np.random.RandomState(seed)
        self.nmask = 0
        self.maskvars = set()
        self.notes = []

    # ---- context ----------------------------------------------------------
    @contextlib.contextmanager
    def scope(self):
        from tf_encrypted.protocol import protocol as pm

        pm.nodes.clear()
        old_cfg = tfe.get_config()
        old_prot = tfe.get_protocol()
        if self.mode == "sym":
            from tf_encrypted.config import RemoteConfig
            from collections import OrderedDict

            cfg = RemoteConfig(OrderedDict((p, "localhost:%d" % (4440 + i)) for i, p in enumerate(PLAYERS)))
            self.graph = tf.Graph()
            gctx = self.graph.as_default()
        else:
            from tf_encrypted.config import LocalConfig

            cfg = LocalConfig(list(PLAYERS))
            gctx = contextlib.nullcontext()
        tfe.set_config(cfg)
        try:
            with gctx, self.patches():
                self.prot = self.make_prot()
                tfe.set_protocol(self.prot)
                yield self
        finally:
            pm.nodes.clear()
            tfe.set_config(old_cfg)
            tfe.set_protocol(old_prot)

    def dev(self, i):
        return self.prot.servers[i].device_name

    # ---- inputs ------------------------------------------------------------
    def secret(self, name, shape, nb):
        """logical symbolic (or concrete, when replaying) elements of an input"""
        if name in self.S:
            return self.S[name]
        self.info[name] = nb
        if name in self.values:
            a = self.values[name]
        elif self.mode == "eager":
            a = obj(shape)
            for i in np.ndindex(*shape):
                if nb in FP:
                    a[i] = float(np.dtype(nb).type(self.rs.uniform(-8, 8)))
                    continue
                a[i] = bool(self.rs.randint(2)) if nb == 0 else int.from_bytes(self.rs.bytes(nb // 8), "little")
        else:
            a = obj(shape)
            for i in np.ndindex(*shape):
                n = "S!%s_%s" % (name, "_".join(map(str, i)))
                if nb in FP:
                    a[i] = z3.FP(n, fpsort(nb))
                    continue
                a[i] = z3.Bool(n) if nb == 0 else z3.BitVec(n, nb)
        self.S[name] = a
        return a

    def mask(self, tag, shape, nb):
        a = obj(shape)
        for i in np.ndindex(*shape):
            if self.mode == "eager":
                a[i] = bool(self.rs.randint(2)) if nb == 0 else int.from_bytes(self.rs.bytes(nb // 8), "little")
            else:
                self.nmask += 1
                n = "M!%s_%s" % (tag, "_".join(map(str, i)))
                self.maskvars.add(n)
                a[i] = z3.Bool(n) if nb == 0 else z3.BitVec(n, nb)
        return a

    def native(self, elems, factory, device, label):
        """AbstractTensor of the factory holding the given logical elements on a device"""
        nb = nbits_of(factory)
        if nb == 128:
            s = Sym("int64", split128(elems))
        elif nb == 0:
            s = Sym("bool", elems)
        else:
            s = Sym(factory.native_type.name, elems)
        with tf.device(device):
            if self.mode == "sym":
                p = tf.compat.v1.placeholder(tf.as_dtype(s.dt), list(s.a.shape), name=label)
                self.feeds.append((p, s))
                return factory.tensor(p, encode=False) if nb != 100 else factory.tensor(p)
            return factory.tensor(tf.constant(to_np(s)), encode=False)

    def plain(self, name, shape, dtype="int64", device=None):
        """plaintext tensor of the given dtype with a symbolic (or concrete) value"""
        nb = dtype if dtype in FP else {"bool": 0}.get(dtype, BITS.get(dtype))
        X = self.secret(name, shape, nb)
        s = Sym(dtype, X)
        with tf.device(device) if device else contextlib.nullcontext():
            if self.mode == "sym":
                p = tf.compat.v1.placeholder(tf.as_dtype(dtype), list(shape), name="in_" + name)
                self.feeds.append((p, s))
                return p
            return tf.constant(to_np(s))

    def check_plain(self, t, spec, label="plain", pred=None, assume=None):
        """t: tf.Tensor"""
        self.obs.append(Ob(label, [("value", t)], np.asarray(spec, dtype=object), pred, assume))

    # ---- obligations --------------------------------------------------------
    def assume_in(self, *cs):
        self.assume += [c for c in cs]


class ABY3H(Harness):
    copies = True
    def __init__(self, mode="sym", values=None, seed=0, fpc=None):
        super().__init__(mode, values, seed)
        self.fpc = fpc

    def make_prot(self):
        from tf_encrypted.protocol import ABY3

        return ABY3(fixedpoint_config=self.fpc)

    @contextlib.contextmanager
    def patches(self):
        from tf_encrypted.protocol.aby3 import aby3_tensors as m

        cls = m.ABY3PrivateTensor
        orig = cls.__init__
        reg = self.reg

        seen = set()

        def fresh(x):
            # a share that already belongs to another tensor is passed on through an
            # identity on its own device, so that the two can be treated separately
            if not isinstance(x.value, tf.Tensor) or x.value.graph is not self.graph:
                return x
            k = x.value.ref()
            if k not in seen:
                seen.add(k)
                return x
            with tf.device(x.value.device):
                return x.identity()

        def init(s, prot, shares, *a, **k):
            if self.mode == "sym" and type(s) is cls and self.copies:
                try:
                    shares = [[fresh(x) for x in p] for p in shares]
                except (TypeError, AttributeError):
                    pass
            orig(s, prot, shares, *a, **k)
            reg.append(s)

        cls.__init__ = init
        try:
            yield
        finally:
            cls.__init__ = orig

    @property
    def ST(self):
        from tf_encrypted.protocol.aby3.aby3_tensors import ShareType

        return ShareType

    def priv(self, name, shape, share="A", scaled=True, factory=None, masks=None):
        from tf_encrypted.protocol.aby3.aby3_tensors import ABY3PrivateTensor

        factory = factory or self.prot.default_factory
        nb = nbits_of(factory)
        X = self.secret(name, shape, nb)
        m0 = self.mask(name + "_0", shape, nb)
        m1 = self.mask(name + "_1", shape, nb)
        if nb == 0:
            xr = lambda a, b: (a != b) if is_conc(a) and is_conc(b) else z3.Xor(a if not is_conc(a) else z3.BoolVal(a), b if not is_conc(b) else z3.BoolVal(b))
            m2 = bmap(lambda x, a, b: xr(xr(x, a), b), X, m0, m1)
        elif share == "A":
            m2 = bmap(lambda x, a, b: s_sub(s_sub(x, a, nb), b, nb), X, m0, m1)
        else:
            m2 = bmap(lambda x, a, b: s_xor(s_xor(x, a, nb), b, nb), X, m0, m1)
        m = [m0, m1, m2]
        sh = [[None, None] for _ in range(3)]
        for i in range(3):
            for j in range(2):
                k = (i + j) % 3
                sh[i][j] = self.native(m[k], factory, self.dev(i), "in_%s_s%d_%d" % (name, i, j))
        st = self.ST.ARITHMETIC if share == "A" else self.ST.BOOLEAN
        t = ABY3PrivateTensor(self.prot, sh, scaled, st)
        t._tfv_input = True
        return t

    def pub(self, name, shape, scaled=True, factory=None):
        from tf_encrypted.protocol.aby3.aby3_tensors import ABY3PublicTensor

        factory = factory or self.prot.default_factory
        X = self.secret(name, shape, nbits_of(factory))
        vs = [self.native(X, factory, self.dev(i), "in_%s_p%d" % (name, i)) for i in range(3)]
        return ABY3PublicTensor(self.prot, vs, scaled)

    def check(self, t, spec, label="out", pred=None, assume=None, scaled=None, share=None, nbits=None):
        """t: private or public ABY3 tensor; spec: logical elements"""
        from tf_encrypted.protocol.aby3.aby3_tensors import ABY3PrivateTensor
        from tf_encrypted.protocol.aby3.aby3_tensors import ABY3PublicTensor

        spec = np.asarray(spec, dtype=object)
        self.raw.append((label + ":type", isinstance(t, (ABY3PrivateTensor, ABY3PublicTensor)), str(type(t))))
        if scaled is not None:
            self.raw.append((label + ":is_scaled", bool(t.is_scaled) == scaled, "is_scaled=%s" % t.is_scaled))
        if isinstance(t, ABY3PrivateTensor):
            if share is not None:
                st = self.ST.ARITHMETIC if share == "A" else self.ST.BOOLEAN
                self.raw.append((label + ":share_type", t.share_type == st, str(t.share_type)))
            sh = t.shares
            for i in range(3):
                self.obs.append(Ob("%s:replica%d" % (label, i), [("s%d0" % i, sh[i][1]), ("s%d1" % i, sh[(i + 1) % 3][0])], None))
            r = self.prot.reveal(t)
        else:
            r = t
        self.raw.append((label + ":scale-kept", r.is_scaled == t.is_scaled, "reveal changed is_scaled"))
        self.obs.append(Ob(label, [("server%d" % i, v) for i, v in enumerate(r.unwrapped)], spec, pred, assume))

    # --- share algebra for the cut engine
    def parts(self, t):
        """canonical component list [(list of tensors holding component k)] and algebra"""
        sh = t.shares
        comps = [[sh[k][0], sh[(k + 2) % 3][1]] for k in range(3)]
        alg = "A" if t.share_type == self.ST.ARITHMETIC else "B"
        return comps, alg


def recombine(alg, nb, vals):
    acc = vals[0]
    for v in vals[1:]:
        if nb == 0:
            f = lambda a, b: (a != b) if is_conc(a) and is_conc(b) else z3.Xor(z3.BoolVal(a) if is_conc(a) else a, z3.BoolVal(b) if is_conc(b) else b)
        elif alg == "A":
            f = lambda a, b: s_add(a, b, nb)
        else:
            f = lambda a, b: s_xor(a, b, nb)
        acc = bmap(f, acc, v)
    return acc


def is_secret_name(n):
    return n.startswith("S!")


def _unit(e):
    """(c, t) if e is If(c, t, 0), If(!c, 0, t) or a product of those with t"""
    if not z3.is_bv(e):
        return None
    zero = lambda v: z3.is_bv_value(v) and v.as_long() == 0
    one = lambda v: z3.is_bv_value(v) and v.as_long() == 1
    if e.decl().kind() == z3.Z3_OP_ITE:
        if zero(e.arg(2)):
            return e.arg(0), e.arg(1)
        if zero(e.arg(1)):
            return z3.Not(e.arg(0)), e.arg(2)
        return None
    if e.decl().kind() == z3.Z3_OP_BMUL:
        ch = e.children()
        for i, k in enumerate(ch):
            u = _unit(k) if k.decl().kind() == z3.Z3_OP_ITE else None
            if u and one(u[1]):
                rest = ch[:i] + ch[i + 1:]
                t = rest[0]
                for r in rest[1:]:
                    t = t * r
                return u[0], t
    return None


def tidy(e, assume):
    """An equivalent (under the assumptions) definition in a shape that solvers like:
    selections as if-then-else, sign bits of differences as comparisons."""
    if z3.is_bv(e):
        u = _unit(e)
        if u:
            return z3.If(u[0], u[1], z3.BitVecVal(0, e.size()))
        if e.decl().kind() == z3.Z3_OP_BADD:
            ch = e.children()
            us = [(i, _unit(c)) for i, c in enumerate(ch)]
            us = [(i, u) for i, u in us if u]
            if len(us) == 1:
                i, (c, t) = us[0]
                rest = ch[:i] + ch[i + 1:]
                o = rest[0]
                for r in rest[1:]:
                    o = o + r
                return z3.If(c, z3.simplify(o + t), z3.simplify(o))
        return e
    if z3.is_bool(e) and z3.is_eq(e) and assume:
        for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            if z3.is_bv_value(b) and a.decl().kind() == z3.Z3_OP_EXTRACT and b.size() == 1:
                t = a.arg(0)
                if a.params() != [t.size() - 1] * 2 or t.decl().kind() != z3.Z3_OP_BADD:
                    continue
                n = t.size()
                pos, neg = [], []
                for c in t.children():
                    m1 = z3.simplify(-c)
                    if c.decl().kind() == z3.Z3_OP_BMUL and z3.is_bv_value(c.arg(0)) and c.arg(0).as_long() == (1 << n) - 1:
                        neg.append(m1)
                    elif z3.is_bv_value(c) and c.as_long() >> (n - 1):
                        neg.append(m1)
                    else:
                        pos.append(c)
                s = lambda v: sum(v[1:], v[0]) if v else z3.BitVecVal(0, n)
                p, q = s(pos), s(neg)
                cand = p < q if b.as_long() == 1 else p >= q
                if solve.equal(e, cand, assume, 20000)[0] == "unsat":
                    return cand
    return e


class Cutter:
    """Proves, private tensor by private tensor, that its plaintext does not depend on any
    mask, and then replaces its shares by fresh ones with the same plaintext.  Replacement is
    an over-approximation, so anything proved afterwards holds for the real shares."""

    def __init__(self, h, it, timeout=40000, budget=300):
        self.h, self.it = h, it
        self.timeout = timeout
        self.lemmas = 0
        self.uncut = 0
        self.owned = set()
        self.n = 0
        self.t0 = time.time()
        self.budget = budget
        self.full = {}       # name -> (variable, definition over the inputs only)
        self.semi = {}       # those that mention masks: name -> (variable, definition over mask-free names)
        self.byid = {}       # id of a plaintext expression -> its name

    def name(self, e, nb):
        """Name a plaintext expression, so that what follows is proved for any value of it;
        expand() puts the definition back."""
        if is_conc(e) or (z3.is_const(e)):
            return e
        k = e.get_id()
        if k not in self.byid:
            n = "S!d%d" % len(self.byid)
            v = z3.Bool(n) if nb == 0 else z3.BitVec(n, nb)
            full = z3.simplify(self.expand(e))
            semi = z3.simplify(self.unmask(e))
            r = v
            if nb:
                z = solve.known_zero(e, nb)
                if z:
                    r = s_and(v, ((1 << nb) - 1) & ~z, nb)
            if not any(not is_secret_name(m) for m in solve.free_vars(full)):
                full = tidy(full, self.assumptions())
            self.full[n] = (v, full)
            if any(not is_secret_name(m) for m in solve.free_vars(semi)):
                self.semi[n] = (v, semi)
            self.byid[k] = (e, r)
        return self.byid[k][1]

    def expand(self, e, table=None):
        table = self.full if table is None else table
        if is_conc(e) or isinstance(e, bool):
            return e
        sub = [table[n] for n in solve.free_vars(e) if n in table]
        return z3.substitute(e, *sub) if sub else e

    def unmask(self, e):
        """put back the definitions that mention masks"""
        return self.expand(e, self.semi)

    def assumptions(self):
        return self.h.assume + self.it.rng.assume

    def same(self, u, v):
        r, _ = solve.equal(u, v, timeout=self.timeout)
        if r == "sat" and (self.full or self.h.assume):
            r, _ = solve.equal(self.expand(u), self.expand(v), self.assumptions(), self.timeout)
        return r == "unsat"

    def plain(self, e):
        """e with the masks it does not depend on removed; None if undecided; 2nd: lemma used"""
        cur, used = solve.simp(e), 0
        for how in ("named", "unmasked", "expanded"):
            if time.time() - self.t0 > self.budget:
                return (cur if used else None), used
            asm = []
            if how == "unmasked":
                nxt = self.unmask(cur)
                if nxt.eq(cur):
                    continue
            elif how == "expanded":
                asm = self.assumptions()
                nxt = self.expand(cur)
                if not asm and nxt.eq(cur):
                    continue
            else:
                nxt = cur
            fv = solve.free_vars(nxt)
            ms = [v for n, v in fv.items() if not is_secret_name(n)]
            if not ms:
                if how == "named":
                    continue
                return cur, used
            if how != "named":
                dep = solve.depends(nxt, fv, ms, only_all=True)
                if dep:
                    # depends on some masks even so: keep the named form
                    return cur, used
            e2 = solve.eliminate(nxt, fv, ms, asm, self.timeout, whole=how != "named")
            if e2 is None:
                continue
            used = 1
            cur = e2
            if not any(not is_secret_name(n) for n in solve.free_vars(cur)) and how != "named":
                return cur, used
        return solve.simp(cur), used

    def run(self):
        for t in list(self.h.reg):
            self.one(t)

    def one(self, t):
        h, it = self.h, self.it
        if getattr(t, "_tfv_input", False):
            for c in h.parts(t)[0]:
                for x in c:
                    self.owned.add(it.key(x.value))
            return
        try:
            comps, alg = h.parts(t)
        except Exception:
            return
        keys = [[it.key(x.value) for x in c] for c in comps]
        flat = [k for c in keys for k in c]
        own = [any(k in self.owned for k in c) for c in keys]
        if all(own):
            return
        if len(set(flat)) != len(flat):
            # aliased components (same tensor object on several servers): only identical
            # components may alias
            for a in range(len(keys)):
                for b in range(a):
                    if set(keys[a]) & set(keys[b]):
                        return
        if any(x.value.graph is not it.g for c in comps for x in c):
            return
        vals = [[elems_of(x, it.get(x.value)) for x in c] for c in comps]
        f0 = comps[0][0].factory
        nb = nbits_of(f0) if hasattr(f0, "nbits") or f0.native_type == tf.bool else None
        if nb is None or (nb and f0.modulus != 1 << nb):
            return      # another modulus: left as it is
        # replicas must agree
        for c in vals:
            for other in c[1:]:
                if c[0].shape != other.shape:
                    return
                for u, v in zip(c[0].flat, other.flat):
                    if not (is_conc(u) and is_conc(v) and u == v) and not (
                        not is_conc(u) and not is_conc(v) and u.eq(v)
                    ):
                        if not self.same(u, v):
                            self.uncut += 1
                            return
        if len({c[0].shape for c in vals}) != 1:
            return
        R = recombine(alg, nb, [c[0] for c in vals])
        Rp = obj(R.shape)
        for i in np.ndindex(*R.shape):
            e = R[i]
            if is_conc(e):
                Rp[i] = e
                continue
            e2, used = self.plain(e)
            if e2 is None:
                self.uncut += 1
                return
            self.lemmas += used
            Rp[i] = self.name(e2, nb)
        # fresh shares for all components but the last one that is not another tensor's;
        # components that belong to an earlier tensor keep their value
        self.n += 1
        last_k = max(k for k in range(len(comps)) if not own[k])
        order = [k for k in range(len(comps)) if k != last_k]
        fresh = [vals[k][0] if own[k] else h.mask("c%d_%d" % (self.n, k), R.shape, nb) for k in order]
        if nb == 0:
            last = recombine(alg, 0, [Rp] + fresh)
        elif alg == "A":
            last = Rp
            for f in fresh:
                last = bmap(lambda a, b: s_sub(a, b, nb), last, f)
        else:
            for i in np.ndindex(*R.shape):
                z = solve.known_zero(vals[0][0][i], nb)
                for c in vals[1:]:
                    z &= solve.known_zero(c[0][i], nb)
                if z:
                    keep = ((1 << nb) - 1) & ~z
                    for k, f in zip(order, fresh):
                        if not own[k]:
                            f[i] = s_and(f[i], keep, nb)
                    Rp[i] = s_and(Rp[i], keep, nb)
            last = recombine("B", nb, [Rp] + fresh)
        for k, val in list(zip(order, fresh)) + [(last_k, last)]:
            if own[k]:
                continue
            for x in comps[k]:
                if nb == 128:
                    s = Sym("int64", split128(val))
                elif nb == 0:
                    s = Sym("bool", val)
                else:
                    s = Sym(x.factory.native_type.name, val)
                it.set(x.value, s)
                self.owned.add(it.key(x.value))


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "ok"      # ok | violation | undecided
        self.detail = []
        self.queries = 0
        self.obligations = 0
        self.lemmas = 0
        self.replay = None
        self.ops = {}
        self.wall = 0
        self.solver = {}
        self.functions = []

    def to_json(self):
        return dict(name=self.name, status=self.status, detail=[str(d)[:600] for d in self.detail],
                    queries=self.queries, obligations=self.obligations, lemmas=self.lemmas,
                    replay=self.replay, ops=self.ops, wall=self.wall, solver=self.solver,
                    functions=self.functions)

    def violation(self, why, **kw):
        self.status = "violation"
        self.detail.append(why)
        self.replay = dict(case=self.name, observed=why, **kw)

    def undecided(self, why):
        if self.status == "ok":
            self.status = "undecided"
        self.detail.append(why)


@contextlib.contextmanager
def traced(res):
    """records which functions of the repository run while the graph is produced"""
    seen = set()

    def prof(frame, event, arg):
        if event == "call":
            c = frame.f_code
            if c.co_filename.startswith(REPO):
                seen.add(c.co_filename[len(REPO) + 1:] + ":" + c.co_qualname)
    sys.setprofile(prof)
    try:
        yield
    finally:
        sys.setprofile(None)
        res.functions = sorted(f for f in seen if "<" not in f.split(":")[1].split(".")[-1])


def fetch_elems(it, x):
    if isinstance(x, (tf.Tensor,)):
        return lift(it.get(x)).a
    return elems_of(x, it.get(x.value))


def concrete_elems(x):
    if isinstance(x, tf.Tensor):
        return lift(np.asarray(x.numpy())).a
    v = x.value
    return elems_of(x, np.asarray(v.numpy()))


def eager_replay(mk, build, values, tries=3):
    """Re-run the case on the real code.  -> (confirmed, description)"""
    for k in range(tries):
        h = mk("eager", values, seed=k)
        try:
            with h.scope():
                build(h)
        except Unsupported:
            raise
        except Exception as e:  # noqa: BLE001
            return True, "raises %s: %s" % (type(e).__name__, str(e)[:300])
        for lab, okk, why in h.raw:
            if not okk:
                return True, "%s: %s" % (lab, why)
        for ob in h.obs:
            got = [(p, ob.map(concrete_elems(x))) for p, x in ob.fetch]
            ref = ob.spec if ob.spec is not None else got[0][1]
            for p, g in got:
                if g.shape != ref.shape:
                    return True, "%s at %s: shape %s, expected %s" % (ob.label, p, g.shape, ref.shape)
            if any(isinstance(c, bool) and not c for c in (ob.assume or [])) or not all(c is True or c is None or (not isinstance(c, bool)) for c in h.assume):
                continue
            for p, g in got:
                for i in np.ndindex(*ref.shape):
                    good = (g[i] == ref[i]) if ob.pred is None else bool(ob.pred(g[i], ref[i]))
                    if not good:
                        return True, "%s at %s%s: got %s, expected %s, inputs %s" % (
                            ob.label, p, list(i), g[i], ref[i],
                            {n: [str(v) for v in np.asarray(h.S[n]).reshape(-1)][:16] for n in h.S})
    return False, "not reproduced in %d eager runs" % tries


def session_replay(h, it, model, ob):
    """Feed the model's inputs *and* randomness into the traced graph and run it with the
    real kernels."""
    g2 = tf.Graph()
    gd = h.graph.as_graph_def()
    for n in gd.node:
        n.device = ""
    for f in gd.library.function:
        for n in f.node_def:
            n.device = ""
    fd = {}
    for t, s in list(h.feeds) + list(it.rng.feeds):
        if t.graph is not h.graph:
            continue
        a = obj(s.a.shape)
        for i in np.ndindex(*s.a.shape):
            a[i] = solve.mval(model, s.a[i])
        fd[t.name] = to_np(Sym(s.dt, a))
    with g2.as_default():
        tf.import_graph_def(gd, name="")
        outs = []
        with tf.compat.v1.Session(graph=g2) as sess:
            for p, x in ob.fetch:
                v = x if isinstance(x, tf.Tensor) else x.value
                outs.append((p, x, sess.run(g2.get_tensor_by_name(v.name), feed_dict=fd)))
    got = [(p, ob.map(elems_of(x, o) if not isinstance(x, tf.Tensor) else lift(o).a)) for p, x, o in outs]
    if ob.spec is None:
        ref = got[0][1]
    else:
        ref = obj(ob.spec.shape)
        for i in np.ndindex(*ref.shape):
            ref[i] = solve.mval(model, ob.spec[i])
    for p, g in got:
        for i in np.ndindex(*ref.shape):
            good = (g[i] == ref[i]) if ob.pred is None else _pb(ob.pred(g[i], ref[i]))
            if not good:
                return True, "%s at %s%s: got %s, expected %s (inputs and randomness fed)" % (ob.label, p, list(i), g[i], ref[i])
    return False, "session run agrees with the specification"


def _pb(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, z3.ExprRef):
        return z3.is_true(z3.simplify(v))
    return bool(v)


def values_from(h, model):
    vals = {}
    for n, a in h.S.items():
        o = obj(a.shape)
        for i in np.ndindex(*a.shape):
            o[i] = solve.mval(model, a[i])
        vals[n] = o
    return vals


def _plain(cutter, a):
    if cutter is None or is_conc(a):
        return a
    p, _ = cutter.plain(a)
    return cutter.expand(a if p is None else p)


def decide(h, it, ob, timeout=None, cutter=None):
    """-> ('ok',None) | ('sat',model) | ('unknown',None) | ('shape',text)"""
    got = [(p, fetch_elems(it, x)) for p, x in ob.fetch]
    ref = ob.spec if ob.spec is not None else got[0][1]
    assume = list(h.assume) + list(it.rng.assume) + list(ob.assume)
    if ob.post is not None:
        got = [(p, ob.post(bmap(lambda a: _plain(cutter, a), g))) for p, g in got]
    for p, g in got:
        if g.shape != ref.shape:
            return "shape", "%s at %s: shape %s, expected %s" % (ob.label, p, g.shape, ref.shape)
    unk = False
    done = set()
    ex = cutter.expand if cutter is not None else (lambda e: e)
    for p, g in got:
        for i in np.ndindex(*ref.shape):
            a, b = g[i], ref[i]
            if ob.spec is None and not is_conc(a) and not is_conc(b) and solve.equal(a, b, (), timeout)[0] == "unsat":
                continue
            if ob.post is None:
                a = _plain(cutter, a)
            b = ex(b)
            k = (a.get_id() if not is_conc(a) else ("c", a), b.get_id() if not is_conc(b) else ("c", b))
            if k in done:
                continue
            done.add(k)
            if ob.pred is None:
                r, m = solve.equal(a, b, assume, timeout)
            elif getattr(ob.pred, "ints", False):
                r, m = lia.valid(ob.pred, a, b, assume, timeout)
            else:
                c = ob.pred(a, b)
                if isinstance(c, bool):
                    if c:
                        solve.count("unsat", "trivial")
                        continue
                    r, m = solve.check([z3.BoolVal(True)] + assume, timeout)
                else:
                    r, m = solve.valid(c, assume, timeout)
            if r == "sat":
                return "sat", m
            if r == "unknown":
                unk = True
    return ("unknown", None) if unk else ("ok", None)


def run_case(name, mk, build, timeout=None, cut=True, session_ok=True):
    """mk(mode, values, seed) -> Harness; build(h) runs the code and states obligations."""
    res = Result(name)
    t0 = time.time()
    solve.reset()
    h = mk("sym", None, 0)
    try:
        try:
            with h.scope(), traced(res):
                build(h)
        except Unsupported as e:
            res.status, res.detail = "undecided", ["encoding: %s" % e]
            return res
        except Exception as e:  # noqa: BLE001 - the real code raised while being traced
            ok, why = eager_replay(mk, build, None)
            if ok:
                res.status = "violation"
                res.detail = [why]
                res.replay = {"case": name, "observed": why, "values": None}
            else:
                res.status = "undecided"
                import traceback
                fr = traceback.extract_tb(e.__traceback__)
                mine = [i for i, f in enumerate(fr) if "/tfv/" in f.filename or "/cases/" in f.filename]
                repo = [i for i, f in enumerate(fr) if f.filename.startswith(REPO + "/")]
                tb = fr[repo[-1]] if repo else fr[-1]
                why = "raises %s: %s at %s:%d `%s`" % (type(e).__name__, str(e)[:200], tb.filename, tb.lineno, tb.line)
                if not h.fragile and repo and (not mine or repo[-1] > mine[-1]) and not retrace_ok(mk, build):
                    res.violation(why + " (graph built with every party on its own device)")
                else:
                    res.undecided("tracing " + why)
            return res
        for lab, okk, why in h.raw:
            res.obligations += 1
            if not okk:
                ok2, why2 = eager_replay(mk, build, None, 1)
                if ok2:
                    res.status = "violation"
                    res.detail = [why2]
                    res.replay = {"case": name, "observed": why2}
                    return res
                res.status = "undecided"
                res.detail.append("%s: %s (eager differs)" % (lab, why))
                return res
        _decide_all(res, h, mk, build, timeout, cut, session_ok, name)
    except Unsupported as e:
        res.status = "undecided"
        res.detail.append("encoding: %s" % e)
    finally:
        res.wall = time.time() - t0
        res.solver = dict(solve.STATS)
        res.queries = solve.STATS["queries"]
    return res


def retrace_ok(mk, build):
    h = mk("sym", None, 0)
    try:
        with h.scope():
            build(h)
        return True
    except Exception:  # noqa: BLE001
        return False


def _decide_all(res, h, mk, build, timeout, cut, session_ok, name):
    it = Interp(h.graph, dict_feeds(h), Rng())
    if cut:
        c = Cutter(h, it)
        c.run()
        res.lemmas = c.lemmas
        if c.uncut:
            res.detail.append("%d private tensors left uncut" % c.uncut)
    if h.assume:
        r, _ = solve.check([c for c in h.assume if not isinstance(c, bool)] or [z3.BoolVal(True)])
        if r != "sat":
            res.undecided("assumptions not satisfiable (%s)" % r)
            return
    for ob in h.obs:
        res.obligations += 1
        r, m = decide(h, it, ob, timeout, c if cut else None)
        if r == "ok":
            continue
        if r == "unknown":
            res.status = "undecided"
            res.detail.append("solver unknown: " + ob.label)
            continue
        if r == "shape":
            ok, why = eager_replay(mk, build, None, 1)
            if ok:
                res.status = "violation"
                res.detail.append(why)
                res.replay = {"case": name, "observed": why}
                return
            res.status = "undecided"
            res.detail.append(m + " (eager differs)")
            continue
        # candidate counterexample
        vals = values_from(h, m)
        ok, why = eager_replay(mk, build, vals)
        if not ok and session_ok:
            ok, why, vals = refine(h, ob, vals, timeout)
        if ok:
            res.status = "violation"
            res.detail.append(why)
            res.replay = {"case": name, "observed": why,
                          "values": {k: [str(x) for x in np.asarray(v).reshape(-1)] for k, v in vals.items()}}
            return
        res.status = "undecided"
        res.detail.append("candidate not confirmed for %s: %s" % (ob.label, why))
    res.ops = dict(it.ops_seen)


def refine(h, ob, vals, timeout):
    """Uncut encoding: first with the secrets fixed to the candidate, then free."""
    for fixed in (True, False):
        it = Interp(h.graph, dict_feeds(h), Rng())
        old = list(h.assume)
        if fixed:
            for n, a in h.S.items():
                for i in np.ndindex(*a.shape):
                    if not is_conc(a[i]):
                        v = vals[n][i]
                        h.assume.append(a[i] == (z3.BoolVal(v) if z3.is_bool(a[i]) else v))
        try:
            r, m = decide(h, it, ob, min(timeout or 60000, 60000))
            if r == "sat":
                ok, why = session_replay(h, it, m, ob)
                if ok:
                    return True, why, values_from(h, m)
                return False, "encoding disagrees with session: " + why, vals
            if r == "ok" and not fixed:
                return False, "uncut encoding proves it", vals
        finally:
            h.assume = old
    return False, "no confirmed model", vals


def dict_feeds(h):
    class F(dict):
        pass
    f = F()
    d = {}
    for t, s in h.feeds:
        d[t.ref()] = norm(s)

    class G:
        def items(self):
            return [(k.deref(), v) for k, v in d.items()]

        def __bool__(self):
            return True
    return G()


class PondH(Harness):
    """Two-server protocols with a crypto producer; subclassed for SecureNN."""

    def __init__(self, mode="sym", values=None, seed=0, fpc=None, coin=0.0):
        super().__init__(mode, values, seed)
        self.fpc = fpc
        self.coin = coin

    def make_prot(self):
        from tf_encrypted.protocol.pond import Pond

        return Pond(fixedpoint_config=self.fpc)

    @contextlib.contextmanager
    def patches(self):
        """registers private tensors; the coin that decides which server expands a seed is fixed"""
        import random

        from tf_encrypted.protocol.pond import pond as m

        cls = m.PondPrivateTensor
        orig, rnd = cls.__init__, random.random
        reg = self.reg
        coin = self.coin

        def init(s, *a, **k):
            orig(s, *a, **k)
            reg.append(s)

        cls.__init__ = init
        random.random = lambda: coin
        try:
            yield
        finally:
            cls.__init__ = orig
            random.random = rnd

    def dev(self, i):
        return (self.prot.server_0, self.prot.server_1)[i].device_name

    @property
    def F(self):
        return self.prot.fixedpoint_config.scaling_factor

    def priv(self, name, shape, scaled=True, factory=None, nb=None):
        from tf_encrypted.protocol.pond.pond import PondPrivateTensor

        factory = factory or self.prot.tensor_factory
        nb = nbits_of(factory)
        X = self.secret(name, shape, nb)
        m0 = self.mask(name + "_0", shape, nb)
        m1 = bmap(lambda x, a: s_sub(x, a, nb), X, m0)
        self.M = getattr(self, "M", {})
        self.M[name] = m0, m1
        s0 = self.native(m0, factory, self.dev(0), "in_%s_s0" % name)
        s1 = self.native(m1, factory, self.dev(1), "in_%s_s1" % name)
        t = PondPrivateTensor(self.prot, s0, s1, scaled)
        t._tfv_input = True
        return t

    def pub(self, name, shape, scaled=True, factory=None):
        from tf_encrypted.protocol.pond.pond import PondPublicTensor

        factory = factory or self.prot.tensor_factory
        X = self.secret(name, shape, nbits_of(factory))
        vs = [self.native(X, factory, self.dev(i), "in_%s_p%d" % (name, i)) for i in range(2)]
        return PondPublicTensor(self.prot, vs[0], vs[1], scaled)

    def check(self, t, spec, label="out", pred=None, assume=None, scaled=None):
        from tf_encrypted.protocol.pond.pond import PondMaskedTensor
        from tf_encrypted.protocol.pond.pond import PondPrivateTensor
        from tf_encrypted.protocol.pond.pond import PondPublicTensor

        spec = np.asarray(spec, dtype=object)
        self.raw.append((label + ":type", isinstance(t, (PondPrivateTensor, PondPublicTensor, PondMaskedTensor)), str(type(t))))
        if scaled is not None:
            self.raw.append((label + ":is_scaled", bool(t.is_scaled) == scaled, "is_scaled=%s" % t.is_scaled))
        if isinstance(t, PondMaskedTensor):
            # the mask is shared correctly and alpha is the masked value
            self.raw.append((label + ":unmasked scale", t.unmasked.is_scaled == t.is_scaled, ""))
            for n in range(2):
                self.obs.append(Ob("%s:alpha%d" % (label, n), [("a+alpha%d" % n, (t.alpha_on_0, t.alpha_on_1)[n] + t.a)], spec, pred, assume))
            self.obs.append(Ob(label + ":mask", [("a", t.a), ("a0+a1", t.a0 + t.a1)], None))
            r = self.prot.reveal(t)
        elif isinstance(t, PondPrivateTensor):
            r = self.prot.reveal(t)
        else:
            r = t
        self.raw.append((label + ":scale-kept", r.is_scaled == t.is_scaled, "reveal changed is_scaled"))
        self.obs.append(Ob(label, [("server%d" % i, v) for i, v in enumerate(r.unwrapped)], spec, pred, assume))

    def parts(self, t):
        return [[t.share0], [t.share1]], "A"
