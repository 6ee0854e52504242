"""SecureNN: private comparison against a public number, and the lowest bit in the odd type."""
import time

import numpy as np

from tfv import solve
from tfv.boot import tf
from tfv.boot import z3
from tfv.harness import Cutter
from tfv.harness import Result
from tfv.harness import dict_feeds
from tfv.harness import eager_replay
from tfv.harness import elems_of
from tfv.harness import traced
from tfv.modp import PolyMod
from tfv.modp import top_mods
from tfv.reg import add
from tfv.sym import Interp
from tfv.sym import Rng
from tfv.sym import Sym
from tfv.sym import Unsupported
from tfv.sym import is_conc
from tfv.sym import obj
from tfv.sym import to_np

from .snnlib import SnnH
from .snnlib import share
from .snnlib import snn

P = "P19"
N = 64


def valid(goal, assume=(), timeout=120000):
    r, m = solve.valid(goal, list(assume), timeout)
    return r, m


def lia_valid(cs, goal, timeout=60000):
    S = z3.Solver()
    S.set("timeout", timeout)
    t0 = time.time()
    S.add(*cs)
    S.add(z3.Not(goal))
    r = str(S.check())
    solve.STATS["time"] = solve.STATS.get("time", 0) + time.time() - t0
    solve.count(r, "z3-lia")
    return r, (S.model() if r == "sat" else None)


# ---- [x > r] xor beta, x given by shares of its bits
def pc_inputs(h, cnt=1):
    from tf_encrypted.protocol.pond.pond import PondPrivateTensor
    from tf_encrypted.protocol.pond.pond import PondPublicTensor

    prot = h.prot
    f, p = prot.prime_factory, prot.prime_factory.modulus
    x = h.secret("x", (cnt,), N)
    r = h.secret("r", (cnt,), N)
    b = h.secret("beta", (cnt,), 8)
    if h.mode == "sym":
        m = obj((cnt, N))
        for i in np.ndindex(*m.shape):
            m[i] = z3.BitVec("M!x_%d_%d" % i, N)
            h.ranges[str(m[i])] = (0, p - 1)
        bit = lambda e, i: z3.ZeroExt(N - 1, z3.Extract(i, i, e))
        s1 = obj((cnt, N))
        for k, i in np.ndindex(*s1.shape):
            s1[k, i] = z3.simplify((bit(x[k], i) - m[k, i]) % z3.BitVecVal(p, N))
        bet = obj((cnt,))
        for k in range(cnt):
            bet[k] = z3.ZeroExt(N - 1, z3.Extract(0, 0, b[k]))
    else:
        m = np.vectorize(int, otypes=[object])(h.rs.randint(0, p, (cnt, N)))
        s1 = obj((cnt, N))
        for k, i in np.ndindex(*s1.shape):
            s1[k, i] = ((x[k] >> i & 1) - m[k, i]) % p
        bet = np.array([v & 1 for v in b], dtype=object)
    t = lambda a, fac, d, n: h.native(a, fac, h.dev(d), n)
    xb = PondPrivateTensor(prot, t(m, f, 0, "x0"), t(s1, f, 1, "x1"), False)
    rp = PondPublicTensor(prot, t(r, prot.tensor_factory, 0, "r0"), t(r, prot.tensor_factory, 1, "r1"), False)
    bp = PondPublicTensor(prot, t(bet, f, 0, "b0"), t(bet, f, 1, "b1"), False)
    return xb, rp, bp


def pc_build(h, cnt=1):
    from tf_encrypted.protocol.securenn import securenn as m

    h.ranges = {}
    xb, rp, bp = pc_inputs(h, cnt)
    z = m._private_compare(h.prot, xb, rp, bp)
    h.z = z
    if h.mode == "eager":
        X, R, b = h.S["x"], h.S["r"], h.S["beta"]
        h.check(z, np.array([int(X[k] > R[k]) ^ (b[k] & 1) for k in range(cnt)], dtype=object), scaled=False)


def confirm(res, build, vals, why, level=None):
    ok, w = eager_replay(snn(level), build, vals)
    if ok:
        res.violation(w, values={k: [str(x) for x in np.asarray(v).reshape(-1)] for k, v in (vals or {}).items()})
    else:
        res.undecided(why)
    return res


def direct(name, fn, **kw):
    def run():
        res = Result(name)
        solve.reset()
        t0 = time.time()
        try:
            fn(res)
        except Unsupported as e:
            res.undecided("encoding: %s" % e)
        res.wall, res.solver, res.queries = time.time() - t0, dict(solve.STATS), solve.STATS["queries"]
        return res
    add(P, name, run, kind="direct", **kw)


def trace(res, build, level=None, coin=0.0):
    h = SnnH("sym", None, 0, coin=coin, level=level)
    try:
        with h.scope(), traced(res):
            build(h)
    except Unsupported:
        raise
    except Exception as e:  # noqa: BLE001
        confirm(res, build, None, "raises %s: %s" % (type(e).__name__, str(e)[:200]), level)
        return None, None
    return h, Interp(h.graph, dict_feeds(h), Rng())


CORNERS = [(0, 0), (0, 2 ** 64 - 1), (2 ** 64 - 1, 2 ** 64 - 1), (2 ** 64 - 1, 0), (5, 4), (4, 5), (4, 4), (1 << 63, (1 << 63) - 1), ((1 << 63) - 1, 1 << 63),
           (0x123456789ABCDEF0, 0x123456789ABCDEF1), (0xFFFF0000FFFF0000, 0xFFFF0000FFFF0001)]


def failing(res, build, why, vals=None):
    """look for an input on which the real code fails"""
    n = 2 if build is pc_many else 1
    o = lambda v: np.array([v] * n, dtype=object)
    tries = ([vals] if vals else []) + [dict(x=o(x), r=o(r), beta=o(b)) for x, r in CORNERS for b in (0, 1)]
    for v in tries:
        ok, w = eager_replay(snn(), build, v, 1)
        if ok:
            res.violation(w, values={k: [str(x) for x in a] for k, a in v.items()})
            return
    res.undecided(why)


def private_compare(cnt):
    def fn(res):
        build = pc_build if cnt == 1 else pc_many
        h, it = trace(res, build)
        for k in range(cnt if h is not None else 0):
            if res.status == "ok":
                compare_one(res, h, it, build, cnt, k)
    return fn


def compare_one(res, h, it, pc_build, cnt, el):
    """element el"""
    p = h.prot.prime_factory.modulus
    z = h.z
    want_shape = (cnt,)
    vals = [elems_of(s, it.get(s.value)) for s in (z.share0, z.share1)]
    if any(v.shape != want_shape for v in vals):
        return confirm(res, pc_build, None, "shape %s" % (vals[0].shape,))
    e = z3.simplify(vals[0][el] + vals[1][el])
    x, r, b = h.S["x"][el], h.S["r"][el], z3.Extract(0, 0, h.S["beta"][el]) == 1
    s = r + z3.ZeroExt(N - 1, z3.Extract(0, 0, h.S["beta"][el]))
    ranges = dict(h.ranges)
    mult = set()
    for n, (sid, i, nb) in it.rng.vars.items():
        ev = [v for v in it.rng.events if v["sid"] == sid][0]
        ranges[n] = (ev["lo"], ev["hi"] - 1)
        if ev["lo"] >= 1 and ev["hi"] <= p:
            mult.add(n)
    T = top_mods(e, p)
    sub, zs, info = [], [], []
    PM = PolyMod(p, ranges)
    # a product of two numbers that are not multiples of the modulus is not one
    u, v = z3.BitVecs("u v", 16)
    res.obligations += 1
    if valid(z3.URem(u * v, p) != 0, [z3.UGT(u, 0), z3.ULT(u, p), z3.UGT(v, 0), z3.ULT(v, p)])[0] != "unsat":
        return res.undecided("the modulus is not prime")
    for t in T:
        d, _, _ = PM.poly(t)
        names = set.intersection(*[set(k) for k in d]) & mult if d else set()
        if d and not names:
            return failing(res, pc_build, "a masked value is not a multiple of its mask")
        mu = sorted(names)[:1]
        q = {tuple(n for n in k if n not in mu): c for k, c in d.items()}
        left = {n for k in q for n in k if n not in PM.bits}
        if left:
            return failing(res, pc_build, "shares do not cancel")
        zb = z3.Bool("z%d" % len(zs))
        zs.append(zb)
        info.append((t, q))
        sub.append((t, zb))
    zero = z3.BitVecVal(0, N)
    cond = [(z3.simplify(t == zero), zb) for t, zb in sub]
    res_e = z3.substitute(e, *cond)
    if any(top_mods(res_e, p)) or any(not str(n).startswith("z") for n in solve.free_vars(res_e)):
        return failing(res, pc_build, "the result is not a function of which masked values are zero")
    # what every masked value being zero means
    bits = sorted({n for _, q in info for k in q for n in k})
    X = [z3.simplify(z3.Extract(i, i, x) == 1) for i in range(N)]
    S_ = [z3.simplify(z3.Extract(i, i, s) == 1) for i in range(N)]
    edge = z3.And(b, s == 0)
    known = {}

    def sem(n):
        """the meaning of a bit: x_i, s_i, beta or the edge condition (each proved)"""
        if n not in known:
            c = PM.atom[n]
            hit = None
            for lab, d in [(("b", 0), b), (("e", 0), edge), (("s0", 0), s == 0)] + [(("x", i), X[i]) for i in range(N)] + [(("s", i), S_[i]) for i in range(N)]:
                if set(solve.free_vars(c)) == set(solve.free_vars(z3.simplify(d))) and (c.eq(d) or quick(c, d)):
                    res.obligations += 1
                    if valid(c == d)[0] == "unsat":
                        hit = lab
                        break
                    if valid(c == z3.Not(d))[0] == "unsat":
                        hit = ("!",) + lab
                        break
            known[n] = hit
        return known[n]
    for n in bits:
        if sem(n) is None:
            return failing(res, pc_build, "unknown bit %s" % str(PM.atom[n])[:80])
    used = set()
    defs = []
    for j, (t, q) in enumerate(info):
        defs_j = []
        for bv, ev in ((False, False), (True, False), (True, True)):
            ok = None
            for i in range(N):
                # candidate meaning: position i decides
                xi, si = z3.Bool("x%d" % i), z3.Bool("s%d" % i)
                if ev:
                    cand = [("edge0", z3.BoolVal(True)), ("edge1", z3.BoolVal(False))]
                    cand = [cand[0]] if i == 0 else [cand[1]] if i == 1 else []
                else:
                    top = z3.Bool("top")     # the bits above i agree
                    cand = [(i, z3.And(top, xi, z3.Not(si)) if not bv else z3.And(top, z3.Not(xi), si))]
                    deg = [k for m_ in q for k in m_ if sem(k)[-2] in ("x",)]
                    lowest = min([sem(k)[-1] for k in deg], default=None)
                    if lowest != i:
                        continue
                for lab, c in cand:
                    res.obligations += 1
                    if zero_iff(q, sem, bv, ev, c, p, i):
                        ok = (lab, z3.substitute(c, (z3.Bool("top"), z3.And([z3.Bool("x%d" % k) == z3.Bool("s%d" % k) for k in range(i + 1, N)]))))
                        break
                if ok:
                    break
            if not ok:
                return failing(res, pc_build, "masked value %d, beta %s, edge %s" % (j, bv, ev))
            defs_j.append(ok)
        defs.append(defs_j)
    del used
    # together: the decided positions are exactly the comparison
    spec = z3.If(z3.Xor(z3.UGT(x, r), b), z3.BitVecVal(1, N), zero)
    for bv, ev in ((False, False), (True, False), (True, True)):
        k = {(False, False): 0, (True, False): 1, (True, True): 2}[bv, ev]
        xs = [(z3.Bool("x%d" % i), X[i]) for i in range(N)] + [(z3.Bool("s%d" % i), S_[i]) for i in range(N)]
        full = z3.substitute(res_e, *[(zb, dj[k][1]) for zb, dj in zip(zs, defs)])
        asm = [b if bv else z3.Not(b), (s == 0) if ev else (z3.BoolVal(True) if not bv else s != 0)]
        res.obligations += 1
        # step by step from the top: the sum so far says whether the upper parts decide
        ok, m = compare_sum(full, [dj[k] for dj in defs], res_e, zs, x, s, bv, ev)
        if ok is None:
            ok, m = valid(z3.substitute(full, *xs) == spec, asm, 300000)
        if ok == "sat":
            o = lambda t: np.array([solve.mval(m, t)] * cnt, dtype=object)
            return failing(res, pc_build, "counterexample not confirmed", dict(x=o(x), r=o(r), beta=o(h.S["beta"][el])))
        if ok != "unsat":
            return res.undecided("solver unknown: comparison")
        res.obligations += 1
        gt = z3.UGT(x, s) if not bv else z3.ULT(x, s)
        fin = z3.If(gt, z3.BitVecVal(1, N), zero) if not ev else z3.BitVecVal(1, N)
        if valid(fin == spec, asm)[0] != "unsat":
            return res.undecided("specification")


def compare_sum(full, dk, res_e, zs, x, s, bv, ev):
    """sum over the positions of [position decides] = [x > s] (or <): prefix by prefix"""
    one, zero = z3.BitVecVal(1, N), z3.BitVecVal(0, N)
    tot = zero
    for zb in zs:
        tot = tot + z3.If(zb, one, zero)
    if valid(res_e == tot)[0] != "unsat":
        return None, None
    if ev:
        n = sum(1 for lab, _ in dk if lab == "edge0")
        return ("unsat", None) if n == 1 else (None, None)
    labs = [lab for lab, _ in dk]
    if sorted(labs) != list(range(N)):
        return None, None
    xv, sv = z3.BitVecs("xv sv", N)
    gt = (lambda a, b: z3.UGT(a, b)) if not bv else (lambda a, b: z3.ULT(a, b))
    for i in range(N - 1, -1, -1):
        hi = lambda v, k: z3.Extract(N - 1, k, v)
        bx, bs = z3.Extract(i, i, xv) == 1, z3.Extract(i, i, sv) == 1
        top = z3.BoolVal(True) if i == N - 1 else hi(xv, i + 1) == hi(sv, i + 1)
        pi = z3.And(top, bx, z3.Not(bs)) if not bv else z3.And(top, z3.Not(bx), bs)
        up = z3.BoolVal(False) if i == N - 1 else gt(hi(xv, i + 1), hi(sv, i + 1))
        if valid(z3.And(gt(hi(xv, i), hi(sv, i)) == z3.Or(up, pi), z3.Not(z3.And(up, pi))))[0] != "unsat":
            return None, None
    return "unsat", None


def quick(c, d):
    """c or its negation could be d: agreement on a few points"""
    fv = solve.free_vars(z3.And(c, d))
    a = b = True
    for k in range(12):
        sb = [(v, z3.BitVecVal((k * 0x9E3779B97F4A7C15 ^ (hash(n) * 31)) if k > 1 else -k, v.size())) for n, v in fv.items()]
        u, w = (z3.is_true(z3.simplify(z3.substitute(t, *sb))) for t in (c, d))
        a, b = a and u == w, b and u != w
    return a or b


def zero_iff(q, sem, bv, ev, cand, p, pos):
    """q = 0 mod p  <=>  cand, for the given beta and edge"""
    vs, cs, terms = {}, [], z3.IntVal(0)

    def var(lab):
        """(negated, name) as an integer"""
        n = "%s%d" % lab[-2:]
        if n not in vs:
            vs[n] = z3.Int("i" + n)
            cs.append(vs[n] == z3.If(z3.Bool(n), 1, 0))
        return vs[n]
    prod = {}
    # merge equal monomials after fixing beta and edge
    merged = {}
    for mono, c in q.items():
        keep, dead = [], False
        for n in mono:
            lab = sem(n)
            sg, kind = lab[0] == "!", lab[-2]
            fx = {"b": bv, "e": ev, "s0": ev}.get(kind)
            if kind == "s0" and not bv:
                fx = None
            if fx is None:
                keep.append((sg, kind, lab[-1]))
            elif fx == sg:
                dead = True
        if not dead:
            k = tuple(sorted(set(keep)))
            merged[k] = (merged.get(k, 0) + c) % p
    # in terms of s_i and w_i = x_i xor s_i:  x_i = s_i + w_i - 2 s_i w_i
    poly = {}
    for mono, c in merged.items():
        acc = {(): c}
        for sg, kind, i in mono:
            f = {(("s", i),): 1, (("w", i),): 1, (("s", i), ("w", i)): -2} if kind == "x" else {((kind, i),): 1}
            if sg:
                f = {k: -v for k, v in f.items()}
                f[()] = 1
            nxt = {}
            for k1, v1 in acc.items():
                for k2, v2 in f.items():
                    k = tuple(sorted(set(k1 + k2)))
                    nxt[k] = (nxt.get(k, 0) + v1 * v2) % p
            acc = nxt
        for k, v in acc.items():
            poly[k] = (poly.get(k, 0) + v) % p
    poly = {k: v for k, v in poly.items() if v}
    # the w_k that only occur as a plain sum: zero exactly when all the bits agree
    alone = {k[0] for k in poly if len(k) == 1 and k[0][0] == "w" and k[0][1] > pos} - {n for k in poly if len(k) > 1 for n in k}
    top = {("w", k) for k in range(pos + 1, N)}
    if not ev:
        if not top <= alone or len({poly[(n,)] for n in top}) > 1:
            return False
        W = z3.Int("W")
        cs += [W >= 0, W <= len(top)]
        if top:
            c = poly[(min(top),)]
            terms = terms + (c if c <= p // 2 else c - p) * W
        cand = z3.substitute(cand, (z3.Bool("top"), W == 0))
        poly = {k: v for k, v in poly.items() if not (len(k) == 1 and k[0] in top)}
    for mono, c in poly.items():
        c = c if c <= p // 2 else c - p
        if not mono:
            terms = terms + c
            continue
        fs = [var(n) for n in mono]
        if len(fs) == 1:
            terms = terms + c * fs[0]
            continue
        y = z3.Int("y%d" % len(prod))
        prod[mono] = y
        cs.extend([y >= 0] + [y <= f for f in fs] + [y >= sum(fs) - (len(fs) - 1)])
        terms = terms + c * y
    cand = z3.substitute(cand, *[(z3.Bool("x%d" % i), z3.Xor(z3.Bool("s%d" % i), z3.Bool("w%d" % i))) for i in range(N)])
    return lia_valid(cs, cand == (terms % p == 0))[0] == "unsat"


def pc_many(h):
    """every element is compared with its own number"""
    pc_build(h, 2)


direct("private_compare", private_compare(1), cost=20)
direct("private_compare_elements", private_compare(2), cost=40)


# ---- the lowest bit of an odd number
def lsb_build(h):
    from tf_encrypted.protocol.pond.pond import PondPrivateTensor
    from tf_encrypted.protocol.securenn import SecureNN
    from tf_encrypted.protocol.securenn import securenn as m

    prot, f = h.prot, h.prot.odd_factory
    xs = [h.secret("x%d" % i, (1,), N) for i in range(2)]
    if h.mode == "sym":
        h.assume_in(*[v[0] != z3.BitVecVal(-1, N) for v in xs])
    else:
        for n in ("x0", "x1"):
            h.S[n] = np.array([0 if v == 2 ** N - 1 else v for v in h.S[n]], dtype=object)
        xs = [h.S["x0"], h.S["x1"]]
    sh = []
    for i in range(2):
        with tf.device(h.dev(i)):
            s = Sym("int64", xs[i])
            if h.mode == "sym":
                ph = tf.compat.v1.placeholder(tf.int64, [1])
                h.feeds.append((ph, s))
            else:
                ph = tf.constant(to_np(s))
            sh.append(f.tensor(ph))
    x = PondPrivateTensor(prot, sh[0], sh[1], False)
    cls = [c for c in type(sh[0]).__mro__ if "add" in vars(c) and c.__name__ == "OddTensor"]
    h.adds, h.pc, h.x = [], [], sh
    old_pc = m._private_compare

    def pc(prot, x_bits, r, beta):
        h.pc.append((x_bits, r, beta))
        if h.mode == "eager":
            return old_pc(prot, x_bits, r, beta)
        g = Sym("int64", h.secret("greater", (1,), N))      # [bits > r] xor beta, by private_compare
        ph = tf.compat.v1.placeholder(tf.int64, [1])
        h.feeds.append((ph, g))
        h.assume_in(z3.ULE(g.a[0], z3.BitVecVal(1, N)))
        return share(prot, prot.tensor_factory.tensor(ph, encode=False))

    rec = []
    if cls:
        c = cls[0]
        olds = c.add, c.sub

        def wrap(fn, kind):
            def g(a, b):
                u, w = (t.value if isinstance(t, c) else None for t in (a, b))
                r = fn(a, b)
                if u is not None and w is not None:
                    rec.append((kind, u, w, r.value))
                return r
            return g
        c.add, c.sub = wrap(olds[0], "+"), wrap(olds[1], "-")
    m._private_compare = pc
    try:
        h.z = prot.lsb(x)
    finally:
        m._private_compare = old_pc
        if cls:
            c.add, c.sub = olds
    h.adds = rec
    M = 2 ** N - 1
    if h.mode == "eager":
        h.check(h.z, np.array([(int(xs[0][0]) + int(xs[1][0])) % M & 1], dtype=object), scaled=False)
    del SecureNN


def oddadd(u, v, sub=False):
    """sum or difference modulo 2^N - 1"""
    M = z3.BitVecVal(2 ** N - 1, N + 2)
    a, b = z3.ZeroExt(2, u), z3.ZeroExt(2, v)
    s = a - b if sub else a + b
    return z3.Extract(N - 1, 0, z3.If(s < 0, s + M, z3.If(s >= M, s - M, s)))


def lsb_case(name, coin):
    def fn(res):
        h, it = trace(res, lsb_build, coin=coin)
        if h is None:
            return
        bad = lambda why: lsb_fail(res, why)
        if len(h.pc) != 1:
            return bad("%d comparisons" % len(h.pc))
        xb, r, beta = h.pc[0]
        p = h.prot.prime_factory.modulus
        M = 2 ** N - 1
        mone = z3.BitVecVal(-1, N)
        ints, cs = {}, []

        def num(e):
            """unsigned value of a 64-bit term"""
            k = e.get_id()
            if k not in ints:
                ints[k] = (z3.Int("n%d" % len(ints)), e)
                cs.append(z3.And(ints[k][0] >= 0, ints[k][0] < 2 ** N))
            return ints[k][0]
        asm = list(h.assume)
        cache = {}
        # every addition in the odd type adds modulo 2^N - 1 (proved on the bits); its result is
        # then only known by that
        for kind, u, v, w in h.adds:
            if w.graph is not h.graph:
                continue
            U, V, W = (it.get(t).a[0] for t in (u, v, w))
            asm += [a for a in it.rng.assume if not any(a.eq(b) for b in asm)]
            key = (kind, U.get_id(), V.get_id())
            if key in cache:
                res.obligations += 1
                if not W.eq(cache[key][2]) and valid(W == cache[key][2], asm)[0] != "unsat":
                    return bad("equal sums differ")
                it.set(w, Sym("int64", np.array([cache[key][0]], dtype=object)))
                continue
            res.obligations += 2
            small = [a for a in asm if set(solve.free_vars(a)) & (set(solve.free_vars(U)) | set(solve.free_vars(V)))]
            if valid(z3.And(U != mone, V != mone), small)[0] != "unsat":
                return bad("an operand may be the unused bit pattern")
            if valid(W == oddadd(U, V, kind == "-"), small)[0] != "unsat":
                return bad("an addition in the odd type is not exact")
            Z = z3.BitVec("odd%d" % len(cache), N)
            k = z3.Int("k%d" % len(cache))
            a, b, c = num(U), num(V), num(Z)
            cs += [a < M, b < M, c == (a + b if kind == "+" else a - b) - M * k, c >= 0, c < M, k >= -1, k <= 1]
            asm.append(Z != mone)
            cache[key] = (Z, (U, V), W)
            it.set(w, Sym("int64", np.array([Z], dtype=object)))
        c = Cutter(h, it)
        c.run()
        res.lemmas = c.lemmas
        # the private number's bits
        sb = [it.get(s.value).a for s in (xb.share0, xb.share1)]
        if sb[0].shape != (1, N):
            return bad("bits have shape %s" % (sb[0].shape,))
        ranges = {}
        for n, (sid, i, nb) in it.rng.vars.items():
            ev = [v for v in it.rng.events if v["sid"] == sid][0]
            ranges[n] = (ev["lo"], ev["hi"] - 1)
        PM = PolyMod(p, ranges)
        rb = []
        for i in range(N):
            d, _, _ = PM.poly(z3.simplify(sb[0][0, i] + sb[1][0, i]))
            if len(d) != 1 or list(d.values()) != [1] or len(list(d)[0]) != 1 or list(d)[0][0] not in PM.bits:
                return bad("bit %d of the mask is not shared as such" % i)
            rb.append(PM.atom[list(d)[0][0]])
        R = z3.simplify(z3.Concat(*[z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for e in rb[::-1]]))
        C = [it.get(v.value).a[0] for v in r.unwrapped]
        bt = [it.get(v.value).a[0] for v in beta.unwrapped]
        X = oddname(cs, num, M, *[it.get(t.value).a[0] for t in h.x])
        # R is one of the named sums
        named = [z for z, _, _ in cache.values()]
        Rn = next((z for z in named if set(solve.free_vars(R)) == {str(z)} and valid(R == z)[0] == "unsat"), None)
        if Rn is None:
            return bad("the compared bits are not those of a sum in the odd type")
        for k in range(2):
            if not any(C[k].eq(z) for z in named):
                return bad("the opened value is not a sum in the odd type")
            res.obligations += 2
            # what is opened is the sum of the value and the mask
            q = z3.Int("q")
            cg = num(C[k])
            if lia_valid(cs, z3.Or(cg == X + num(Rn), cg == X + num(Rn) - M))[0] != "unsat":
                return bad("what is opened is not the masked value")
            if not bt[k].eq(bt[0]) and valid(bt[k] == bt[0], asm)[0] != "unsat":
                return bad("the servers use different coins")
            if valid(z3.Or(bt[k] == 0, bt[k] == 1), asm)[0] != "unsat":
                return bad("the coin is not a bit")
            del q
        if not C[0].eq(C[1]) and lia_valid(cs, num(C[0]) == num(C[1]))[0] != "unsat":
            return bad("the servers open different values")
        # the result, given the outcome g of the comparison
        al = [elems_of(v, it.get(v.value))[0] for v in h.prot_reveal] if hasattr(h, "prot_reveal") else None
        z = h.z
        e = z3.simplify(it.get(z.share0.value).a[0] + it.get(z.share1.value).a[0])
        pl, _ = c.plain(e)
        pl = c.expand(e if pl is None else pl)
        low = lambda t: z3.ZeroExt(N - 1, z3.Extract(0, 0, t))
        gt = z3.If(z3.UGT(R, C[0]), z3.BitVecVal(1, N), z3.BitVecVal(0, N))
        pl = z3.substitute(pl, (h.S["greater"][0], gt ^ low(bt[0])))
        want = gt ^ low(R) ^ low(C[0])
        res.obligations += 1
        extra = [a for a in it.rng.assume]
        pl = z3.simplify(PMsub(pl, PM, p))
        rr, m_ = valid(pl == want, asm + extra, 200000)
        if rr != "unsat":
            return bad("result: %s" % rr)
        # and in the integers: [R > C] xor R xor C = x modulo 2
        res.obligations += 1
        nr, nc = num(Rn), num(C[0])
        if lia_valid(cs + [z3.Or(nc == X + nr, nc == X + nr - M)], (z3.If(nr > nc, 1, 0) + nr + nc - X) % 2 == 0)[0] != "unsat":
            return bad("parity")
        del al
    direct(name, fn, cost=30)


def PMsub(e, PM, p):
    """residues of shared bits inside e replaced by the bits"""
    sub = []
    for t in top_mods(e, p):
        d, _, _ = PM.poly(t)
        if len(d) == 1 and list(d.values()) == [1] and len(list(d)[0]) == 1 and list(d)[0][0] in PM.bits:
            sub.append((t, z3.If(PM.atom[list(d)[0][0]], z3.BitVecVal(1, t.size()), z3.BitVecVal(0, t.size()))))
    return z3.substitute(e, *sub) if sub else e


def oddname(cs, num, M, a, b):
    X, k = z3.Int("X"), z3.Int("kX")
    cs += [X == num(a) + num(b) - M * k, X >= 0, X < M]
    for t in (a, b):
        cs.append(num(t) < M)
    return X


def lsb_fail(res, why):
    o = lambda v: np.array([v], dtype=object)
    for a in (0, 1, 2, 3, 2 ** 63, 2 ** 63 - 1, 2 ** 64 - 2, 0x123456789ABCDEF1):
        for b in (0, 1, 2 ** 64 - 2, 2 ** 63):
            ok, w = eager_replay(snn(), lsb_build, dict(x0=o(a), x1=o(b)), 1)
            if ok:
                res.violation(w, values={"x0": str(a), "x1": str(b)})
                return
    res.undecided(why)


lsb_case("lsb_private", 0.0)
lsb_case("lsb_private_other_coin", 0.9)
del is_conc
