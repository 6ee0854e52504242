"""Tensors held by residues (Chinese remainder representation)."""
import time

import numpy as np

from tfv import lia
from tfv import solve
from tfv.boot import tf
from tfv.boot import z3
from tfv.harness import Result
from tfv.harness import traced
from tfv.reg import add
from tfv.spec import Ring
from tfv.sym import Interp
from tfv.sym import Rng
from tfv.sym import Sym
from tfv.sym import Unsupported
from tfv.sym import is_conc
from tfv.sym import obj
from tfv.sym import signed
from tfv.sym import to_np

P = "P21"
EPS = 16          # values within (1 - 2^-EPS) of half the modulus
R32 = Ring(32)


def moduli():
    from tf_encrypted.tensor import int100factory as f

    x = f.sample_uniform([1])
    del x
    # read back from the code: a residue vector of -1 is one less than the modulus
    with tf.Graph().as_default():
        t = f.tensor(np.array([-1]))
        from tensorflow.python.framework import tensor_util
        return [int(tensor_util.constant_value(b)[0]) + 1 for b in t.backing]


class CrtTrans(lia.Trans):
    """adds exact width changes and floating-point terms with a proved error bound"""

    def atom(self, e):
        i = e.get_id()
        if i in self.atoms:
            return self.atoms[i]
        k = e.decl().kind()
        v = None
        if k == z3.Z3_OP_SIGN_EXT:
            ex, _, (lo, hi) = self.exact(e.arg(0))
            v = self.fresh("w", lo, hi)
            self.cs.append(self.vars[v] == ex)
            self.wide[v] = self.lin(e.arg(0)), e.arg(0).size()
        elif k == z3.Z3_OP_EXTRACT and e.params()[1] == 0:
            n = e.size()
            ex, _, (lo, hi) = self.exact(e.arg(0))
            h = 1 << (n - 1)
            v = self.fresh("x", max(lo, -h) if lo >= -h and hi < h else -h, min(hi, h - 1) if lo >= -h and hi < h else h - 1)
            q = self.fresh("n", (lo + h) // (2 * h), (hi + h) // (2 * h))
            self.cs.append(ex == self.vars[v] + 2 * h * self.vars[q])
            self.mods.append((e.arg(0).size(), 2 * h, -h, ex, self.exact(e.arg(0))[1], q, v))
        elif k == z3.Z3_OP_FPA_TO_SBV:
            ex, err, lo, hi = self.real(e.arg(1))
            v = self.fresh("r", int(lo) - 2, int(hi) + 2)
            s = z3.Real("err%d" % i)
            self.rounded.append(v)
            self.cs += [s >= -z3.RealVal(err), s <= z3.RealVal(err), z3.ToReal(self.vars[v]) == ex + s]
        elif k == z3.Z3_OP_ITE:
            a, b = self.exact(e.arg(1)), self.exact(e.arg(2))
            v = self.fresh("i", min(a[2][0], b[2][0]), max(a[2][1], b[2][1]))
            self.cs.append(self.vars[v] == z3.If(self.boolean(e.arg(0)), a[0], b[0]))
        elif k == z3.Z3_OP_BAND and e.num_args() == 2 and any(map(z3.is_bv_value, e.children())):
            c, y = e.children() if z3.is_bv_value(e.arg(0)) else e.children()[::-1]
            j = c.as_long().bit_length()
            if c.as_long() == (1 << j) - 1 and j < e.size():
                low = z3.Concat(z3.BitVecVal(0, e.size() - j), z3.Extract(j - 1, 0, y))
                self.keep.append(low)
                v = self.atom(low)
        if v is None:
            v = super().atom(e)
            arg = None
            if k in (z3.Z3_OP_BSMOD, z3.Z3_OP_BSMOD_I) and z3.is_bv_value(e.arg(1)):
                K, arg = e.arg(1).as_long(), e.arg(0)
            elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(1).decl().kind() == z3.Z3_OP_EXTRACT:
                K, arg = 1 << e.arg(1).size(), e.arg(1).arg(0)
            if arg is not None and len(self.lin(arg)[0]) > 1:
                q = next(w for p, w in reversed(self.last) if p == "q")
                ex, (d, c), _ = self.exact(arg)
                self.mods.append((arg.size(), K, 0, ex, (d, c), q, v))
            return v
        self.atoms[i] = v
        self.keep.append(e)
        return v

    def define(self, a, f, n):
        """forms are kept as the code writes them"""

    def __init__(self):
        super().__init__()
        self.rounded, self.mods, self.wide = [], [], {}

    def fresh(self, p, lo, hi, prim=False):
        v = super().fresh(p, lo, hi, prim)
        if p in "uq":
            self.last = getattr(self, "last", []) + [(p, v)]
        return v

    def real(self, e):
        """(real expression, error bound, lo, hi)"""
        from fractions import Fraction as Q

        u = Q(1, 1 << 24) if e.sort() == z3.Float32() else Q(1, 1 << 53)
        k = e.decl().kind()
        ch = e.children()
        if z3.is_fp_value(e):
            x = z3.simplify(z3.fpToReal(e)).as_fraction()
            return z3.RealVal(x), Q(0), x, x
        if k == z3.Z3_OP_FPA_TO_FP and z3.is_bv(ch[-1]):
            ex, _, (lo, hi) = self.exact(ch[-1])
            m = max(abs(lo), abs(hi))
            return z3.ToReal(ex), (Q(0) if m <= 1 / u else m * u), Q(lo), Q(hi)
        if k == z3.Z3_OP_FPA_ROUND_TO_INTEGRAL:
            ex, err, lo, hi = self.real(ch[1])
            return ex, err + Q(1, 2), lo - 1, hi + 1
        if k == z3.Z3_OP_FPA_ADD:
            a, b = self.real(ch[1]), self.real(ch[2])
            lo, hi = a[2] + b[2], a[3] + b[3]
            m = max(abs(lo), abs(hi)) + a[1] + b[1]
            return a[0] + b[0], a[1] + b[1] + m * u, lo, hi
        if k in (z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_MUL):
            a, b = self.real(ch[1]), self.real(ch[2])
            if b[2] != b[3] or b[1] != 0 or b[2] == 0:
                raise lia.NotLinear("fp operand")
            c = 1 / b[2] if k == z3.Z3_OP_FPA_DIV else b[2]
            lo, hi = sorted((a[2] * c, a[3] * c))
            m = max(abs(lo), abs(hi)) + a[1] * abs(c)
            return a[0] * z3.RealVal(c), a[1] * abs(c) + m * u, lo, hi
        raise lia.NotLinear(str(e.decl()))


def residues(h_feeds, name, shape, ms):
    ph, sym = [], []
    for i, m in enumerate(ms):
        a = obj(shape)
        for j in np.ndindex(*shape):
            a[j] = z3.BitVec("S!%s_%d_%s" % (name, i, "_".join(map(str, j))), 32)
        p = tf.compat.v1.placeholder(tf.int32, list(shape))
        s = Sym("int32", a)
        h_feeds.append((p, s))
        ph.append(p)
        sym.append(a)
    return ph, sym


def solver_valid(cs, goal, timeout=120000):
    S = z3.Solver()
    S.set("timeout", timeout)
    t0 = time.time()
    S.add(*cs)
    S.add(z3.Not(goal))
    r = S.check()
    solve.STATS["time"] = solve.STATS.get("time", 0) + time.time() - t0
    solve.count(str(r), "z3-lia")
    return r, (S.model() if r == z3.sat else None)


def crt_case(name, run, spec, limit=None, native=False, tier="quick"):
    """run(tensor) on a tensor whose residues are all symbolic; spec(x) = integer (z3 Int) it
    must represent.  native: the result is a native number, else residues"""
    def fn():
        from tf_encrypted.tensor import int100factory as f

        res = Result(name)
        ms = moduli()
        M = int(np.prod(np.array(ms, dtype=object)))
        feeds = []
        g = tf.Graph()
        try:
            with g.as_default(), traced(res):
                ph, sym = residues(feeds, "x", (1,), ms)
                t = run(f.tensor(ph, encode=False))
                outs = [t] if native else list(t.backing)
        except Exception as e:  # noqa: BLE001
            res.violation("raises %s: %s" % (type(e).__name__, str(e)[:200]))
            return res

        class D:
            def items(self):
                return feeds
        it = Interp(g, _dict(feeds), Rng())
        T = CrtTrans()
        for i, m in enumerate(ms):
            e = sym[i][0]
            v = lia.Trans.atom(T, e)
            T.box[v] = [0, m - 1]
            T.cs.append(z3.And(T.vars[v] >= 0, T.vars[v] < m))
        A = z3.Int("A")
        x = z3.Int("X")
        ts = []
        link = []
        for i, m in enumerate(ms):
            r = T.vars[T.atoms[sym[i][0].get_id()]]
            q = pow(M // m, -1, m)
            t_, l = z3.Int("t%d" % i), z3.Int("l%d" % i)
            u = T.num(sym[i][0] * z3.BitVecVal(q, 32) % z3.BitVecVal(m, 32))   # the same quantity where the code computes it
            link += [t_ == u, t_ >= 0, t_ < m, q * r == t_ + m * l]
            ts.append(t_)
        B = limit or (M // 2 - (M >> EPS))
        link += [x == sum(z3.IntVal(M // m) * t_ for m, t_ in zip(ms, ts)) - M * A, x >= -B, x < B]
        # the integer named x has the given residues
        reps = []
        for i, m in enumerate(ms):
            r = T.vars[T.atoms[sym[i][0].get_id()]]
            res.obligations += 1
            ok, _ = solver_valid(T.cs + link, z3.IntVal(0) == (x - r) % m)
            if ok != z3.unsat:
                res.undecided("representation lemma for residue %d: %s" % (i, ok))
                return res
            reps.append(x == r + m * z3.Int("E%d" % i))
        y, side = spec(x)
        rng = [x >= -B, x < B]
        coefx = {str(t_): M // m for m, t_ in zip(ms, ts)}
        coefx["A"] = -M
        quots = []      # quotients of the values replaced by what they were proved equal to
        fixed = []      # (variable, what it was proved equal to)
        try:
            for i, o in enumerate(outs):
                a = it.get(o).a.reshape(-1)[0]
                if is_conc(a):
                    raise Unsupported("constant result")
                z = T.num(a)
                for v in T.rounded:
                    # the rounded quotient is the number of times the modulus was exceeded
                    res.obligations += 1
                    if solver_valid(T.cs + link, T.vars[v] == A)[0] == z3.unsat:
                        fixed.append((T.vars[v], A))
                T.rounded = []
                names = {str(T.vars[T.atom(sym[j][0] * z3.BitVecVal(pow(M // m, -1, m), 32) % z3.BitVecVal(m, 32))]): ts[j] for j, m in enumerate(ms)}
                for n_, K, lo, ex, (d, c), q, v in T.mods:
                    hint(res, T, n_, K, lo, ex, d, c, q, v, x, coefx, names, dict((str(p), w) for p, w in fixed), fixed, quots, ts, ms, M, A)
                T.mods = []
                res.obligations += 1
                goal = z == y if native else z3.And(z >= 0, z < ms[i], (y - z) % ms[i] == 0)
                cone = T.cs + reps[i:i + 1] + side + rng
                if fixed:
                    drop = set(quots)
                    cone = [c_ for c_ in cone if not (drop & variables(c_))]
                    cone = [z3.substitute(c_, *fixed) for c_ in cone]
                    goal = z3.substitute(goal, *fixed)
                cone = reach(cone + [], goal)
                ok, mod = solver_valid(cone, goal)
                if ok != z3.unsat:
                    ok, mod = solver_valid(T.cs + link + side, z == y if native else z3.And(z >= 0, z < ms[i], (y - z) % ms[i] == 0), 30000)
                if ok == z3.sat:
                    xv = mod.eval(x, model_completion=True).as_long()
                    rs = [xv % m for m in ms]
                    with tf.init_scope():
                        got = run(f.tensor([tf.constant([r], tf.int32) for r in rs], encode=False))
                        gv = [int(v.numpy().reshape(-1)[0]) for v in ([got] if native else got.backing)]
                    want = z3.simplify(z3.substitute(y, (x, z3.IntVal(xv))))
                    S = z3.Solver()
                    S.add(*[z3.substitute(c, (x, z3.IntVal(xv))) for c in side])
                    S.check()
                    want = S.model().eval(want, model_completion=True).as_long()
                    bad = gv[0] != want if native else any(v != want % m for v, m in zip(gv, ms))
                    if bad:
                        res.violation("for the value %d the result is %s, expected %d" % (xv, gv if native else "residues %s" % gv, want))
                    else:
                        res.undecided("counterexample for %d not confirmed" % xv)
                    return res
                if ok != z3.unsat:
                    res.undecided("solver unknown at component %d" % i)
                    return res
        except (lia.NotLinear, Unsupported) as e:
            res.undecided("encoding: %s" % e)
        return res
    add(P, name, fn, kind="direct", cost=6, tier=tier)


def variables(e):
    return set(solve.free_vars(e))


def reach(cs, goal):
    """the constraints that share variables with the goal, directly or not"""
    vs, todo = variables(goal), list(cs)
    out = []
    while True:
        hit = [c for c in todo if variables(c) & vs]
        if not hit:
            return out
        out += hit
        for c in hit:
            vs |= variables(c)
        ids = {id(c) for c in hit}
        todo = [c for c in todo if id(c) not in ids]


def cf(d, T, p, n):
    return signed(next(w for a, w in d.items() if T.vars[a].eq(p)), n)


def hint(res, T, n_, K, lo, ex, d, c, q, v, x, coefx, names, eqs, fixed, quots, ts, ms, M, A):
    """v = ex mod K.  If ex and x differ by a multiple of K, v is x mod K (both steps are
    solver queries)"""
    co = {}
    terms, more = [], []
    for a, w in d.items():
        w = signed(w, n_)
        if a in T.wide and (1 << T.wide[a][1]) % K == 0:
            # a sign extension is congruent to what was extended
            (dd, cc), m_ = T.wide[a]
            terms += [(b, w * signed(u, m_)) for b, u in dd.items()]
            k = z3.Int("wide%d" % a)
            more.append((T.vars[a], sum(signed(u, m_) * T.vars[b] for b, u in dd.items()) + (K * k)))
            if cc:
                return
            res.obligations += 1
            # proved, not assumed: the two differ by a multiple of K
            if solver_valid(T.cs, (T.vars[a] - sum(signed(u, m_) * T.vars[b] for b, u in dd.items())) % K == 0)[0] != z3.unsat:
                return
        else:
            terms.append((a, w))
    for a, w in terms:
        n = str(T.vars[a])
        n = str(names[n]) if n in names else (str(eqs[n]) if n in eqs else n)
        co[n] = co.get(n, 0) + w
    ints = {str(t_): t_ for t_ in ts}
    ints["A"] = A
    if set(co) - set(ints):
        return
    D = z3.IntVal(0)
    for n, t_ in ints.items():
        df = co.get(n, 0) - coefx[n]
        if df % K:
            return
        D = D + (df // K) * t_
    xs = sum(z3.IntVal(M // m) * t_ for m, t_ in zip(ms, ts)) - M * A
    W, Y = z3.Int("W%d" % K + "s" * (lo < 0)), z3.Int("Y%d" % K + "s" * (lo < 0))
    res.obligations += 2
    for p, w in more:
        k = z3.Int("wide" + str(p)[1:])
        D = D + z3.substitute(z3.simplify(cf(d, T, p, n_) * k), (k, k))
    ex = z3.substitute(ex, *more) if more else ex
    sub = [(p, w) for p, w in fixed] + [(T.vars[[k for k, u in T.vars.items() if str(u) == n][0]], t_) for n, t_ in names.items()]
    exs = z3.substitute(ex, *sub)
    if solver_valid([], exs == xs + K * D)[0] != z3.unsat:
        return
    V = T.vars[v]
    facts = [ex == K * T.vars[q] + V, V >= lo, V < lo + K, x == K * Y + W, W >= lo, W < lo + K, ex == x + K * z3.Int("D")]
    if solver_valid(facts, V == W)[0] == z3.unsat:
        fixed.append((V, W))
        T.cs += [x == K * Y + W, W >= lo, W < lo + K]
        quots.append(str(T.vars[q]))
        res.lemmas = getattr(res, "lemmas", 0) + 1


class _dict:
    def __init__(self, feeds):
        self.f = feeds

    def items(self):
        return self.f

    def __bool__(self):
        return bool(self.f)


def same(x):
    return x, []


def floordiv(k):
    def f(x):
        y, w = z3.Int("Y%d" % k), z3.Int("W%d" % k)
        return y, [x == k * y + w, w >= 0, w < k]
    return f


def mod(k):
    def f(x):
        y, w = z3.Int("Y%d" % k), z3.Int("W%d" % k)
        return w, [x == k * y + w, w >= 0, w < k]
    return f


for k in (2, 3, 1000, 1 << 16, 3 ** 8):
    crt_case("crt_mod_%d" % k, lambda t, k=k: t % k, mod(k))
for k, b in ((16, 2), (8, 3), (1, 2)):
    crt_case("crt_truncate_%d_%d" % (b, k), lambda t, k=k, b=b: t.truncate(k, b), floordiv(b ** k))
crt_case("crt_right_shift_5", lambda t: t.right_shift(5), floordiv(32))
crt_case("crt_to_native", lambda t: t.to_native(), same, limit=1 << 31, native=True)
