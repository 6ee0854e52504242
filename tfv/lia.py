"""Decides integer statements about ring elements: bit-vector terms that are linear over
Z/2^n (with floor-mod by constants) are translated exactly to linear integer arithmetic."""
import time

from . import solve
from .boot import z3
from .sym import is_conc
from .sym import signed


class IntPred:
    """pred over signed integers: f(actual, spec) -> bool / z3.BoolRef"""
    ints = True

    def __init__(self, f, n=64):
        self.f, self.n = f, n

    def __call__(self, a, s):
        """concrete evaluation, for replays"""
        v = lambda x: x.as_long() if isinstance(x, z3.ExprRef) else x
        r = self.f(signed(v(a), self.n), signed(v(s), self.n))
        return z3.is_true(z3.simplify(r)) if isinstance(r, z3.ExprRef) else bool(r)


class NotLinear(Exception):
    pass


class Trans:
    """Terms become linear forms over integer base variables with known intervals; a form is
    kept modulo 2^n.  Floor-mods and bounded sums are solved for one of their variables."""

    def __init__(self):
        self.cs, self.atoms, self.memo, self.keep, self.k = [], {}, {}, [], 0
        self.box = {}    # base variable (by id) -> [lo, hi]
        self.sub = {}    # base variable -> form it is congruent to
        self.vars = {}   # id -> z3 Int
        self.prim = set()

    def fresh(self, p, lo, hi, prim=False):
        self.k += 1
        v = z3.Int("%s%d" % (p, self.k))
        self.vars[self.k] = v
        self.box[self.k] = [lo, hi]
        if prim:
            self.prim.add(self.k)
        self.cs.append(z3.And(v >= lo, v <= hi))
        return self.k

    def resolve(self, f, n):
        d, c = f
        M = 1 << n
        while True:
            hit = next((a for a in d if a in self.sub), None)
            if hit is None:
                return {a: v % M for a, v in d.items() if v % M}, c % M
            d = dict(d)
            v = d.pop(hit)
            sd, sc = self.sub[hit]
            for a, w in sd.items():
                d[a] = d.get(a, 0) + v * w
            c = c + v * sc

    # linear combinations: (dict base variable -> coefficient), constant
    def lin(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        n = e.size()
        M = 1 << n
        k = e.decl().kind()
        ch = e.children()
        if z3.is_bv_value(e):
            r = {}, e.as_long()
        elif k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG):
            acc, c = {}, 0
            for j, x in enumerate(ch):
                sg = -1 if k == z3.Z3_OP_BNEG or (k == z3.Z3_OP_BSUB and j) else 1
                d, y = self.lin(x)
                c += sg * y
                for a, v in d.items():
                    acc[a] = (acc.get(a, 0) + sg * v) % M
            r = {a: v for a, v in acc.items() if v}, c % M
        elif k == z3.Z3_OP_BMUL:
            const, rest = 1, []
            for x in ch:
                d, y = self.lin(x)
                if not d:
                    const = const * y % M
                else:
                    rest.append((x, d, y))
            if not rest:
                r = {}, const
            elif len(rest) == 1:
                _, d, y = rest[0]
                r = {a: v * const % M for a, v in d.items() if v * const % M}, y * const % M
            else:
                core = rest[0][0]
                for x, _, _ in rest[1:]:
                    core = core * x
                core = z3.simplify(core, som=True)
                if core.decl().kind() == z3.Z3_OP_BMUL and all(z3.is_const(x) and not z3.is_bv_value(x) for x in core.children()):
                    r = {self.atom(core): const % M}, 0
                else:
                    r = self.lin(core)
                    r = {a: v * const % M for a, v in r[0].items()}, r[1] * const % M
        else:
            r = {self.atom(e): 1}, 0
        self.memo[i] = r
        self.keep.append(e)
        return r

    def atom(self, e):
        i = e.get_id()
        if i in self.atoms:
            return self.atoms[i]
        n = e.size()
        k = e.decl().kind()
        K = arg = None
        if k in (z3.Z3_OP_BSMOD, z3.Z3_OP_BSMOD_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_signed_long() > 0:
            K, arg = e.arg(1).as_long(), e.arg(0)
        elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.num_args() == 2 and e.arg(1).decl().kind() == z3.Z3_OP_EXTRACT and e.arg(0).as_long() == 0 and e.arg(1).params()[1] == 0 and e.arg(1).arg(0).size() == n:
            K, arg = 1 << e.arg(1).size(), e.arg(1).arg(0)   # the low bits of a term
        if K is None:
            # a variable, a product of variables, or any other term: some value (sound for
            # "holds"; a model is checked by the caller)
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
            if k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0:
                lo, hi = 0, (1 << e.arg(1).size()) - 1
            v = self.fresh("v", lo, hi, True)
            self.bits = getattr(self, "bits", [])
            self.bits.append((e, v))
        else:
            ex, (d, c), (lo, hi) = self.exact(arg)
            v = self.fresh("u", 0, K - 1)
            q = self.fresh("q", lo // K, hi // K)
            self.cs.append(ex == K * self.vars[q] + self.vars[v])
            piv = [a for a, w in d.items() if a in self.prim and w in (1, (1 << n) - 1)]
            piv = piv or [a for a, w in d.items() if a != v and w in (1, (1 << n) - 1)]
            if piv:
                a = piv[0]
                sg = 1 if d[a] == 1 else -1
                f = {q: sg * K, v: sg}
                for b, w in d.items():
                    if b != a:
                        f[b] = f.get(b, 0) - sg * w
                self.define(a, (f, -sg * c), n)
        self.atoms[i] = v
        self.keep.append(e)
        return v

    def define(self, a, f, n):
        """base variable a is congruent to the form f"""
        self.sub[a] = self.resolve(f, n)
        ex, _, _ = self.form(self.sub[a], n)
        self.cs.append(self.vars[a] == ex)

    def form(self, f, n):
        """signed value of a form: (Int expression, form, interval)"""
        d, c = f = self.resolve(f, n)
        M = 1 << n
        key = ("form", tuple(sorted(d.items())), c, n)
        if key in self.memo:
            return self.memo[key]
        lo = hi = signed(c, n)
        for a, w in d.items():
            w = signed(w, n)
            x, y = self.box[a]
            lo += min(w * x, w * y)
            hi += max(w * x, w * y)
        tot = z3.Sum([z3.IntVal(signed(v, n)) * self.vars[a] for a, v in d.items()] + [z3.IntVal(signed(c, n))])
        if not (-(M >> 1) <= lo and hi < M >> 1):
            s = self.fresh("s", -(M >> 1), (M >> 1) - 1)
            k = self.fresh("k", lo // M - 1, hi // M + 1)
            self.cs.append(self.vars[s] == tot - M * self.vars[k])
            tot, (lo, hi) = self.vars[s], self.box[s]
        self.memo[key] = tot, f, (lo, hi)
        return self.memo[key]

    def exact(self, e):
        return self.form(self.lin(e), e.size())

    def num(self, e):
        """signed integer value of a bit-vector term"""
        if not isinstance(e, z3.ExprRef):
            return z3.IntVal(signed(e, 64))
        return self.exact(e)[0]

    def bounds(self, e, lo, hi):
        """an assumption lo <= e <= hi (signed)"""
        n = e.size()
        d, c = self.resolve(self.lin(e), n)
        c = signed(c, n)
        if len(d) == 1 and list(d.values()) == [1] and -(1 << (n - 1)) <= lo - c and hi - c < 1 << (n - 1):
            a = list(d)[0]
            b = self.box[a]
            self.box[a] = [max(b[0], lo - c), min(b[1], hi - c)]
        elif not d:
            return
        elif any(v == 1 and a in self.prim for a, v in d.items()):
            a = next(a for a, v in d.items() if v == 1 and a in self.prim)
            t = self.fresh("t", lo, hi, True)
            f = {t: 1}
            for b, w in d.items():
                if b != a:
                    f[b] = -w
            self.define(a, (f, -c), n)

    def interval(self, c, neg=False):
        """(term, lo, hi) of a comparison with a constant"""
        k = c.decl().kind()
        ch = c.children()
        if k == z3.Z3_OP_NOT:
            return self.interval(ch[0], not neg)
        if len(ch) != 2 or not z3.is_bv(ch[0]):
            return None
        U = (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT)
        Sg = (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT)
        if k not in U and k not in Sg:
            return None
        o = (U if k in U else Sg).index(k)   # 0 <=, 1 <, 2 >=, 3 >
        if neg:
            o = 3 - o
        a, b = ch
        if z3.is_bv_value(a) and not z3.is_bv_value(b):
            a, b = b, a
            o = {0: 2, 1: 3, 2: 0, 3: 1}[o]
        if not z3.is_bv_value(b) or z3.is_bv_value(a):
            return None
        n = a.size()
        v = b.as_long() if k in U else b.as_signed_long()
        top = (1 << (n - 1)) - 1
        if k in U:
            return (a, 0, v - (o == 1)) if o < 2 and v <= top else None
        return (a, -top - 1, v - (o == 1)) if o < 2 else (a, v + (o == 3), top)

    def assume(self, cs):
        """intervals first, then the constraints themselves"""
        todo, box = list(cs), {}
        while todo:
            c = todo.pop()
            if c.decl().kind() == z3.Z3_OP_AND:
                todo += c.children()
                continue
            t = self.interval(c)
            if t is not None:
                b = box.setdefault(t[0].get_id(), [t[0], t[1], t[2]])
                b[1], b[2] = max(b[1], t[1]), min(b[2], t[2])
        for e, lo, hi in box.values():
            if lo <= hi:
                self.bounds(e, lo, hi)
        return [self.boolean(c) for c in cs]

    def boolean(self, e):
        k = e.decl().kind()
        ch = e.children()
        if z3.is_true(e) or z3.is_false(e):
            return e
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            f = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not}[k]
            return f(*[self.boolean(x) for x in ch])
        if ch and z3.is_bv(ch[0]):
            a, b = self.num(ch[0]), self.num(ch[1])
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                return a == b if k == z3.Z3_OP_EQ else a != b
            if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                M = 1 << ch[0].size()
                a, b = z3.If(a < 0, a + M, a), z3.If(b < 0, b + M, b)
            if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_ULEQ):
                return a <= b
            if k in (z3.Z3_OP_SLT, z3.Z3_OP_ULT):
                return a < b
            if k in (z3.Z3_OP_SGEQ, z3.Z3_OP_UGEQ):
                return a >= b
            if k in (z3.Z3_OP_SGT, z3.Z3_OP_UGT):
                return a > b
        raise NotLinear(str(e.decl()))


def valid(pred, a, s, assume, timeout=None):
    """-> ('unsat', None) if pred(a, s) holds whenever the assumptions do; ('sat', model over the
    bit-vector variables); ('unknown', None)"""
    t = Trans()
    try:
        sm = lambda e: z3.simplify(e, som=True) if isinstance(e, z3.ExprRef) else e
        a, s = sm(a), sm(s)
        names = set()
        for e in (a, s):
            if isinstance(e, z3.ExprRef):
                names |= set(solve.free_vars(e))
        cs = t.assume([c for c in assume if isinstance(c, z3.ExprRef) and set(solve.free_vars(c)) & names])
        x, y = t.num(a), t.num(s)
        x, y = t.num(a), t.num(s)   # after the substitutions the terms of both gave rise to
        goal = pred.f(x, y)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
    except NotLinear:
        return "unknown", None
    S = z3.Solver()
    S.set("timeout", int(timeout or 120000))
    t0 = time.time()
    for c in t.cs + cs:
        S.add(c)
    S.add(z3.Not(goal))

    r = S.check()
    solve.STATS["time"] = solve.STATS.get("time", 0) + time.time() - t0
    if r == z3.unsat:
        solve.count("unsat", "z3-lia")
        return "unsat", None
    if r != z3.sat:
        solve.count("unknown", "z3-lia")
        return "unknown", None
    solve.count("sat", "z3-lia")
    m = S.model()
    # back to a model over the bit-vector variables
    B = z3.Solver()
    B.set("timeout", 60000)
    for e, v in getattr(t, "bits", []):
        B.add(e == z3.BitVecVal(m.eval(t.vars[v], model_completion=True).as_long() % (1 << e.size()), e.size()))
    if B.check() != z3.sat:
        return "unknown", None
    return "sat", B.model()
