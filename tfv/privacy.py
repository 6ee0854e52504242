"""What a party sees must not depend on secrets it is not entitled to.

The view of a party is read off the traced graph: every tensor that an operation on its
device consumes and that was produced on another device is a message to it; it also knows
every expansion of a seed that reaches its device.  The messages are turned into symbolic
terms over the secrets and the random streams (shares are *not* abstracted).  Message by
message: either the solver proves that it does not depend on secrets given what the party
already knows, or a random value r the party has never seen is found such that the message
is a bijection of r (the solver proves the two inversion laws); the message is then itself
uniform, becomes part of what the party knows, and r is eliminated from everything else by
the inverse.  A message that is a function of the known values and of secrets, for which
the solver finds two secrets giving two different messages, is a leak; it is confirmed by
running the traced graph twice with the real kernels."""
import time

import numpy as np

from . import solve
from .boot import tf
from .boot import z3
from .harness import Result
from .harness import dict_feeds
from .harness import eager_replay
from .harness import elems_of
from .harness import traced
from .sym import Interp
from .sym import Rng
from .sym import Sym
from .sym import Unsupported
from .sym import is_conc
from .sym import lift
from .sym import norm
from .sym import obj
from .sym import to_np


NAMES = {}


def short(dev):
    """party a device belongs to"""
    if not dev:
        return "(unplaced)"
    if dev not in NAMES:
        from tensorflow.python.framework.device_spec import DeviceSpecV2

        d = DeviceSpecV2.from_string(dev)
        NAMES[dev] = "%s%s" % (d.job, "" if d.task is None else d.task)
    return NAMES[dev]


def ancestors(roots):
    seen, stack, out = set(), list(roots), []
    while stack:
        op = stack.pop()
        if op in seen:
            continue
        seen.add(op)
        out.append(op)
        for t in op.inputs:
            stack.append(t.op)
            if t.dtype == tf.resource:
                stack.extend(o for o in t.consumers() if o.type == "AssignVariableOp")
    return out


def messages(graph, roots):
    """{party: [tensor, ...]} in program order"""
    ids = {o: k for k, o in enumerate(graph.get_operations())}
    out = {}
    for op in sorted(ancestors(roots), key=lambda o: ids[o]):
        d = short(op.device)
        for t in op.inputs:
            if t.dtype == tf.resource:
                continue
            if short(t.op.device) != d and t.op.device:
                out.setdefault(d, {})[(ids[t.op], t.value_index)] = t
            elif not t.op.device and op.device:
                # computed by an unplaced operation: counts as a party of its own
                out.setdefault(d, {})[(ids[t.op], t.value_index)] = t
    return {d: [m[k] for k in sorted(m)] for d, m in out.items()}


# ---------------------------------------------------------------- inversion
GAP = 20   # statistical distance 2^-GAP


def _has(e, r):
    return r.decl().name() in solve.free_vars(e)


LAWS = {}


def inverse_step(e, i):
    """For an operation with operand number i free and the others given: a function
    (t, operands) -> operand i, or None.  The solver has proved (per operation, width and
    constant operands, for all values) that it inverts the operation from both sides."""
    ch = e.children()
    k = e.decl().kind()
    x = ch[i]
    n = len(ch)

    def fold(f, s, rest):
        for y in rest:
            s = f(s, y)
        return s

    g = None
    if k == z3.Z3_OP_BADD:
        g = lambda t, r: fold(lambda a, b: a - b, t, r)
    elif k == z3.Z3_OP_BSUB and n == 2:
        g = (lambda t, r: t + r[0]) if i == 0 else (lambda t, r: r[0] - t)
    elif k == z3.Z3_OP_BXOR:
        g = lambda t, r: fold(lambda a, b: a ^ b, t, r)
    elif k == z3.Z3_OP_BNEG:
        g = lambda t, r: -t
    elif k == z3.Z3_OP_BNOT:
        g = lambda t, r: ~t
    elif k == z3.Z3_OP_BMUL and all(z3.is_bv_value(c) for m, c in enumerate(ch) if m != i):
        p = 1
        for m, c in enumerate(ch):
            if m != i:
                p = p * c.as_long() % (1 << e.size())
        if p % 2 == 0:
            return None
        q = z3.BitVecVal(pow(p, -1, 1 << e.size()), e.size())
        g = lambda t, r: t * q
    elif k == z3.Z3_OP_NOT:
        g = lambda t, r: z3.Not(t)
    elif k == z3.Z3_OP_XOR or (k == z3.Z3_OP_DISTINCT and z3.is_bool(x) and n == 2):
        g = lambda t, r: fold(z3.Xor, t, r)
    elif k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(x):
        g = lambda t, r: z3.Not(z3.Xor(t, r[0]))
    elif k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bv(x) and x.size() == 1 and n == 2:
        one = lambda t: z3.If(t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        g = (lambda t, r: one(t) ^ r[0] ^ 1) if k == z3.Z3_OP_EQ else (lambda t, r: one(t) ^ r[0])
    elif k == z3.Z3_OP_ITE and i == 0 and all(z3.is_bv_value(c) for c in ch[1:]) and not ch[1].eq(ch[2]):
        # a truth value written as one of two constants: not onto unless the sort has two values
        if e.sort().size() != 1:
            return None
        g = lambda t, r: t == r[0]
    if g is None:
        return None
    fresh = []
    for m, c in enumerate(ch):
        fresh.append(c if m != i and z3.is_bv_value(c) else z3.Const("law%d" % m, c.sort()))
    F = e.decl()(*fresh)
    key = (F.sexpr(), i, str(x.sort()))
    if key not in LAWS:
        t = z3.Const("lawt", e.sort())
        rest = fresh[:i] + fresh[i + 1:]
        a, _ = solve.valid(z3.substitute(F, (fresh[i], g(t, rest))) == t, ())
        b, _ = solve.valid(z3.substitute(g(t, rest), (t, F)) == fresh[i], ())
        LAWS[key] = a == "unsat" and b == "unsat"
    return g if LAWS[key] else None


def invert(e, r, t, depth=0):
    """expression for r such that e == t, peeling operations one by one; None if e is not a
    chain of operations that are invertible in the operand that contains r"""
    if e.eq(r):
        return t
    if depth > 400:
        return None
    ch = e.children()
    where = [i for i, c in enumerate(ch) if _has(c, r)]
    if e.decl().kind() == z3.Z3_OP_ITE and where == [1, 2]:
        # for either value of the condition a bijection
        u, v = (invert(c, r, t, depth + 1) for c in ch[1:])
        return None if u is None or v is None else z3.If(ch[0], u, v)
    if len(where) != 1:
        return None
    i = where[0]
    g = inverse_step(e, i)
    if g is None:
        return None
    return invert(ch[i], r, g(t, ch[:i] + ch[i + 1:]), depth + 1)


class View:
    def __init__(self, party, known, msgs):
        self.party, self.known, self.msgs = party, set(known), msgs
        self.subst = []          # (r, inverse) in order
        self.full = {}           # name of r -> (r, inverse without eliminated variables)
        self.n = 0
        self.generous = False    # the party was credited with more than it sees

    def rewrite(self, e):
        ps = [self.full[n] for n in solve.free_vars(e) if n in self.full]
        if ps:
            e = z3.substitute(e, *ps)
        return solve.simp(e)

    def eliminate(self, r, g, t):
        for n, (q, x) in list(self.full.items()):
            if _has(x, r):
                self.full[n] = (q, solve.simp(z3.substitute(x, (r, g))))
        self.full[r.decl().name()] = (r, g)
        self.subst.append((r, g))
        self.known.add(t.decl().name())
        self.n += 1

    def candidates(self, e, uni):
        """unknown uniform variables, most recently drawn first"""
        fv = solve.free_vars(e)
        c = [v for n, v in fv.items() if n in uni and n not in self.known]
        return sorted(c, key=lambda v: -uni[v.decl().name()])

    def mask(self, e, uni):
        for r in self.candidates(e, uni):
            if z3.is_bv(e) and z3.is_bv(r) and r.size() > 1 and r.size() != e.size():
                continue
            t = z3.Const("V!%s_%d" % (self.party, self.n), e.sort())
            inv = invert(e, r, t)
            if inv is None or _has(inv, r):
                inv = self.semantic(e, r, t)
                if inv is None:
                    continue
                self.eliminate(r, inv, t)
                return t, r
            self.eliminate(r, inv, t)
            return t, r
        return None

    def statistical(self, e, uni, assume):
        """e = rest + r with an unseen r drawn from [0, 2^w): the distribution of e for any two
        values of rest in [0, 2^(w-GAP)) differs by at most 2^-GAP.
        -> None (no such form) | ("ok", None) | ("sat", model, r, rest) | ("unknown", None)"""
        if not z3.is_bv(e):
            return None
        n = e.size()
        for r in self.candidates(e, uni):
            if not z3.is_bv(r) or not GAP < r.size() < n:
                continue
            w = r.size()
            rest = z3.simplify(e - z3.ZeroExt(n - w, r), som=True)
            if _has(rest, r):
                continue
            hidden = self.less_known(rest)
            q, m = solve.valid(z3.ULE(hidden, z3.BitVecVal((1 << (w - GAP)) - 1, n)), assume)
            if q == "unsat":
                t = z3.Const("V!%s_%d" % (self.party, self.n), e.sort())
                self.eliminate(r, z3.Extract(w - 1, 0, t - rest), t)
                return ("ok", None)
            return (q, m, r, hidden)
        return None

    def less_known(self, e):
        """e without the additive terms the party can compute itself"""
        if e.decl().kind() != z3.Z3_OP_BADD:
            return e
        keep = []
        for c in e.children():
            fv = solve.free_vars(c)
            if not fv or not all(n in self.known for n in fv):
                keep.append(c)
        return z3.simplify(sum(keep[1:], keep[0]), som=True) if keep else z3.BitVecVal(0, e.size())

    def semantic(self, e, r, t):
        """inverse of a message that is not written as a chain of invertible operations"""
        if z3.is_bv(r) and r.size() == 1 and z3.is_bool(e):
            zero, one = z3.BitVecVal(0, 1), z3.BitVecVal(1, 1)
            e0, e1 = z3.substitute(e, (r, zero)), z3.substitute(e, (r, one))
            if solve.valid(z3.Xor(e0, e1), (), 20000)[0] == "unsat":
                return z3.If(z3.Xor(t, e0), one, zero)
            return None
        if z3.is_bool(r) and z3.is_bool(e):
            e0, e1 = z3.substitute(e, (r, z3.BoolVal(False))), z3.substitute(e, (r, z3.BoolVal(True)))
            if solve.valid(z3.Xor(e0, e1), (), 20000)[0] == "unsat":
                return z3.Xor(t, e0)
            return None
        if z3.is_bv(r) and z3.is_bv(e) and r.size() == e.size():
            e0 = z3.substitute(e, (r, z3.BitVecVal(0, r.size())))
            # a few random points first: most terms are no bijection of r at all
            fv = solve.free_vars(e)
            pt = [(v, solve.rand_val(v)) for n, v in fv.items() if not v.eq(r)]
            rv = solve.rand_val(r)
            a = z3.simplify(z3.substitute(e, *pt, (r, rv)))
            b = z3.simplify(z3.substitute(e0, *pt))
            for fw, bw in ((lambda x, y: x + y, t - e0), (lambda x, y: x ^ y, t ^ e0), (lambda x, y: x - y, e0 - t)):
                if z3.simplify(fw(b, rv)).eq(a) and solve.valid(e == fw(e0, r), (), 20000)[0] == "unsat":
                    return bw
        return None


def prime(e, names):
    """copy of e with the named variables renamed"""
    fv = solve.free_vars(e)
    return z3.substitute(e, *[(v, z3.Const(n + "'", v.sort())) for n, v in fv.items() if n in names]) if names else e


def adders(h):
    """Record the boolean adders of the traced protocol.  That the three shares of such an
    adder's result recombine to the sum of its operands is property P05; the analysis uses it
    to see a share as the sum masked by the two other shares."""
    h.adders = []
    orig = getattr(h.prot, "ppa", None)
    if orig is None:
        return

    def ppa(x, y, *a, **k):
        z = orig(x, y, *a, **k)
        if not a and not k:
            h.adders.append((x, y, z))
        return z

    h.prot.ppa = ppa


def use_adders(h, it):
    hints = {}
    for x, y, z in getattr(h, "adders", ()):
        v = []
        for t in (x, y):
            u = t.unwrapped
            v.append([norm(it.get(q.value)).a for q in (u[0][0], u[1][0], u[2][0])])
        u = z.unwrapped
        c = [norm(it.get(q.value)).a for q in (u[0][0], u[1][0], u[2][0])]
        new = [obj(c[0].shape) for _ in range(3)]
        over = obj(c[0].shape)
        for i in np.ndindex(*c[0].shape):
            q = []
            for w in v:
                w = [np.broadcast_to(m, c[0].shape)[i] for m in w]
                n = c[0][i].size()
                e = z3.BitVecVal(0, n)
                for m in w:
                    e = e ^ (z3.BitVecVal(m, n) if is_conc(m) else m)
                q.append(solve.simp(e))
            s = q[0] + q[1]
            own = s ^ c[0][i] ^ c[1][i]
            over[i] = own
            new[0][i] = [(s, c[1][i], c[2][i]), (s, c[1][i], own)]
            new[1][i] = [(s, c[0][i], c[2][i]), (s, c[0][i], own)]
            new[2][i] = [(s, c[0][i], c[1][i])]
        for j, (m, n) in enumerate((((0, 0), (2, 1)), ((1, 0), (0, 1)), ((2, 0), (1, 1)))):
            for k, l in (m, n):
                t = u[k][l].value
                hints[t.ref()] = new[j]
                if j == 2:
                    it.set(t, Sym(norm(it.get(t)).dt, over))
    return hints


def streams(res, rng):
    """no seed is expanded into two different kinds of values"""
    by = {}
    for ev in rng.events:
        if isinstance(ev["seed"], Sym):
            by.setdefault(tuple(str(e) for e in ev["seed"].a.flat), []).append(ev)
    for k, evs in by.items():
        res.obligations += 1
        kinds = {}
        for ev in evs:
            kinds.setdefault(ev["sid"], ev["op"].name)
        if len(kinds) > 1:
            res.violation("one seed (%s) is expanded into differently typed random values by %s" % (
                ", ".join(k)[:80], " and ".join(sorted(kinds.values()))))


def analyse(h, res, roots, public=(), outputs=None, parties=None, limit=240):
    """public: names of inputs every party knows; outputs: {party: [z3 terms it may learn]}"""
    t0 = time.time()
    it = Interp(h.graph, dict_feeds(h), Rng())
    ms = messages(h.graph, roots)
    anc = set(ancestors(roots))
    for op in sorted(anc, key=lambda o: o.name):
        if op.type in ("AssignVariableOp",):
            it.get(op.inputs[1])
    hints = use_adders(h, it)
    feeds = {}
    for t, s in h.feeds:
        if t.op in anc:
            feeds.setdefault(short(t.op.device), []).append(t)
    for t in roots:
        for o in t.outputs:
            it.get(o)
    rng = it.rng
    streams(res, rng)
    bounded = set()
    for a in rng.assume:
        bounded |= set(solve.free_vars(a))
    uni = {n: k for k, n in enumerate(rng.vars) if n not in bounded}
    pub = set()
    for _, s in h.feeds:
        for e in s.a.flat:
            if not is_conc(e):
                pub |= {n for n in solve.free_vars(e) if any(n == "S!" + p or n.startswith("S!" + p + "_") for p in public)}
    # input shares are themselves random
    for n in h.maskvars:
        uni.setdefault(n, -1)
    allp = sorted(set(ms) | set(feeds))
    for party in allp:
        if parties is not None and party not in parties:
            continue
        inputs = feeds.get(party, [])
        msgs = inputs + ms.get(party, [])
        # seeds this party gets hold of
        seeds = set()
        vals = {}
        for t in msgs:
            if t.dtype == tf.resource:
                continue
            v = norm(it.get(t))
            if isinstance(v, Sym):
                vals[t.ref()] = v
                for e in v.a.flat:
                    if not is_conc(e):
                        seeds |= {n for n in solve.free_vars(e) if n.startswith("seed")}
        for op in anc:
            if op.type == "SecureSeed" and short(op.device) == party:
                seeds |= {str(x) for x in rng.seedvars[op.name][1].a.flat} if op.name in rng.seedvars else set()
        known = set(pub)
        for ev in rng.events:
            sv = set()
            if isinstance(ev["seed"], Sym):
                for e in ev["seed"].a.flat:
                    if not is_conc(e):
                        sv |= {n for n in solve.free_vars(e)}
            mine = short(ev["op"].device) == party
            if mine or (sv and sv <= seeds):
                known |= {n for n, (sid, _, _) in rng.vars.items() if sid == ev["sid"]}
        view = View(party, known, msgs)
        outs = (outputs or {}).get(party, (outputs or {}).get("*", []))
        for t in msgs:
            if t.ref() not in vals:
                continue
            v = vals[t.ref()]
            for i in np.ndindex(*v.a.shape):
                e = v.a[i]
                if is_conc(e):
                    continue
                fv = solve.free_vars(e)
                if any(n.startswith("seed") for n in fv):
                    continue
                res.obligations += 1
                hint = hints[t.ref()][i] if t.ref() in hints else None
                r = element(h, it, view, e, uni, outs, t, i, res, roots, hint)
                if r is not None:
                    return
                if time.time() - t0 > limit:
                    res.undecided("time limit at %s" % party)
                    return


def element(h, it, view, e, uni, outs, t, i, res, roots, hint=None):
    e = view.rewrite(e)
    fv = solve.free_vars(e)
    where = "message %s%s to %s" % (t.name, list(i), view.party)
    sec = [n for n in fv if n.startswith("S!") and n not in view.known]
    unk = [n for n in fv if n not in view.known and n not in sec]
    if not sec and not unk:
        return None
    m = view.mask(e, uni)
    for alt in hint or () if m is None else ():
        a, b, c = (view.rewrite(x) for x in alt)
        m = view.mask(a ^ b ^ c, uni)
        if m is not None:
            break
    if m is not None:
        return None
    st = view.statistical(e, uni, list(h.assume)) if sec else None
    if st is not None:
        if st[0] == "ok":
            res.stat = getattr(res, "stat", 0) + 1
            return None
        if st[0] == "sat":
            ok, why = confirm_value(h, it, view, st[1], t, i, e)
            if ok:
                res.violation("%s: the random value %s is too short to hide the secrets it is added to: %s" % (where, st[2], why))
            else:
                res.undecided("%s: short mask not confirmed: %s" % (where, why))
            return 1
        res.undecided("solver unknown: " + where)
        return 1
    if not sec:
        # depends on unseen randomness only: hand that randomness to the party
        view.known |= set(unk)
        view.generous = True
        return None
    # does it depend on the secrets at all, the randomness being equal?
    e2 = prime(e, set(sec))
    same = []
    for o in outs:
        same.append(o == prime(o, {n for n in solve.free_vars(o) if n.startswith("S!") and n not in view.known}))
    asm = [a for a in list(h.assume) + [prime(a, {n for n in solve.free_vars(a) if n not in view.known}) for a in h.assume]]
    q, model = solve.valid(e == e2, asm + same)
    if q == "unsat":
        view.known |= set(unk)
        view.generous = view.generous or bool(unk)
        return None
    if q == "unknown":
        res.undecided("solver unknown: " + where)
        return 1
    dep = set()
    if unk:
        q2, _ = solve.valid(e == prime(e, set(unk)), [a for a in h.assume])
        dep = set(unk) if q2 != "unsat" else set()
    if dep:
        res.undecided("%s: not recognised as masked (unseen randomness %s)" % (where, sorted(dep)[:4]))
        return None
    if view.generous:
        res.undecided("%s: depends on secrets, but only for a party that knows more randomness than this one was shown to" % where)
        return None
    ok, why = confirm(h, it, view, model, t, i, sec, roots)
    if ok:
        res.violation("%s is determined by secrets and by what that party already knows: %s" % (where, why))
    else:
        res.undecided("%s: candidate leak not confirmed: %s" % (where, why))
    return 1


def confirm(h, it, view, model, t, i, sec, roots):
    """two runs of the traced graph: same randomness as far as the party knows it, two
    secrets; all earlier messages are equal and this one differs"""
    worlds = []
    names = {}
    for _, s in list(h.feeds) + list(it.rng.feeds):
        for e in s.a.flat:
            if not is_conc(e):
                names.update(solve.free_vars(e))
    for suffix in ("", "'"):
        val = {}
        for n, v in names.items():
            if n in sec:
                x = model.eval(z3.Const(n + suffix, v.sort()), model_completion=True)
            else:
                x = model.eval(v, model_completion=True)
            val[n] = (v, x)
        follow(view, val, model)
        worlds.append(val)
    outs = []
    for val in worlds:
        sub = list(val.values())
        fd = {}
        for ph, s in list(h.feeds) + list(it.rng.feeds):
            if ph.graph is not h.graph:
                return False, "randomness inside a function"
            a = obj(s.a.shape)
            for k in np.ndindex(*s.a.shape):
                x = s.a[k]
                if not is_conc(x):
                    x = z3.simplify(z3.substitute(x, *sub))
                    if not (z3.is_bv_value(x) or z3.is_true(x) or z3.is_false(x)):
                        return False, "incomplete assignment"
                    x = z3.is_true(x) if z3.is_bool(x) else x.as_long()
                a[k] = x
            fd[ph.name] = to_np(Sym(s.dt, a))
        outs.append(run(h, view.msgs, fd))
    k = [x.name for x in view.msgs].index(t.name)
    for j in range(k):
        if not np.array_equal(outs[0][j], outs[1][j]):
            return False, "earlier message %s differs" % view.msgs[j].name
    a, b = lift(outs[0][k]).a[i], lift(outs[1][k]).a[i]
    if a == b:
        return False, "the two runs agree"
    sh = lambda w: {n[2:]: str(v[1]) for n, v in worlds[w].items() if n in sec}
    return True, "with secrets %s it is %s, with %s it is %s, everything seen before being equal" % (sh(0), a, sh(1), b)


def confirm_value(h, it, view, model, t, i, e):
    """the message really takes the value the model says"""
    names = {}
    for _, s in list(h.feeds) + list(it.rng.feeds):
        for x in s.a.flat:
            if not is_conc(x):
                names.update(solve.free_vars(x))
    val = {n: (v, model.eval(v, model_completion=True)) for n, v in names.items()}
    follow(view, val, model)
    sub = list(val.values())
    fd = {}
    for ph, s in list(h.feeds) + list(it.rng.feeds):
        if ph.graph is not h.graph:
            return False, "randomness inside a function"
        a = obj(s.a.shape)
        for k in np.ndindex(*s.a.shape):
            x = s.a[k]
            if not is_conc(x):
                x = z3.simplify(z3.substitute(x, *sub))
                x = z3.is_true(x) if z3.is_bool(x) else x.as_long()
            a[k] = x
        fd[ph.name] = to_np(Sym(s.dt, a))
    got = lift(run(h, [t], fd)[0]).a[i]
    exp = solve.mval(model, e)
    if got != exp:
        return False, "the kernels give %s, the encoding %s" % (got, exp)
    vs = {n: str(solve.mval(model, v)) for n, v in solve.free_vars(e).items()}
    return True, "%s for %s" % (got, vs)


def follow(view, val, model):
    """eliminated variables follow from the messages, last eliminated first"""
    for r, g in reversed(view.subst):
        sub = []
        for n, v in solve.free_vars(g).items():
            sub.append((v, val[n][1] if n in val else model.eval(v, model_completion=True)))
        val[r.decl().name()] = (r, z3.simplify(z3.substitute(g, *sub)))


def run(h, tensors, fd):
    g2 = tf.Graph()
    gd = h.graph.as_graph_def()
    for n in gd.node:
        n.device = ""
    for f in gd.library.function:
        for n in f.node_def:
            n.device = ""
    with g2.as_default():
        tf.import_graph_def(gd, name="")
        with tf.compat.v1.Session(graph=g2) as sess:
            keep = [t.name for t in tensors]
            init = [o for o in g2.get_operations() if o.type == "AssignVariableOp"]
            if init:
                sess.run(init, feed_dict=fd)
            return sess.run([g2.get_tensor_by_name(n) for n in keep], feed_dict=fd)


def run_case(name, mk, build, limit=240):
    """build(h) -> dict(roots=[...], public=..., outputs=...)"""
    res = Result(name)
    t0 = time.time()
    solve.reset()
    h = mk("sym", None, 0)
    h.copies = False
    try:
        with h.scope(), traced(res):
            adders(h)
            spec = build(h)
    except Unsupported as e:
        res.undecided("encoding: %s" % e)
        return res
    except Exception as e:  # noqa: BLE001
        ok, why = eager_replay(mk, lambda hh: build(hh) and None, None)
        if ok:
            res.violation(why)
        else:
            res.undecided("tracing raises %s: %s" % (type(e).__name__, str(e)[:200]))
        return res
    try:
        analyse(h, res, spec["roots"], spec.get("public", ()), spec.get("outputs"), spec.get("parties"), limit)
    except Unsupported as e:
        res.undecided("encoding: %s" % e)
    res.wall = time.time() - t0
    res.solver = dict(solve.STATS)
    res.queries = solve.STATS["queries"]
    return res
