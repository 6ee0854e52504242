"""Solver front end: statistics, equality strategies, model extraction."""
import ctypes
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

from .boot import z3

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "rewrite": 0, "time": 0.0,
         "by": {}}
TIMEOUT = int(os.environ.get("TFV_TIMEOUT_MS", "120000"))


def reset():
    STATS.update(queries=0, unsat=0, sat=0, unknown=0, rewrite=0, time=0.0)
    STATS["by"] = {}




def _rawlib():
    """the already loaded libz3, with the few accessors scan() needs and no Python wrappers"""

    with open("/proc/self/maps") as f:
        path = next(ln.split()[-1] for ln in f if "/libz3" in ln)
    lib = ctypes.CDLL(path)
    vp, u = ctypes.c_void_p, ctypes.c_uint
    for f, res, args in (
        ("Z3_get_ast_id", u, [vp, vp]), ("Z3_get_app_num_args", u, [vp, vp]), ("Z3_get_app_arg", vp, [vp, vp, u]),
        ("Z3_get_app_decl", vp, [vp, vp]), ("Z3_get_decl_kind", u, [vp, vp]), ("Z3_get_ast_kind", u, [vp, vp]),
        ("Z3_get_sort", vp, [vp, vp]), ("Z3_get_sort_kind", u, [vp, vp]),
    ):
        fn = getattr(lib, f)
        fn.restype, fn.argtypes = res, args
    return lib


_L = _rawlib()
_CTX = z3.main_ctx().ref().value


def _ast(p):
    a = z3.Ast.__new__(z3.Ast)
    ctypes.c_void_p.__init__(a, p)
    return a


def scan(es):
    """One walk over the shared graph of the expressions.
    -> (names -> constant in order of first occurrence, {'fp','arith','mul'} seen)"""
    names, flags = {}, set()
    seen = set()
    stack = [e.as_ast().value for e in reversed(es)]
    aid, nargs, arg = _L.Z3_get_ast_id, _L.Z3_get_app_num_args, _L.Z3_get_app_arg
    decl, dkind, akind = _L.Z3_get_app_decl, _L.Z3_get_decl_kind, _L.Z3_get_ast_kind
    while stack:
        x = stack.pop()
        i = aid(_CTX, x)
        if i in seen:
            continue
        seen.add(i)
        ak = akind(_CTX, x)
        if ak != z3.Z3_APP_AST:
            if ak == z3.Z3_NUMERAL_AST:
                sk = _L.Z3_get_sort_kind(_CTX, _L.Z3_get_sort(_CTX, x))
                if sk in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
                    flags.add("arith")
                elif sk == z3.Z3_FLOATING_POINT_SORT:
                    flags.add("fp")
            continue
        k = dkind(_CTX, decl(_CTX, x))
        n = nargs(_CTX, x)
        if n == 0:
            if k == z3.Z3_OP_UNINTERPRETED:
                e = sys.modules[z3.Solver.__module__]._to_expr_ref(_ast(x), z3.main_ctx())
                names[e.decl().name()] = e
                if isinstance(e, z3.FPRef):
                    flags.add("fp")
                elif isinstance(e, z3.ArithRef):
                    flags.add("arith")
            elif k >= z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN and k != z3.Z3_OP_UNINTERPRETED and k < z3.Z3_OP_INTERNAL:
                flags.add("fp")
            continue
        if k == z3.Z3_OP_BMUL:
            flags.add("mul")
        elif z3.Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN <= k <= z3.Z3_OP_FPA_TO_IEEE_BV:
            flags.add("fp")
        elif z3.Z3_OP_ANUM <= k <= z3.Z3_OP_POWER or k in (z3.Z3_OP_BV2INT, z3.Z3_OP_INT2BV):
            flags.add("arith")
        for j in range(n - 1, -1, -1):
            stack.append(arg(_CTX, x, j))
    return names, flags


def free_vars(e, acc=None):
    """names -> decl expr of uninterpreted constants in e"""
    names, _ = scan([e])
    if acc is None:
        return names
    acc.update(names)
    return acc


def count(res, by="z3"):
    STATS["queries"] += 1
    STATS[res] = STATS.get(res, 0) + 1
    STATS["by"][by] = STATS["by"].get(by, 0) + 1


FIRST = int(os.environ.get("TFV_FIRST_MS", "4000"))


def abstract_muls(cs):
    """Generalise: every product of two non-constant terms becomes a fresh variable (equal
    products share it).  Unsatisfiable afterwards implies unsatisfiable before."""
    subs, todo = {}, list(cs)
    for x in _walk(cs):
        if x.decl().kind() == z3.Z3_OP_BMUL:
            nv = [c for c in x.children() if not z3.is_bv_value(c)]
            if len(nv) >= 2:
                subs[x.get_id()] = x
    if not subs:
        return None
    # outermost products first would hide inner ones; substitute maximal terms only
    items = sorted(subs.values(), key=lambda e: e.get_id())
    pairs = [(e, z3.FreshConst(e.sort(), "mul")) for e in items]
    return [z3.substitute(c, *pairs) for c in cs]


def check(constraints, timeout=None, kissat=True):
    """-> ('unsat'|'sat'|'unknown', model or None)"""
    cs = [c for c in constraints if not isinstance(c, bool)]
    fl = scan(cs)[1] if cs else ()
    if all(c is not False for c in constraints) and cs and "mul" in fl and "fp" not in fl:
        ab = abstract_muls(cs)
        if ab is not None:
            r, _ = _check(ab, 15000)
            if r == "unsat":
                return r, None
    return _check(constraints, timeout, kissat)


def _check(constraints, timeout=None, kissat=True):
    """-> ('unsat'|'sat'|'unknown', model or None)"""
    timeout = timeout or TIMEOUT
    t0 = time.time()
    cs = [c for c in constraints if not (isinstance(c, bool) and c)]
    if any(isinstance(c, bool) and not c for c in cs):
        count("unsat", "trivial")
        return "unsat", None
    fl = scan(cs)[1]
    fpq, ar = "fp" in fl, "arith" in fl
    s = z3.Then("simplify", "fpa2bv", "simplify", "max-bv-sharing", "bit-blast", "aig", "sat").solver() if fpq and not ar else (z3.SolverFor("QF_BV") if not ar else z3.Solver())
    s.set("timeout", min(timeout, FIRST * 4 if fpq else FIRST))
    s.add(*cs)
    r = str(s.check())
    by, model = "z3", None
    if r == "sat":
        model = s.model()
    elif r == "unknown" and timeout > FIRST:
        r, model, by = race(cs, s, (timeout - FIRST) / 1000.0, bits=not fpq and not ar)
    STATS["time"] += time.time() - t0
    count(r, by)
    return r, model


def _walk(cs):
    seen = set()
    stack = [c for c in cs if isinstance(c, z3.ExprRef)]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield x
        stack.extend(x.children())


class DictModel:
    """Model from an external back end: name -> int/bool."""

    def __init__(self, d, decls):
        self.d = d
        self.decls_ = decls

    def subst(self):
        out = []
        for n, v in self.decls_.items():
            if z3.is_bv(v):
                out.append((v, z3.BitVecVal(self.d.get(n, 0), v.size())))
            elif z3.is_bool(v):
                out.append((v, z3.BoolVal(bool(self.d.get(n, 0)))))
        return out

    def eval(self, e, model_completion=True):
        return z3.simplify(z3.substitute(e, *self.subst()))


def to_cnf(cs):
    """bit-blast with z3 tactics -> (dimacs, bit names, decls)"""
    g = z3.Goal()
    decls = {}
    for c in cs:
        free_vars(c, decls)
        g.add(c)
    bits = {}
    for n, v in decls.items():
        if z3.is_bv(v):
            for i in range(v.size()):
                b = z3.Bool("__bit!%s!%d" % (n, i))
                bits[(n, i)] = b
                g.add(b == (z3.Extract(i, i, v) == 1))
        elif z3.is_bool(v):
            b = z3.Bool("__bit!%s!b" % n)
            bits[(n, "b")] = b
            g.add(b == v)
    t = z3.Then(z3.With("simplify", elim_and=True), "bit-blast", "simplify", "tseitin-cnf")
    r = t(g)
    if len(r) != 1:
        return None
    return r[0].dimacs(include_names=True), bits, decls


def cnf_model(cs, cnf, out):
    dim, bits, decls = cnf
    names = {}
    for ln in dim.splitlines():
        if ln.startswith("c "):
            q = ln.split(" ", 2)
            if len(q) == 3 and q[1].isdigit():
                names[q[2].strip().strip("|")] = int(q[1])
    lits = set()
    for ln in out.splitlines():
        if ln.startswith("v "):
            lits.update(int(x) for x in ln[2:].split())
    d = {}
    for (n, i), b in bits.items():
        k = names.get(b.decl().name())
        on = k is not None and k in lits
        if i == "b":
            d[n] = on
        elif on:
            d[n] = d.get(n, 0) | (1 << i)
    m = DictModel(d, decls)
    for c in cs:
        if not z3.is_true(m.eval(c)):
            return None
    return m


def race(cs, solver, secs, bits=True):
    """kissat on the CNF, cvc5 and a second z3 (new process) side by side."""
    tmp = tempfile.mkdtemp(prefix="tfvq")
    procs, run = {}, {}
    cnf = None
    try:
        smt = os.path.join(tmp, "q.smt2")
        with open(smt, "w") as f:
            f.write("(set-logic ALL)\n" + solver.to_smt2())
        procs["cvc5"] = ["cvc5", "--tlimit=%d" % int(secs * 1000), smt]
        procs["z3-new"] = ["z3-new", "-T:%d" % max(1, int(secs)), smt]
        if bits:
            try:
                cnf = to_cnf(cs)
            except z3.Z3Exception:
                cnf = None
            if cnf:
                path = os.path.join(tmp, "q.cnf")
                with open(path, "w") as f:
                    f.write(cnf[0])
                procs["kissat"] = ["kissat", "-q", "--time=%d" % max(1, int(secs)), path]
        for k, cmd in procs.items():
            run[k] = (subprocess.Popen(cmd, stdout=open(os.path.join(tmp, k + ".out"), "w"),
                                       stderr=subprocess.DEVNULL))
        end = time.time() + secs + 5
        satby = None
        while run and time.time() < end:
            for k in list(run):
                p = run[k]
                if p.poll() is None:
                    continue
                del run[k]
                out = open(os.path.join(tmp, k + ".out")).read()
                if k == "kissat":
                    if p.returncode == 20:
                        return "unsat", None, k
                    if p.returncode == 10:
                        m = cnf_model(cs, cnf, out)
                        if m is not None:
                            return "sat", m, k
                elif "(error" not in out:
                    w = out.strip().splitlines()
                    if w and w[0] == "unsat":
                        return "unsat", None, k
                    if w and w[0] == "sat":
                        satby = k
            if satby and "kissat" not in run:
                # no model from this back end: let z3 finish the satisfiable query
                solver.set("timeout", int(max(1, end - time.time()) * 1000))
                if str(solver.check()) == "sat":
                    return "sat", solver.model(), "z3"
                return "unknown", None, satby
            time.sleep(0.02)
        return "unknown", None, "race"
    finally:
        for p in run.values():
            p.kill()
        for p in run.values():
            p.wait()
        shutil.rmtree(tmp, ignore_errors=True)


_rs = random.Random(7)


def rand_val(v):
    if z3.is_bv(v):
        return z3.BitVecVal(_rs.getrandbits(v.size()), v.size())
    if z3.is_bool(v):
        return z3.BoolVal(_rs.random() < 0.5)
    return z3.FPVal(_rs.uniform(-4, 4), v.sort())


def depends(e, fv, cand, rounds=2, only_all=False):
    """Names of candidate variables a random evaluation shows e depends on (a heuristic that
    only chooses what to prove)."""
    dep = set()
    for _ in range(rounds):
        base = {n: rand_val(v) for n, v in fv.items()}
        sub = [(v, base[n]) for n, v in fv.items()]
        b0 = z3.simplify(z3.substitute(e, *sub))
        todo = [v for v in cand if v.decl().name() not in dep]
        # all at once first: usually nothing depends
        chg = {v.decl().name() for v in todo}
        if not chg:
            break
        s2 = [(v, rand_val(v) if n in chg else base[n]) for n, v in fv.items()]
        if z3.simplify(z3.substitute(e, *s2)).eq(b0):
            continue
        if only_all:
            return chg
        for v in todo:
            n0 = v.decl().name()
            s3 = [(w, rand_val(w) if n == n0 else base[n]) for n, w in fv.items()]
            if not z3.simplify(z3.substitute(e, *s3)).eq(b0):
                dep.add(n0)
    return dep


_canon_vars = {}


def canon(es):
    """Rename free variables in order of first occurrence.  -> (renamed list, back map)"""
    order = list(scan(es)[0].values())
    fw, bk = [], []
    for k, v in enumerate(order):
        n = v.decl().name()
        pre = "S!" if n.startswith("S!") else "V!"
        c = z3.Const("%sk%d" % (pre, k), v.sort())
        fw.append((v, c))
        bk.append((c, v))
    return [z3.substitute(e, *fw) if fw else e for e in es], fw, bk


_elim_cache = {}


def eliminate(e, fv, cand, assume, timeout, whole=False):
    """Equivalent expression without the candidate variables it does not depend on; the
    equivalence is decided by the solver.  None if undecided.  Results are reused for
    expressions that are equal up to renaming of variables."""
    if assume:
        return _eliminate(e, fv, cand, assume, timeout, whole)
    (ce,), fw, bk = canon([e])
    key = (ce.get_id(), whole)
    if key in _elim_cache:
        r = _elim_cache[key][1]
        STATS["reused"] = STATS.get("reused", 0) + 1
    else:
        cn = {v.decl().name(): v for v in (c for _, c in fw)}
        cc = [c for o, c in fw if any(o.eq(k) for k in cand)]
        r = _eliminate(ce, cn, cc, assume, timeout, whole)
        _elim_cache[key] = (ce, r)
    if r is None:
        return None
    return z3.substitute(r, *bk) if bk else r


def _eliminate(e, fv, cand, assume, timeout, whole=False):
    """Equivalent expression without the candidate variables it does not depend on; the
    equivalence is decided by the solver.  None if undecided."""
    dep = set() if whole else depends(e, fv, cand)
    while True:
        ms = [v for v in cand if v.decl().name() not in dep]
        if not ms:
            return simp(e)
        e2 = simp(z3.substitute(e, *[(v, zero_of(v)) for v in ms]))
        r, m = equal(e, e2, assume=assume, timeout=timeout)
        if r == "unsat":
            return e2
        if r != "sat" or whole:
            return None
        # walk from the model to the zeroed point, one variable at a time
        pt = {}
        for n, v in fv.items():
            x = m.eval(v, model_completion=True)
            pt[n] = z3.simplify(x)
        ev = lambda: z3.simplify(z3.substitute(e, *[(v, pt[n]) for n, v in fv.items()]))
        cur = ev()
        new = set()
        for v in ms:
            n = v.decl().name()
            old = pt[n]
            pt[n] = zero_of(v)
            nxt = ev()
            if not nxt.eq(cur):
                new.add(n)
                pt[n] = old
        if not new:
            return None
        dep |= new


def as_expr(v, like):
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return z3.BitVecVal(v, like.size()) if z3.is_bv(like) else z3.FPVal(v, like.sort())


def equal(a, b, assume=(), timeout=None):
    """Decide a == b for all values.  -> ('unsat', None) if equal always."""
    ac, bc = not isinstance(a, z3.ExprRef), not isinstance(b, z3.ExprRef)
    if ac and bc:
        if a == b:
            count("unsat", "trivial")
            return "unsat", None
        return check([z3.BoolVal(True)] + list(assume), timeout)
    if ac:
        a = as_expr(a, b)
    if bc:
        b = as_expr(b, a)
    if a.eq(b):
        count("unsat", "rewrite")
        return "unsat", None
    if z3.is_bool(a):
        d = z3.simplify(z3.Xor(a, b))
        if z3.is_false(d):
            count("unsat", "rewrite")
            return "unsat", None
    elif z3.is_bv(a):
        d = z3.simplify(a - b, som=True)
        if z3.is_bv_value(d) and d.as_long() == 0:
            count("unsat", "rewrite")
            return "unsat", None
    return valid(a == b, assume, timeout)


def related(goal, assume):
    """the assumptions that share variables with the goal, directly or through others"""
    names = set(free_vars(goal))
    left = [(c, set(free_vars(c))) for c in assume if isinstance(c, z3.ExprRef)]
    rel, grew = [], True
    while grew:
        grew = False
        for it in list(left):
            if it[1] & names:
                rel.append(it[0])
                names |= it[1]
                left.remove(it)
                grew = True
    return rel


def valid(goal, assume=(), timeout=None):
    """Decide assume => goal.  ('unsat', None): holds; ('sat', model): fails.  Remembers what
    it has proved, up to renaming of variables."""
    if any(isinstance(c, bool) and not c for c in assume):
        count("unsat", "trivial")
        return "unsat", None
    rel = related(goal, assume)
    ce, fw, bk = canon([goal] + rel)
    key = tuple(x.get_id() for x in ce)
    if key in _eq_cache:
        STATS["reused"] = STATS.get("reused", 0) + 1
        return "unsat", None
    r, m = check([z3.Not(goal)] + rel, timeout)
    if r == "unsat":
        _eq_cache[key] = ce
    elif r == "sat" and len(rel) != sum(isinstance(c, z3.ExprRef) for c in assume):
        return check([z3.Not(goal)] + list(assume), timeout)
    return r, m


_eq_cache = {}


def simp(e):
    """simplify; parity chains of booleans are flattened and equal terms cancelled"""
    if not isinstance(e, z3.ExprRef):
        return e
    e = z3.simplify(e)
    if not z3.is_bool(e):
        return e
    terms, neg, stack = {}, False, [e]
    n = 0
    while stack:
        x = stack.pop()
        k = x.decl().kind()
        ch = x.children()
        if k == z3.Z3_OP_NOT:
            neg = not neg
            stack.append(ch[0])
        elif k == z3.Z3_OP_XOR or (k == z3.Z3_OP_DISTINCT and len(ch) == 2 and z3.is_bool(ch[0])):
            stack.extend(ch)
            n += 1
        elif k == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
            neg = not neg
            stack.extend(ch)
            n += 1
        elif z3.is_true(x):
            neg = not neg
        elif not z3.is_false(x):
            i = x.get_id()
            if i in terms:
                del terms[i]
            else:
                terms[i] = x
        if n > 4000:
            return e
    if n == 0:
        return e
    acc = z3.BoolVal(neg)
    for i in sorted(terms):
        acc = terms[i] if z3.is_false(acc) else z3.Not(terms[i]) if z3.is_true(acc) else z3.Xor(acc, terms[i])
    return acc


def mval(model, e):
    """evaluate element under model -> python int/bool/float"""
    if not isinstance(e, z3.ExprRef):
        return e
    if model is None:
        v = z3.simplify(z3.substitute(e, *[(x, zero_of(x)) for x in free_vars(e).values()]))
    else:
        v = model.eval(e, model_completion=True)
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_fp_value(v) or isinstance(v, z3.FPRef):
        return fp_to_py(v)
    raise ValueError("cannot evaluate %s" % v)


def fp_to_py(v):
    import struct
    v = z3.simplify(v)
    if v.isNaN():
        return float("nan")
    if v.isInf():
        return float("-inf") if v.isNegative() else float("inf")
    b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    return struct.unpack("<d", struct.pack("<Q", b))[0] if v.sort() == z3.Float64() else struct.unpack("<f", struct.pack("<I", b))[0]


def zero_of(x):
    if z3.is_bv(x):
        return z3.BitVecVal(0, x.size())
    if z3.is_bool(x):
        return z3.BoolVal(False)
    return z3.FPVal(0.0, x.sort())


def known_zero(e, n, memo=None):
    """Mask of bits of e that are syntactically certain to be 0."""
    full = (1 << n) - 1
    if not isinstance(e, z3.ExprRef):
        return full & ~e
    memo = {} if memo is None else memo
    i = e.get_id()
    if i in memo:
        return memo[i]
    k = e.decl().kind()
    ch = e.children()
    kz = lambda c: known_zero(c, c.size(), memo)
    r = 0
    if z3.is_bv_value(e):
        r = full & ~e.as_long()
    elif k == z3.Z3_OP_BAND:
        for c in ch:
            r |= kz(c)
    elif k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        r = full
        for c in ch:
            r &= kz(c)
    elif k == z3.Z3_OP_CONCAT:
        for c in ch:
            r = (r << c.size()) | kz(c)
    elif k == z3.Z3_OP_ZERO_EXT:
        m = ch[0].size()
        r = kz(ch[0]) | (full & ~((1 << m) - 1))
    elif k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        r = (kz(ch[0]) >> lo) & full
    elif k == z3.Z3_OP_ITE:
        r = kz(ch[1]) & kz(ch[2])
    elif k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
        sft = ch[1].as_long()
        r = full if sft >= n else (((kz(ch[0]) << sft) | ((1 << sft) - 1)) & full)
    elif k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]):
        sft = ch[1].as_long()
        r = full if sft >= n else ((kz(ch[0]) >> sft) | (full & ~(full >> sft)))
    memo[i] = r
    return r
