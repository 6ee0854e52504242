"""P24: the generators draw every element from its own stretch of a secure stream, without bias."""
import numpy as np

from tfv import llvm
from tfv import solve
from tfv.boot import z3
from tfv.sym import is_conc
from tfv.sym import obj

from .cpplib import BITS
from .cpplib import Call
from .cpplib import direct
from .cpplib import model_value

P = "P24"
NONCE = b"LibsodiumDRG"


class Source:
    """libsodium: a key and a position determine a byte; the system's generator gives new bytes"""

    def __init__(self, fixed=0):
        self.bytes, self.n, self.fixed = {}, 0, fixed  # the first `fixed` bytes of a stream are given

    def key(self, m, s, a, n):
        parts = []
        for i in range(n):
            v = m.get(s, a + i, ("i", 8))
            parts.append(str(v) if llvm.conc(v) else z3.simplify(v).sexpr())
        return "|".join(parts)

    def byte(self, k, i):
        if i < self.fixed:
            return z3.BitVecVal((i * 37 + 11 * (i // 61) + 5) % 61, 8)
        if (k, i) not in self.bytes:
            self.bytes[k, i] = z3.BitVec("K%d_%d" % (self.idx(k), i), 8)
        return self.bytes[k, i]

    def idx(self, k):
        ks = self.__dict__.setdefault("keys", [])
        if k not in ks:
            ks.append(k)
        return ks.index(k)

    def __call__(self, m, s, name, av):
        if name == "randombytes_buf":
            a, n = av
            t = len([d for d in s.draws if d[0] == "os"])
            out = [z3.BitVec("D%d_%d" % (t, i), 8) for i in range(n)]
            s.draws.append(("os", None, 0, out))
        elif name == "randombytes_buf_deterministic":
            a, n, k = av
            k = self.key(m, s, k, 32)
            out = [self.byte(k, i) for i in range(n)]
            s.draws.append(("stream", k, 0, out))
        elif name == "crypto_stream_chacha20_ietf_xor_ic":
            a, src, n, nonce, ic, k = av
            k = self.key(m, s, k, 32)
            nn = bytes(m.get(s, nonce + i, ("i", 8)) for i in range(12))
            if nn != NONCE:
                k += "/" + nn.hex()
            ks = [self.byte(k, 64 * ic + i) for i in range(n)]
            out = []
            for i in range(n):
                v = m.get(s, src + i, ("i", 8))
                out.append(ks[i] if llvm.conc(v) and v == 0 else llvm.bvv(v, 8) ^ ks[i])
            s.draws.append(("stream", k, 64 * ic, ks))
        else:
            return NotImplemented
        for i, b in enumerate(out):
            m.put(s, a + i, b, ("i", 8))
        return None


def words(draws, sz):
    """every aligned word of every stream and every system draw: (name, expression)"""
    at, out = {}, {}
    for j, (kind, k, pos, bs) in enumerate(draws):
        for i, b in enumerate(bs):
            at[(j, "os") if kind == "os" else k, pos + i] = b
    for (k, p), _ in at.items():
        if p % sz == 0 and all((k, p + i) in at for i in range(sz)):
            bs = [at[k, p + i] for i in range(sz)]
            out[k, p] = z3.simplify(z3.Concat(*reversed(bs))) if sz > 1 else bs[0]
    return out


def vars_of(e):
    seen, todo, r = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r.add(x.decl().name())
        todo.extend(x.children())
    return r


def ops(dt, seeded):
    i128 = dt == "int128"
    return ("I128" if i128 else "") + ("SecureSeededRandomUniform" if seeded else "SecureRandomUniform")


def scalar(v):
    a = obj(())
    a[()] = v
    return a


def run(res, dt, seeded, shape, lo, hi, threads=1, rej=1, seed=None, fixed=0):
    """lo, hi: integers or 'sym'"""
    i128 = dt == "int128"
    n = 128 if i128 else BITS[dt]
    base = "int64" if i128 else dt

    def bound(v, nm):
        if v == "sym":
            if i128:
                a = obj((2,))
                a[0], a[1] = z3.BitVec(nm + "0", 64), z3.BitVec(nm + "1", 64)
                return a, z3.Concat(a[1], a[0])
            x = z3.BitVec(nm, n)
            return scalar(x), x
        u = v & ((1 << n) - 1)
        if i128 and not -2 ** 63 <= v < 2 ** 63:
            return np.array([u & (2 ** 64 - 1), u >> 64], dtype=object), z3.BitVecVal(u, n)
        return scalar(v & (2 ** 64 - 1) if i128 else u), z3.BitVecVal(u, n)
    (la, L), (ha, H) = bound(lo, "lo"), bound(hi, "hi")
    sv = obj((8,))
    for i in range(8):
        sv[i] = z3.BitVec("seed_%d" % i, 32) if seed is None else seed[i]
    ins = [("int64", np.array(shape, dtype=object).reshape(-1))]
    if seeded:
        ins.append(("int32", sv))
    ins += [(base, la), (base, ha)]
    call = Call("random", ops(dt, seeded), base, ins, base, {}, threads)
    from .cpplib import module
    src = Source(fixed * (16 if i128 else BITS[dt] // 8))
    m = llvm.Machine(module("random"), src)
    m.joining = False
    cnt = int(np.prod(shape))
    m.unroll = cnt - fixed + rej
    outs = call.run(machine=m)
    res.functions = sorted(set(res.functions) | {f.strip("@") for f in m.seen if "Op" in f or "Generator" in f or "random" in f})
    label = "%s %s%s in [%s, %s) threads=%d" % (call.op, dt, list(shape), lo, hi, threads)
    sz = n // 8
    got_value = False
    for pc, st, out, state in outs:
        def fail(why, extra=()):
            r, mod = solve.check(list(pc) + list(extra), 60000)
            if r != "sat":
                if r != "unsat":
                    res.undecided("%s: %s (solver %s)" % (label, why, r))
                return r != "unsat"
            vals = [np.vectorize(lambda x: model_value(mod, x), otypes=[object])(v) if v.size else v for _, v in ins]
            recs = [bytes(model_value(mod, b) for b in d[3]) for d in state.draws]
            ok, o = call.native(vals, recs)
            want = None
            if st == "ok" and out is not None:
                want = np.vectorize(lambda x: model_value(mod, x), otypes=[object])(out)
            same = ok == st if st != "ok" else (ok == "ok" and o.shape == want.shape and all(int(a) == int(b) for a, b in zip(o.reshape(-1), want.reshape(-1))))
            if same or (st.startswith("stops") and ok.startswith("stops")):
                res.violation("%s: %s; with the drawn bytes %s the compiled code gives %s %s" % (label, why, [r.hex() for r in recs][:4], ok, None if o is None else [str(x) for x in o.reshape(-1)[:4]]),
                              op=call.op, inputs=[[str(x) for x in v.reshape(-1)] for v in vals], draws=[r.hex() for r in recs])
            else:
                res.undecided("%s: %s, but the compiled code behaves otherwise (%s)" % (label, why, ok))
            return True
        res.obligations += 1
        if st == "refused":
            if fail("refuses a range that is not empty", [L < H]):
                return
            continue
        if st != "ok":
            if fail(st):
                return
            continue
        if fail("accepts an empty range", [L >= H]):
            return
        got_value = True
        shp = tuple(shape) + ((2,) if i128 else ())
        if out.shape != shp:
            fail("output of shape %s" % (out.shape,))
            return
        els = [z3.simplify(z3.Concat(llvm.bvv(out[i + (1,)], 64), llvm.bvv(out[i + (0,)], 64))) if i128 else llvm.bvv(out[i], n) for i in np.ndindex(*shape)]
        ws = words(state.draws, sz)
        used = set()
        w = n if lo != "sym" and hi != "sym" else n
        rng = H - L
        one = z3.BitVecVal(1, w)
        # the words above the largest multiple of the range have to be rejected
        top = -(z3.URem(z3.BitVecVal(-1, w) - rng + one, rng)) - one
        for i, e in enumerate(els):
            vs = vars_of(e)
            hit, near = None, None
            for nm, word in ws.items():
                if nm in used or not (vars_of(word) & vs or not vs and not vars_of(word)):
                    continue
                r, _ = solve.valid(e == L + z3.URem(word, rng), pc, 60000)
                if r != "unsat":
                    near = near or ("unknown" if r != "sat" else None)
                    continue
                r, _ = solve.valid(z3.ULE(word, top), pc, 60000)
                if r == "unsat":
                    hit = nm
                    break
                near = (nm, word) if r == "sat" else "unknown"
            res.obligations += 1
            if hit is None:
                if near == "unknown":
                    res.undecided("%s: solver gives no answer for element %d" % (label, i))
                    return
                if near:
                    fail("element %d is taken from a draw above the largest multiple of the range (biased)" % i, [z3.Not(z3.ULE(near[1], top))])
                else:
                    fail("element %d is not the range's start plus a draw of its own modulo the range" % i)
                return
            used.add(hit)
        if seeded:
            names = {k for k in (d[1] for d in state.draws)}
            if any(d[0] == "os" for d in state.draws):
                fail("a seeded draw depends on the system's generator")
                return
            if len(names) != 1 or src.idx(list(names)[0]) != 0:
                fail("more than one stream for one seed")
                return
        else:
            keys = [d for d in state.draws if d[0] == "os" and len(d[3]) == 32]
            for d in state.draws:
                if d[0] == "stream" and not any(all(x.decl().name() in d[1] for x in k[3]) for k in keys):
                    fail("a stream whose seed is not drawn from the system's generator")
                    return
    if not got_value and res.status == "ok" and not (lo != "sym" and hi != "sym" and lo >= hi):
        res.undecided(label + ": no path to a result")


RANGES = {
    "int8": [(-128, 127), (0, 37), (0, 2), (-5, 100), (3, 4)],
    "int16": [(-2 ** 15, 2 ** 15 - 1), (0, 2), (0, 32749), (-77, 1000)],
    "int32": [(-2 ** 31, 2 ** 31 - 1), (0, 2), (0, 2 ** 30), (0, 2 ** 31 - 1), (0, 89702869), (-3, 5)],
    "int64": [(-2 ** 63, 2 ** 63 - 1), (0, 2), (0, 2 ** 40), (0, 1), (0, 67), (-2 ** 40, 2 ** 50)],
    "int128": [(-2 ** 127, 2 ** 127 - 1), (0, 2), (0, 2 ** 64), (-2 ** 63, 2 ** 63 - 1), (-1, 2 ** 100)],
}


def case(dt, seeded):
    def f(res):
        for k, (lo, hi) in enumerate(RANGES[dt]):
            run(res, dt, seeded, (2,), lo, hi, 1, 1)
            if res.status == "violation":
                return
        lo, hi = RANGES[dt][1]
        for shape, th in (((), 4), ((5,), 1), ((5,), 4), ((2, 3), 4), ((70,), 1)):
            if int(np.prod(shape)) > 5 and hi - lo != 2 and dt != "int64":
                continue
            run(res, dt, seeded, shape, 0, 2, th, 0)
        run(res, dt, seeded, (1,), 5, 5)
        run(res, dt, seeded, (1,), 5, -5)
    return f


def rejects(dt, seeded):
    """several rejections in a row"""
    def f(res):
        lo, hi = {"int8": (-100, 100), "int16": (0, 2 ** 15 - 1), "int32": (-2 ** 30, 2 ** 30 + 12345), "int64": (-2 ** 62, 2 ** 62 + 99), "int128": (-2 ** 126, 2 ** 126 + 99)}[dt]
        run(res, dt, seeded, (1,), lo, hi, 1, 3)
        run(res, dt, seeded, (2,), lo, hi, 1, 3)
        if dt == "int8":
            return
        k = 64 // (BITS[dt] // 8 if dt != "int128" else 16)
        if seeded and k <= 8:
            run(res, dt, seeded, (1,), lo, hi, 1, k + 1)  # beyond the extra block
        run(res, dt, seeded, (k + 1,), lo, hi, 1, 1, fixed=k)
        run(res, dt, seeded, (k,), lo, hi, 1, 1, fixed=k - 1)      # the elements fill more than one block
    return f


def symbolic(dt, seeded):
    def f(res):
        run(res, dt, seeded, (1,), "sym", "sym", 1, 1)
    return f


def seed(res):
    call = Call("random", "SecureSeed", None, [], "int32")
    from .cpplib import module
    m = llvm.Machine(module("random"), Source())
    outs = call.run(machine=m)
    res.functions = sorted(f.strip("@") for f in m.seen if "Op" in f or "seed" in f)
    for pc, st, out, state in outs:
        res.obligations += 1
        if st != "ok" or out.shape != (8,):
            ok, o = call.native([], [bytes(32)])
            if ok != "ok" or o.shape != (8,):
                res.violation("SecureSeed: %s %s" % (ok, None if o is None else o.shape))
            else:
                res.undecided("SecureSeed: %s" % st)
            return
        ws = {nm: e for nm, e in words(state.draws, 4).items() if nm[0][1] == "os"}
        used = set()
        for i in range(8):
            e = llvm.bvv(out[i], 32)
            hit = [nm for nm, w in ws.items() if nm not in used and solve.valid(e == w, pc, 20000)[0] == "unsat"]
            if not hit:
                recs = [bytes((11 * j + 7 * k + 3) % 256 for k in range(len(d[3]))) for j, d in enumerate(state.draws)]
                ok, o = call.native([], recs)
                have = {int.from_bytes(b[4 * k:4 * k + 4], "little") for b in recs for k in range(len(b) // 4)}
                if ok != "ok" or len(set(o.reshape(-1))) < 8 or not set(int(x) for x in o.reshape(-1)) <= have:
                    res.violation("SecureSeed: word %d of the seed is not a fresh word of the system's generator" % i)
                else:
                    res.undecided("SecureSeed: word %d" % i)
                return
            used.add(hit[0])


for _dt in RANGES:
    for _s in (False, True):
        _n = "%s %s" % ("seeded" if _s else "fresh", _dt)
        direct(P, _n, case(_dt, _s), cost=20)
        direct(P, _n + " rejections", rejects(_dt, _s), cost=25)
        if _dt in ("int8", "int16"):
            direct(P, _n + " any range", symbolic(_dt, _s), cost=40, tier="quick" if _dt == "int8" else "thorough")
direct(P, "seed", seed, cost=5)
