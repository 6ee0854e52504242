"""Symbolic execution of LLVM IR (textual, as clang writes it): addresses and sizes are concrete,
the contents of memory may be symbolic; a branch on a symbolic condition splits the path."""
import re
import struct

from . import solve
from .boot import z3
from .sym import Unsupported

TOK = re.compile(r'[%@]"[^"]*"|[%@][-\w.$]+|c"(?:[^"\\]|\\.)*"|"[^"]*"|0x[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[(){}\[\]<>,=*!#]')
WORDS = ("i1", "i8", "i16", "i32", "i64", "i128", "ptr", "double", "float", "void")


class Trap(Exception):
    """the code does something undefined, or stops"""


def is_type(t):
    return t in WORDS or t in "{[<" or re.fullmatch(r"i\d+", t) or t.startswith("%")


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported("IR: expected %s in %s" % (x, " ".join(self.t)))

    def skip_parens(self):
        self.need("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")


class Fn:
    def __init__(self, name, params):
        self.name, self.params = name, params
        self.blocks = {}
        self.entry = None


class Module:
    def __init__(self, path):
        self.types, self.tdef, self.fns, self.globals = {}, {}, {}, []
        self.sizes = {}
        cur = None
        for ln in open(path):
            s = ln.rstrip("\n")
            if cur is not None:
                if s == "}":
                    cur = None
                    continue
                m = re.match(r'^([-\w.$]+|"[^"]*"):', s)
                if m:
                    blk = m.group(1)
                    cur.blocks[blk] = []
                    cur.entry = cur.entry or blk
                elif s.strip():
                    if cur.entry is None:
                        cur.entry = blk = "%entry"
                        cur.blocks[blk] = []
                    cur.blocks[blk].append(s.strip())
                continue
            if s.startswith("%") and " = type " in s:
                n, d = s.split(" = type ", 1)
                self.tdef[n] = d
            elif s.startswith("define"):
                cur = self.header(s)
                self.fns[cur.name] = cur
            elif s.startswith("@"):
                self.globals.append(s)

    def header(self, s):
        m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', s)
        toks = TOK.findall(s[m.end() - 1:])
        p = P(toks)
        p.need("(")
        params, n = [], 0
        while p.peek() != ")":
            if p.eat("..."):
                break
            t = self.type(p)
            name = None
            while p.peek() not in (",", ")"):
                x = p.next()
                if p.peek() == "(":
                    p.skip_parens()
                elif x.startswith("%"):
                    name = x
            params.append((t, name))
            p.eat(",")
        return Fn(m.group(1), params)

    def type(self, p):
        t = p.next()
        if t in ("ptr", "double", "float", "void", "metadata", "label"):
            return t
        m = re.fullmatch(r"i(\d+)", t)
        if m:
            return ("i", int(m.group(1)))
        if t == "[":
            n = int(p.next())
            p.need("x")
            e = self.type(p)
            p.need("]")
            return ("arr", n, e)
        if t == "<":
            if p.peek() == "{":
                p.next()
                return self.struct(p, True)
            raise Unsupported("IR: vector type")
        if t == "{":
            return self.struct(p, False)
        if t.startswith("%"):
            if t not in self.types:
                d = self.tdef.get(t)
                if d is None or d == "opaque":
                    raise Unsupported("IR: type %s" % t)
                self.types[t] = self.type(P(TOK.findall(d)))
            return self.types[t]
        raise Unsupported("IR: type %s" % t)

    def struct(self, p, packed):
        f = []
        while not p.eat("}"):
            f.append(self.type(p))
            p.eat(",")
        if packed:
            p.need(">")
        return ("st", tuple(f), packed)

    def align(self, t):
        if t[0] == "i":
            return min(16, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if t == "float":
            return 4
        if t in ("ptr", "double"):
            return 8
        if t[0] == "arr":
            return self.align(t[2])
        return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])

    def size(self, t):
        if t not in self.sizes:
            if t[0] == "i":
                self.sizes[t] = self.align(t) if t[1] % 8 == 0 else (t[1] + 7) // 8
            elif t == "float":
                self.sizes[t] = 4
            elif t in ("ptr", "double"):
                self.sizes[t] = 8
            elif t[0] == "arr":
                self.sizes[t] = t[1] * self.size(t[2])
            else:
                self.sizes[t] = self.layout(t)[1]
        return self.sizes[t]

    def layout(self, t):
        o, offs = 0, []
        for f in t[1]:
            a = 1 if t[2] else self.align(f)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(f)
        a = self.align(t)
        return offs, (o + a - 1) // a * a


class Frame:
    __slots__ = ("fn", "blk", "i", "loc", "prev", "dest")

    def __init__(self, fn, loc, dest):
        self.fn, self.blk, self.i, self.loc, self.prev, self.dest = fn, fn.entry, 0, loc, None, dest

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.i, f.loc, f.prev, f.dest = self.fn, self.blk, self.i, dict(self.loc), self.prev, self.dest
        return f


class State:
    def __init__(self):
        self.mem, self.frames, self.pc, self.top, self.alloc, self.draws = {}, [], [], 0x100000, {}, []
        self.ret = None
        self.last = None
        self.splits = {}

    def copy(self):
        s = State()
        s.mem, s.frames, s.pc = dict(self.mem), [f.copy() for f in self.frames], list(self.pc)
        s.top, s.alloc, s.draws, s.last, s.splits = self.top, dict(self.alloc), list(self.draws), self.last, self.splits
        return s


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


def conc(v):
    return not isinstance(v, z3.ExprRef)


def bvv(v, n):
    if conc(v):
        return z3.BitVecVal(int(v), n)
    return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n)) if z3.is_bool(v) else v


def boolv(v):
    if conc(v):
        return z3.BoolVal(bool(v))
    return v if z3.is_bool(v) else v == 1


def fpv(v, t):
    s = z3.Float64() if t == "double" else z3.Float32()
    return z3.FPVal(v, s) if conc(v) else v


class Machine:
    PAGE = 64

    def __init__(self, mod, draw=None, limit=3000000):
        self.m, self.draw, self.limit = mod, draw, limit
        self.addr, self.fn_at, self.code, self.nfresh, self.steps = {}, {}, {}, 0, 0
        self.queries = 0
        self.seen = set()
        self.nphis, self.pdom = {}, {}
        self.joining, self.unroll = True, None
        self.base = State()
        self.globals()

    # ---- memory -------------------------------------------------------------
    def new(self, st, n):
        n = int(n)
        a = st.top
        st.top = (a + n + 63) // 64 * 64 + 64
        for k in range(a // 64, (a + max(n, 1) - 1) // 64 + 1):
            st.alloc[k] = (a, a + n)
        return a

    def check(self, st, a, n):
        if not conc(a):
            raise Unsupported("symbolic address")
        r = st.alloc.get(a // 64)
        if r is None or a < r[0] or a + n > r[1]:
            raise Trap("memory access out of bounds")

    def put(self, st, a, v, t):
        n = self.m.size(t)
        if t[0] in ("arr", "st"):
            for i, (o, ft) in enumerate(self.fields(t)):
                self.put(st, a + o, v[i], ft)
            return
        self.check(st, a, n)
        if not conc(v) and z3.is_bool(v):
            v = bvv(v, 8)
        for i in range(n):
            st.mem[a + i] = (v, i, n)

    def fields(self, t):
        if t[0] == "arr":
            return [(i * self.m.size(t[2]), t[2]) for i in range(t[1])]
        return list(zip(self.m.layout(t)[0], t[1]))

    def fresh(self, n):
        self.nfresh += 1
        return z3.BitVec("U!%d" % self.nfresh, n)

    def get(self, st, a, t):
        if t[0] in ("arr", "st"):
            return [self.get(st, a + o, ft) for o, ft in self.fields(t)]
        n = self.m.size(t)
        self.check(st, a, n)
        bs = []
        for i in range(n):
            e = st.mem.get(a + i)
            if e is None:
                e = st.mem[a + i] = (self.fresh(8), 0, 1)
            bs.append(e)
        v0, i0, n0 = bs[0]
        fp = t in ("double", "float")
        if i0 == 0 and n0 == n and all(b[0] is v0 and b[1] == k and b[2] == n for k, b in enumerate(bs)):
            isf = isinstance(v0, float) or (not conc(v0) and z3.is_fp(v0))
            if isf == fp:
                return (v0 & 1 if conc(v0) else z3.Extract(0, 0, v0) == 1) if t == ("i", 1) else v0
        if all(conc(b[0]) and not isinstance(b[0], float) for b in bs):
            r = 0
            for k, b in enumerate(bs):
                r |= (b[0] >> (8 * b[1]) & 255) << (8 * k)
            if fp:
                return struct.unpack("<d" if t == "double" else "<f", r.to_bytes(n, "little"))[0]
            return r & ((1 << t[1]) - 1) if t != "ptr" else r
        ps = []
        k = 0
        while k < n:  # runs of bytes of the same stored value
            v, i, vn = bs[k]
            j = k
            while j + 1 < n and bs[j + 1][0] is v and bs[j + 1][1] == bs[j][1] + 1:
                j += 1
            if isinstance(v, float):
                v = struct.unpack("<Q", struct.pack("<d", v))[0] if vn == 8 else struct.unpack("<I", struct.pack("<f", v))[0]
            if not conc(v) and z3.is_fp(v):
                raise Unsupported("bytes of a floating-point number")
            v = bvv(v, 8 * vn)
            if i == 0 and j - k + 1 == vn:
                ps.append(v)
            else:
                ps.append(z3.Extract(8 * (i + j - k) + 7, 8 * i, v))
            k = j + 1
        v = ps[0] if len(ps) == 1 else z3.Concat(*reversed(ps))
        v = solve.simp(v) if len(ps) > 1 else v
        if fp:
            return z3.fpBVToFP(v, z3.Float64() if t == "double" else z3.Float32())
        if t == ("i", 1):
            return z3.Extract(0, 0, v) == 1
        if z3.is_bv_value(v):
            return v.as_long()
        return v

    def cstr(self, st, s):
        a = self.new(st, len(s) + 1)
        for i, c in enumerate(s.encode() + b"\0"):
            st.mem[a + i] = (c, 0, 1)
        return a

    # ---- globals -------------------------------------------------------------
    def globals(self):
        st = self.base
        for k, n in enumerate(self.m.fns):
            self.addr[n] = 0x1000 + 16 * k
            self.fn_at[0x1000 + 16 * k] = self.m.fns[n]
        later, self.ctors = [], []
        for s in self.m.globals:
            m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', s)
            body = re.sub(r", (align \d+|comdat.*|!.*|section .*)$", "", m.group(2))
            body = re.sub(r", (align \d+|comdat.*|!.*)$", "", re.sub(r", (align \d+|comdat.*|!.*)$", "", body))
            k = re.search(r"\b(global|constant|alias)\b", body)
            if not k or k.group(1) == "alias":
                continue
            toks = TOK.findall(body[k.end():])
            ext = re.search(r"\bexternal\b|extern_weak", body[:k.start()])
            p = P(toks)
            try:
                t = self.m.type(p)
            except Unsupported:
                t = ("arr", 512, ("i", 8))
                ext = True
            a = self.new(st, max(8, self.m.size(t)))
            self.addr[m.group(1)] = a
            if m.group(1) == "@llvm.global_ctors":
                self.ctors = re.findall(r"@[-\w.$]+", s)[1:]
                continue
            if not ext:
                later.append((a, t, p))
        for a, t, p in later:
            self.put(st, a, self.const(p, t), t)
        for c in self.ctors:
            for s2, _ in self.run(st, c, []):
                self.base = st = s2

    def const(self, p, t):
        x = p.next()
        if x in ("zeroinitializer", "undef", "poison", "null", "none"):
            return self.zero(t)
        if x in ("true", "false"):
            return int(x == "true")
        if x.startswith('c"'):
            out, i, s = [], 2, x
            while i < len(s) - 1:
                if s[i] == "\\":
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return out
        if x in "[{<":
            if x == "<":
                p.need("{")
            r = []
            close = "]" if x == "[" else "}"
            while not p.eat(close):
                r.append(self.const_typed(p))
                p.eat(",")
            if x == "<":
                p.need(">")
            return r
        if x.startswith("@"):
            return self.addr.get(x, 0xdead0000)
        if x in ("getelementptr",):
            while p.peek() != "(":
                p.next()
            p.need("(")
            bt = self.m.type(p)
            p.need(",")
            base = self.const_typed(p)
            idx = []
            while p.eat(","):
                while p.peek() == "inrange":
                    p.next()
                    if p.peek() == "(":
                        p.skip_parens()
                it = self.m.type(p)
                idx.append((it, self.const(p, it)))
            p.need(")")
            return self.gep(bt, base, idx)
        if x in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            p.need("(")
            v = self.const_typed(p)
            p.need("to")
            self.m.type(p)
            p.need(")")
            return v
        if x in ("sub", "add"):
            while p.peek() != "(":
                p.next()
            p.need("(")
            a = self.const_typed(p)
            p.need(",")
            b = self.const_typed(p)
            p.need(")")
            return (a - b if x == "sub" else a + b) & ((1 << t[1]) - 1)
        if t in ("double", "float"):
            if x.startswith("0x"):
                return struct.unpack("<d", struct.pack("<Q", int(x, 16)))[0]
            return float(x)
        if re.fullmatch(r"-?\d+", x):
            return int(x) & ((1 << (64 if t == "ptr" else t[1])) - 1)
        raise Unsupported("IR: constant %s" % x)

    def const_typed(self, p):
        while p.peek() == "inrange":
            p.next()
        t = self.m.type(p)
        return self.const(p, t)

    def zero(self, t):
        if t[0] == "arr":
            return [self.zero(t[2])] * t[1]
        if t[0] == "st":
            return [self.zero(f) for f in t[1]]
        return 0.0 if t in ("double", "float") else 0

    def gep(self, bt, base, idx):
        a, t = base, bt
        for k, (it, i) in enumerate(idx):
            if not conc(i):
                i = z3.simplify(i)
                if not z3.is_bv_value(i):
                    raise Unsupported("symbolic index")
                i = i.as_long()
            i = sgn(i, it[1])
            if k == 0:
                a += i * self.m.size(t)
            elif t[0] == "arr":
                t = t[2]
                a += i * self.m.size(t)
            else:
                a += self.m.layout(t)[0][i]
                t = t[1][i]
        return a & ((1 << 64) - 1)

    # ---- decoding --------------------------------------------------------------
    def value(self, p, t):
        """-> closure over locals"""
        x = p.peek()
        if x.startswith("%"):
            p.next()
            return lambda L: L[x]
        v = self.const(p, t)
        return lambda L: v

    def typed(self, p):
        t = self.m.type(p)
        return t, self.value(p, t)

    def decode(self, s):
        s = re.sub(r"(, ![\w.]+ ![\w]+|, !\w+ !\{.*\})+$", "", s)
        s = re.sub(r"( #\d+)$", "", s)
        p = P(TOK.findall(s))
        dest = None
        if p.peek().startswith("%"):
            dest = p.next()
            p.need("=")
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        f = getattr(self, "d_" + op, None)
        if f is None:
            if op in BIN:
                while p.peek() in ("nsw", "nuw", "exact", "disjoint"):
                    p.next()
                t, a = self.typed(p)
                p.need(",")
                b = self.value(p, t)
                g = BIN[op]
                n = t[1]
                return ("set", dest, lambda st, L: g(self, st, a(L), b(L), n))
            if op in ("fadd", "fsub", "fmul", "fdiv"):
                while not is_type(p.peek()):
                    p.next()
                t, a = self.typed(p)
                p.need(",")
                b = self.value(p, t)
                from .sym import f_bin
                o = {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[op]
                dt = "float64" if t == "double" else "float32"
                return ("set", dest, lambda st, L: f_bin(o, a(L), b(L), dt))
            if op in CASTS:
                while not is_type(p.peek()):
                    p.next()
                t, a = self.typed(p)
                p.need("to")
                u = self.m.type(p)
                return ("set", dest, lambda st, L: cast(op, a(L), t, u))
            raise Unsupported("IR: %s" % s[:80])
        return f(p, dest)

    def d_alloca(self, p, d):
        t = self.m.type(p)
        n = 1
        if p.eat(",") and p.peek() != "align":
            t2, v = self.typed(p)
            n = v({})
        sz = self.m.size(t) * n
        return ("set", d, lambda st, L: self.new(st, sz))

    def d_load(self, p, d):
        while not is_type(p.peek()):
            p.next()
        t = self.m.type(p)
        p.need(",")
        _, a = self.typed(p)
        return ("set", d, lambda st, L: self.get(st, a(L), t))

    def d_store(self, p, d):
        while not is_type(p.peek()):
            p.next()
        t, v = self.typed(p)
        p.need(",")
        _, a = self.typed(p)
        return ("do", None, lambda st, L: self.put(st, a(L), v(L), t))

    def d_getelementptr(self, p, d):
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        bt = self.m.type(p)
        p.need(",")
        _, b = self.typed(p)
        ix = []
        while p.eat(","):
            ix.append(self.typed(p))
        return ("set", d, lambda st, L: self.gep(bt, b(L), [(t, v(L)) for t, v in ix]))

    def d_icmp(self, p, d):
        c = p.next()
        t, a = self.typed(p)
        p.need(",")
        b = self.value(p, t)
        n = 64 if t == "ptr" else t[1]
        return ("set", d, lambda st, L: icmp(c, a(L), b(L), n))

    def d_fcmp(self, p, d):
        c = p.next()
        while not is_type(p.peek()):
            c = p.next()
        t, a = self.typed(p)
        p.need(",")
        b = self.value(p, t)
        dt = "float64" if t == "double" else "float32"
        from .sym import f_bin
        k = {"oeq": "==", "olt": "<", "ole": "<=", "ogt": ">", "oge": ">=", "une": "!="}.get(c)
        if k is None:
            raise Unsupported("IR: fcmp %s" % c)
        return ("set", d, lambda st, L: f_bin(k, a(L), b(L), dt))

    def d_fneg(self, p, d):
        while not is_type(p.peek()):
            p.next()
        t, a = self.typed(p)
        return ("set", d, lambda st, L: -a(L))

    def d_freeze(self, p, d):
        t, a = self.typed(p)
        return ("set", d, lambda st, L: a(L))

    def d_select(self, p, d):
        while not is_type(p.peek()):
            p.next()
        ct, c = self.typed(p)
        p.need(",")
        t, a = self.typed(p)
        p.need(",")
        _, b = self.typed(p)

        def f(st, L):
            x = c(L)
            if conc(x):
                return a(L) if x else b(L)
            u, v = a(L), b(L)
            if t == ("i", 1):
                return z3.If(x, boolv(u), boolv(v))
            if t in ("double", "float"):
                return z3.If(x, fpv(u, t), fpv(v, t))
            if t == "ptr":
                if conc(u) and conc(v) and u == v:
                    return u
                raise Unsupported("symbolic pointer")
            return z3.If(x, bvv(u, t[1]), bvv(v, t[1]))
        return ("set", d, f)

    def d_extractvalue(self, p, d):
        t, a = self.typed(p)
        ix = []
        while p.eat(","):
            ix.append(int(p.next()))

        def f(st, L):
            v = a(L)
            for i in ix:
                v = v[i]
            return v
        return ("set", d, f)

    def d_insertvalue(self, p, d):
        t, a = self.typed(p)
        p.need(",")
        _, b = self.typed(p)
        p.need(",")
        i = int(p.next())

        def f(st, L):
            v = list(a(L))
            v[i] = b(L)
            return v
        return ("set", d, f)

    def d_phi(self, p, d):
        t = self.m.type(p)
        src = {}
        while True:
            p.need("[")
            v = self.value(p, t)
            p.need(",")
            src[p.next()[1:]] = v
            p.need("]")
            if not p.eat(","):
                break
        src[None] = t
        return ("phi", d, src)

    def d_br(self, p, d):
        if p.eat("label"):
            return ("jmp", None, p.next()[1:])
        t, c = self.typed(p)
        p.need(",")
        p.need("label")
        a = p.next()[1:]
        p.need(",")
        p.need("label")
        return ("br", None, (c, a, p.next()[1:]))

    def d_switch(self, p, d):
        t, v = self.typed(p)
        p.need(",")
        p.need("label")
        dflt = p.next()[1:]
        cases = []
        p.need("[")
        while not p.eat("]"):
            ct = self.m.type(p)
            k = self.const(p, ct)
            p.need(",")
            p.need("label")
            cases.append((k, p.next()[1:]))
        return ("switch", None, (v, t[1], cases, dflt))

    def d_ret(self, p, d):
        if p.peek() == "void":
            return ("ret", None, None)
        t, v = self.typed(p)
        return ("ret", None, v)

    def d_unreachable(self, p, d):
        return ("trap", None, "unreachable code")

    def d_fence(self, p, d):
        return ("do", None, lambda st, L: None)

    def d_atomicrmw(self, p, d):
        p.eat("volatile")
        o = p.next()
        _, a = self.typed(p)
        p.need(",")
        t, v = self.typed(p)
        if o not in ("add", "sub"):
            raise Unsupported("IR: atomicrmw")

        def f(st, L):
            old = self.get(st, a(L), t)
            w = v(L)
            self.put(st, a(L), BIN[o](self, st, old, w, t[1]), t)
            return old
        return ("set", d, f)

    def d_call(self, p, d):
        while not is_type(p.peek()):
            p.next()
            if p.peek() == "(":
                p.skip_parens()
        rt = self.m.type(p)
        if p.peek() == "(":
            p.skip_parens()
        callee = p.next()
        p.need("(")
        args = []
        while not p.eat(")"):
            if p.eat("metadata"):
                return ("do", None, lambda st, L: None)
            t = self.m.type(p)
            while True:
                x = p.peek()
                if x in ("getelementptr", "ptrtoint", "inttoptr", "bitcast", "null", "undef", "poison", "true", "false", "zeroinitializer"):
                    break
                if re.match(r"^[a-z]", x) and not x.startswith('c"'):
                    p.next()
                    if p.peek() == "(":
                        p.skip_parens()
                    elif x == "align":
                        p.next()
                    continue
                break
            args.append((t, self.value(p, t)))
            p.eat(",")
        return ("call", d, (callee, args, rt))

    # ---- running -----------------------------------------------------------------
    def feasible(self, st, c):
        self.queries += 1
        r, _ = solve.check([c] + st.pc, 20000)
        return r != "unsat"

    def block(self, fn, b):
        k = (fn.name, b)
        if k not in self.code:
            self.code[k] = [self.decode(s) for s in self.merge(fn.blocks[b])]
        return self.code[k]

    @staticmethod
    def merge(lines):
        """switch tables run over several lines"""
        out, acc = [], None
        for s in lines:
            if acc is not None:
                acc += " " + s
                if s.startswith("]"):
                    out.append(acc)
                    acc = None
            elif s.startswith("switch") and "]" not in s:
                acc = s
            else:
                out.append(s)
        return out

    def run(self, st, name, args):
        """-> [(final state, returned value)] over all feasible paths; a Trap is a path's value"""
        st = st.copy()
        fn = self.m.fns[name if name.startswith("@") else "@" + name]
        st.frames = [Frame(fn, {n or "%%%d" % i: a for i, ((_, n), a) in enumerate(zip(fn.params, args))}, None)]
        done = []
        self.cut = 0
        todo = [st]
        while todo:
            self.explore(todo.pop(), None, done, todo)
        return done

    def explore(self, s, stop, done, todo=None):
        """run to the end (-> done), or to the start of block stop[1] at call depth stop[0] (-> returned)"""
        try:
            while s.frames:
                f = s.frames[-1]
                if stop and f.blk == stop[1] and len(s.frames) == stop[0] and f.i == self.nphi(f.fn, f.blk):
                    return [s]
                alts = self.step(s)
                if alts is None:
                    continue
                alts = [(c, b) for c, b in alts if self.feasible(s, c)]
                f = s.frames[-1]
                if not alts:
                    return []
                if len(alts) == 1:
                    s.pc.append(alts[0][0])
                    self.jump(s, f, alts[0][1])
                    continue
                if self.unroll is not None:
                    at = (f.fn.name, f.blk)
                    s.splits = dict(s.splits)
                    s.splits[at] = s.splits.get(at, 0) + 1
                    if s.splits[at] > self.unroll:
                        self.cut += 1
                        return []
                if not self.joining:
                    for k, (c, b) in enumerate(alts):
                        o = s if k == len(alts) - 1 else s.copy()
                        o.pc = o.pc + [c]
                        self.jump(o, o.frames[-1], b)
                        if k < len(alts) - 1:
                            todo.append(o)
                    if len(todo) + len(done) > 4000:
                        raise Unsupported("too many paths")
                    continue
                join = self.ipdom(f.fn).get(f.blk)
                here = (len(s.frames), join) if join else stop
                got = []
                for k, (c, b) in enumerate(alts):
                    o = s if k == len(alts) - 1 else s.copy()
                    o.pc = o.pc + [c]
                    self.jump(o, o.frames[-1], b)
                    got += self.explore(o, here, done)
                    if len(done) + len(got) > 4000:
                        raise Unsupported("too many paths")
                if not join:
                    return got
                got = self.merge_states(got)
                if not got:
                    return []
                if len(got) > 1:
                    r = []
                    for o in got:
                        r += self.explore(o, stop, done)
                    return r
                s = got[0]
            done.append((s, s.ret))
        except Cut:
            return []
        except Trap as e:
            done.append((s, e))
        except KeyError as e:
            raise Unsupported("a value lost by joining paths: %s" % e)
        return []

    def nphi(self, fn, b):
        k = (fn.name, b)
        if k not in self.nphis:
            self.nphis[k] = sum(1 for x in self.block(fn, b) if x[0] == "phi")
        return self.nphis[k]

    def ipdom(self, fn):
        if fn.name in self.pdom:
            return self.pdom[fn.name]
        succ, exits = {}, []
        for b in fn.blocks:
            k, _, x = self.block(fn, b)[-1]
            succ[b] = [x] if k == "jmp" else [x[1], x[2]] if k == "br" else [t for _, t in x[2]] + [x[3]] if k == "switch" else []
            if k == "ret":
                exits.append(b)
        alive = set(exits)
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                if b not in alive and any(t in alive for t in succ[b]):
                    alive.add(b)
                    ch = True
        pd = {b: set(alive) for b in alive}
        for b in exits:
            pd[b] = {b}
        order = [b for b in reversed(list(fn.blocks)) if b in alive and b not in exits]
        ch = True
        while ch:
            ch = False
            for b in order:
                n = set.intersection(*[pd[t] for t in succ[b] if t in alive]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        r = {}
        for b in alive:
            strict = pd[b] - {b}
            for d in strict:
                if len(pd[d]) == len(strict):  # the nearest one is post-dominated by all the others
                    r[b] = d
        self.pdom[fn.name] = r
        return r

    def merge_states(self, got):
        out = []
        for s in got:
            for k, o in enumerate(out):
                m = self.join(o, s)
                if m is not None:
                    out[k] = m
                    break
            else:
                out.append(s)
        return out

    def join(self, a, b):
        if a.top != b.top or len(a.draws) != len(b.draws) or any(x is not y for x, y in zip(a.draws, b.draws)) or len(a.alloc) != len(b.alloc):
            return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        c = z3.And(*a.pc[n:])
        f, g = a.frames[-1], b.frames[-1]
        ph = {x[1]: x[2][None] for x in self.block(f.fn, f.blk)[:f.i]}
        loc = {}
        for k, u in f.loc.items():
            if k not in g.loc:
                continue
            v = g.loc[k]
            if u is v or (conc(u) and conc(v) and type(u) is type(v) and u == v):
                loc[k] = u
                continue
            t = ph.get(k)
            r = self.ite(c, u, v, t)
            if r is not None:
                loc[k] = r
            elif t is not None:
                return None
        mem = a.mem
        diff = [k for k, v in b.mem.items() if mem.get(k) is not v and mem.get(k) != v] if a.mem is not b.mem else []
        new = {}
        for k in set(diff) | {k for k in mem if k not in b.mem}:
            u, v = mem.get(k), b.mem.get(k)
            if u is None or v is None:
                new[k] = u or v   # only written on one side: nothing reads it on the other, unless uninitialised
                if u is None:
                    u = (self.fresh(8), 0, 1)
                if v is None:
                    v = (self.fresh(8), 0, 1)
            if isinstance(u[0], float) or isinstance(v[0], float) or any(not conc(x[0]) and z3.is_fp(x[0]) for x in (u, v)):
                return None
            by = lambda e: z3.Extract(8 * e[1] + 7, 8 * e[1], bvv(e[0], 8 * e[2]))
            new[k] = (z3.If(c, by(u), by(v)), 0, 1)
        f.loc = loc
        a.mem.update(new)
        a.pc = a.pc[:n] + [z3.Or(c, z3.And(*b.pc[n:]))]
        s = solve.simp(a.pc[-1])
        if z3.is_true(s):
            a.pc.pop()
        return a

    @staticmethod
    def ite(c, u, v, t):
        if isinstance(u, (list, float)) or isinstance(v, (list, float)):
            return None
        if t is None:
            e = next((x for x in (u, v) if not conc(x)), None)
            if e is None:
                return None
            t = ("i", 1) if z3.is_bool(e) else ("i", e.size()) if z3.is_bv(e) else None
            if t is None:
                return None
        if t == ("i", 1):
            return z3.If(c, boolv(u), boolv(v))
        if t[0] == "i":
            return z3.If(c, bvv(u, t[1]), bvv(v, t[1]))
        if t in ("double", "float"):
            return z3.If(c, fpv(u, t), fpv(v, t))
        return None

    def jump(self, s, f, to):
        f.prev, f.blk, f.i = f.blk, to, 0
        code = self.block(f.fn, to)
        new = []
        k = 0
        while k < len(code) and code[k][0] == "phi":
            src = code[k][2]
            new.append((code[k][1], src[f.prev if f.prev in src else self.alias(f, src)](f.loc)))
            k += 1
        for d, v in new:
            f.loc[d] = v
        f.i = k

    @staticmethod
    def alias(f, src):
        # the entry block is unnamed in the text: it is the one number nothing else has
        left = [x for x in src if x is not None and x not in f.fn.blocks]
        if len(left) == 1:
            return left[0]
        raise Unsupported("IR: phi source")

    def step(self, s):
        self.steps += 1
        if self.steps > self.limit:
            raise Unsupported("too many steps")
        f = s.frames[-1]
        self.seen.add(f.fn.name)
        k, d, x = self.block(f.fn, f.blk)[f.i]
        f.i += 1
        if k == "set":
            f.loc[d] = x(s, f.loc)
        elif k == "do":
            x(s, f.loc)
        elif k == "jmp":
            self.jump(s, f, x)
        elif k == "br":
            c = x[0](f.loc)
            if not conc(c):
                c = solve.simp(boolv(c))
                if z3.is_true(c) or z3.is_false(c):
                    c = z3.is_true(c)
            if conc(c):
                self.jump(s, f, x[1] if c else x[2])
                return None
            if self.merged(s, f, c, x[1], x[2]):
                return None
            return [(c, x[1]), (z3.Not(c), x[2])]
        elif k == "switch":
            v, n, cases, dflt = x
            v = v(f.loc)
            if conc(v):
                self.jump(s, f, dict(cases).get(v, dflt))
                return None
            return [(bvv(v, n) == z3.BitVecVal(k, n), b) for k, b in cases] + [(z3.And(*[bvv(v, n) != z3.BitVecVal(k, n) for k, _ in cases]), dflt)]
        elif k == "ret":
            r = x(f.loc) if x else None
            s.frames.pop()
            if s.frames:
                if f.dest:
                    s.frames[-1].loc[f.dest] = r
            else:
                s.ret = r
        elif k == "call":
            self.call(s, f, d, *x)
        elif k == "trap":
            raise Trap(x)
        else:
            raise Unsupported("IR: %s" % k)
        return None

    def arm(self, f, b):
        """the block's instructions when it only computes values, and where it goes next"""
        code = self.block(f.fn, b)
        if len(code) <= 12 and code[-1][0] == "jmp" and all(k == "set" for k, _, _ in code[:-1]):
            return code[:-1], code[-1][2]
        return None, None

    def merged(self, s, f, c, a, b):
        """both arms of a small branch, joined by conditional values"""
        ca, ja = self.arm(f, a)
        cb, jb = self.arm(f, b)
        if ca is not None and ja == b:
            arms, join = ((ca, a), ([], f.blk)), b
        elif cb is not None and jb == a:
            arms, join = (([], f.blk), (cb, b)), a
        elif ca is not None and cb is not None and ja == jb:
            arms, join = ((ca, a), (cb, b)), ja
        else:
            return False
        code = self.block(f.fn, join)
        phis = [x for x in code if x[0] == "phi"]
        vals = []
        try:
            for ins, frm in arms:
                L = dict(f.loc)
                for _, d, x in ins:
                    L[d] = x(s, L)
                vals.append([x[2][frm if frm in x[2] else self.alias(f, x[2])](L) for x in phis])
        except Trap:
            return False
        out = []
        for u, v, x in zip(*vals, phis):
            t = x[2][None]
            if u is v or (conc(u) and conc(v) and type(u) is type(v) and u == v):
                out.append(u)
            elif t == ("i", 1):
                out.append(z3.If(c, boolv(u), boolv(v)))
            elif t[0] == "i":
                out.append(z3.If(c, bvv(u, t[1]), bvv(v, t[1])))
            elif t in ("double", "float"):
                out.append(z3.If(c, fpv(u, t), fpv(v, t)))
            else:
                return False
        for (_, d, _), v in zip(phis, out):
            f.loc[d] = v
        f.prev, f.blk, f.i = arms[0][1], join, len(phis)
        return True

    def call(self, s, f, d, callee, args, rt):
        if callee.startswith("%"):
            t = f.loc[callee]
            fn = self.fn_at.get(t)
            if fn is None:
                raise Trap("call through a bad pointer")
        else:
            fn = self.m.fns.get(callee)
        av = [a(f.loc) for _, a in args]
        if fn is not None and fn.name not in OVERRIDE:
            loc = {}
            n = 0
            for (t, nm), a in zip(fn.params, av):
                loc[nm if nm else "%%%d" % n] = a
                n += 1
            s.frames.append(Frame(fn, loc, d))
            return
        r = self.external((fn.name if fn else callee).strip('@"'), s, args, av, rt)
        if d:
            f.loc[d] = r

    def external(self, n, s, args, av, rt):
        if n.startswith("llvm."):
            return self.intrinsic(n[5:], s, args, av)
        if n in ("malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t"):
            return self.new(s, av[0])
        if n in ("free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "__cxa_guard_release", "_ZdlPvSt11align_val_t"):
            if n == "__cxa_guard_release":
                self.put(s, av[0], 1, ("i", 8))
            return None
        if n == "__cxa_guard_acquire":
            v = self.get(s, av[0], ("i", 8))
            return 0 if v == 1 else 1
        if n == "tfv_check_failed":
            raise Trap("CHECK failed")
        if n == "sodium_init":
            return 0
        if n in ("_ZNSt8ios_base4InitC1Ev", "__cxa_atexit"):
            return 0
        if n == "memcmp" or n == "bcmp":
            a = [self.get(s, av[0] + i, ("i", 8)) for i in range(av[2])]
            b = [self.get(s, av[1] + i, ("i", 8)) for i in range(av[2])]
            if all(conc(x) for x in a + b):
                return 0 if a == b else 1
            raise Unsupported("memcmp of symbolic bytes")
        if n == "strlen":
            k = 0
            while self.get(s, av[0] + k, ("i", 8)) != 0:
                k += 1
            return k
        if n in ("memcpy", "memmove"):
            self.copy(s, av[0], av[1], av[2])
            return av[0]
        if n == "memset":
            self.fill(s, av[0], av[1], av[2])
            return av[0]
        if n.startswith("_ZSt") and "throw" in n:
            raise Trap("throws")
        if self.draw:
            r = self.draw(self, s, n, av)
            if r is not NotImplemented:
                return r
        raise Unsupported("call of %s" % n)

    def copy(self, s, d, a, n):
        if not conc(n):
            raise Unsupported("symbolic length")
        if n:
            self.check(s, a, n)
            self.check(s, d, n)
        bs = []
        for i in range(n):
            e = s.mem.get(a + i)
            if e is None:
                e = s.mem[a + i] = (self.fresh(8), 0, 1)
            bs.append(e)
        for i, e in enumerate(bs):
            s.mem[d + i] = e

    def fill(self, s, d, v, n):
        if not conc(n) or not conc(v):
            raise Unsupported("symbolic memset")
        if n:
            self.check(s, d, n)
        for i in range(n):
            s.mem[d + i] = (v & 255, 0, 1)

    def intrinsic(self, n, s, args, av):
        k = n.split(".")[0]
        if k in ("lifetime", "experimental", "prefetch", "assume", "dbg", "invariant", "donothing", "va_start"):
            return None
        if k in ("memcpy", "memmove"):
            return self.copy(s, av[0], av[1], av[2])
        if k == "memset":
            return self.fill(s, av[0], av[1], av[2])
        if k == "trap":
            raise Trap("trap")
        t = args[0][0]
        w = t[1] if t[0] == "i" else None
        a = av[0]
        if k in ("smax", "smin", "umax", "umin"):
            b = av[1]
            c = icmp({"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[k], a, b, w)
            if conc(c):
                return a if c else b
            return z3.If(c, bvv(a, w), bvv(b, w))
        if k == "abs":
            if conc(a):
                return abs(sgn(a, w)) & ((1 << w) - 1)
            return z3.If(a < 0, -a, a)
        if k == "bitreverse":
            if conc(a):
                return int(format(a, "0%db" % w)[::-1], 2)
            return z3.Concat(*[z3.Extract(i, i, a) for i in range(w)])
        if k == "bswap":
            if conc(a):
                return int.from_bytes(a.to_bytes(w // 8, "little"), "big")
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)])
        if k == "ctpop":
            if conc(a):
                return bin(a).count("1")
            return sum([z3.ZeroExt(w - 1, z3.Extract(i, i, a)) for i in range(w)], z3.BitVecVal(0, w))
        if k in ("ctlz", "cttz"):
            if conc(a):
                return w - a.bit_length() if k == "ctlz" else ((a & -a).bit_length() - 1 if a else w)
            r = z3.BitVecVal(w, w)
            for i in (range(w) if k == "ctlz" else reversed(range(w))):
                r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i if k == "ctlz" else i, w), r)
            return r
        if k in ("fshl", "fshr"):
            b, c = av[1], av[2]
            if not conc(c):
                raise Unsupported("funnel shift by a symbolic amount")
            c %= w
            if k == "fshr":
                c = (w - c) % w
                if c == 0:
                    return b
            x = z3.Concat(bvv(a, w), bvv(b, w))
            r = z3.simplify(z3.Extract(2 * w - 1 - c, w - c, x))
            return r.as_long() if z3.is_bv_value(r) else r
        if k == "fabs" and conc(a):
            return abs(a)
        if k == "fmuladd":
            from .sym import f_bin
            dt = "float64" if t == "double" else "float32"
            return f_bin("+", f_bin("*", a, av[1], dt), av[2], dt)
        if k in ("trunc", "floor", "ceil", "rint", "nearbyint", "round", "roundeven") and t in ("double", "float") and not conc(a):
            rm = {"trunc": z3.RTZ, "floor": z3.RTN, "ceil": z3.RTP, "round": z3.RNA}.get(k, z3.RNE)()
            return z3.fpRoundToIntegral(rm, a)
        if k in ("uadd", "usub", "umul", "sadd", "ssub", "smul") and "with.overflow" in n:
            b = av[1]
            sg = k[0] == "s"
            ext = z3.SignExt if sg else z3.ZeroExt
            x, y = ext(w, bvv(a, w)), ext(w, bvv(b, w))
            r = {"add": x + y, "sub": x - y, "mul": x * y}[k[1:]]
            lo = z3.simplify(z3.Extract(w - 1, 0, r))
            ov = z3.simplify(ext(w, lo) != r)
            return [lo.as_long() if z3.is_bv_value(lo) else lo, (int(z3.is_true(ov)) if z3.is_true(ov) or z3.is_false(ov) else ov)]
        raise Unsupported("intrinsic %s" % n)


class Cut(Exception):
    """a path nothing can take (or beyond the stated bound)"""


OVERRIDE = set()
CASTS = ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc")


def cast(op, v, t, u):
    if op == "trunc":
        n = u[1]
        if conc(v):
            return v & ((1 << n) - 1)
        return z3.Extract(0, 0, v) == 1 if n == 1 else z3.Extract(n - 1, 0, v)
    if op in ("zext", "sext"):
        n, w = t[1], u[1]
        if conc(v):
            return v if op == "zext" else sgn(v, n) & ((1 << w) - 1)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1 if op == "zext" else -1, w), z3.BitVecVal(0, w))
        return (z3.ZeroExt if op == "zext" else z3.SignExt)(w - n, v)
    if op in ("ptrtoint", "inttoptr"):
        return v
    if op == "bitcast":
        if t == u:
            return v
        raise Unsupported("IR: bitcast %s to %s" % (t, u))
    srt = lambda x: z3.Float64() if x == "double" else z3.Float32()
    if op in ("sitofp", "uitofp"):
        if conc(v):
            r = float(sgn(v, t[1]) if op == "sitofp" else v)
            return r if u == "double" else struct.unpack("<f", struct.pack("<f", r))[0]
        return (z3.fpSignedToFP if op == "sitofp" else z3.fpUnsignedToFP)(z3.RNE(), bvv(v, t[1]), srt(u))
    if op in ("fptosi", "fptoui"):
        if conc(v):
            return int(v) & ((1 << u[1]) - 1)
        return (z3.fpToSBV if op == "fptosi" else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(u[1]))
    if op in ("fpext", "fptrunc"):
        if conc(v):
            return v if u == "double" else struct.unpack("<f", struct.pack("<f", v))[0]
        return z3.fpFPToFP(z3.RNE(), v, srt(u))
    raise Unsupported("IR: %s" % op)


def icmp(c, a, b, n):
    if conc(a) and conc(b):
        if c[0] == "s":
            a, b = sgn(a, n), sgn(b, n)
        return int({"eq": a == b, "ne": a != b, "gt": a > b, "lt": a < b, "ge": a >= b, "le": a <= b}[c if c in ("eq", "ne") else c[1:]])
    if n == 1:
        x = boolv(a) == boolv(b)
        if c in ("eq", "ne"):
            return x if c == "eq" else z3.Not(x)
        raise Unsupported("order of booleans")
    a, b = bvv(a, n), bvv(b, n)
    return {"eq": lambda: a == b, "ne": lambda: a != b, "sgt": lambda: a > b, "slt": lambda: a < b,
            "sge": lambda: a >= b, "sle": lambda: a <= b, "ugt": lambda: z3.UGT(a, b), "ult": lambda: z3.ULT(a, b),
            "uge": lambda: z3.UGE(a, b), "ule": lambda: z3.ULE(a, b)}[c]()


def _bin(cf, zf):
    def g(m, st, a, b, n):
        if conc(a) and conc(b):
            return cf(a, b, n) & ((1 << n) - 1)
        return zf(bvv(a, n), bvv(b, n))
    return g


def _logic(cf, zf, bf):
    def g(m, st, a, b, n):
        if conc(a) and conc(b):
            return cf(a, b) & ((1 << n) - 1)
        if n == 1:
            return bf(boolv(a), boolv(b))
        return zf(bvv(a, n), bvv(b, n))
    return g


def _div(cf, zf):
    def g(m, st, a, b, n):
        if conc(b):
            if b == 0:
                raise Trap("division by zero")
            if conc(a):
                return cf(a, b, n) & ((1 << n) - 1)
        elif m.feasible(st, b == 0):
            raise Trap("division by zero")
        return zf(bvv(a, n), bvv(b, n))
    return g


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _shift(cf, zf):
    def g(m, st, a, b, n):
        if conc(b) and b >= n:
            return m.fresh(n)  # poison
        if conc(a) and conc(b):
            return cf(a, b, n) & ((1 << n) - 1)
        return zf(bvv(a, n), bvv(b, n))
    return g


BIN = {
    "add": _bin(lambda a, b, n: a + b, lambda a, b: a + b), "sub": _bin(lambda a, b, n: a - b, lambda a, b: a - b),
    "mul": _bin(lambda a, b, n: a * b, lambda a, b: a * b),
    "and": _logic(lambda a, b: a & b, lambda a, b: a & b, z3.And), "or": _logic(lambda a, b: a | b, lambda a, b: a | b, z3.Or),
    "xor": _logic(lambda a, b: a ^ b, lambda a, b: a ^ b, z3.Xor),
    "udiv": _div(lambda a, b, n: a // b, z3.UDiv), "urem": _div(lambda a, b, n: a % b, z3.URem),
    "sdiv": _div(lambda a, b, n: _tdiv(sgn(a, n), sgn(b, n)), lambda a, b: a / b),
    "srem": _div(lambda a, b, n: sgn(a, n) - sgn(b, n) * _tdiv(sgn(a, n), sgn(b, n)), z3.SRem),
    "shl": _shift(lambda a, b, n: a << b, lambda a, b: a << b),
    "lshr": _shift(lambda a, b, n: a >> b, z3.LShR),
    "ashr": _shift(lambda a, b, n: sgn(a, n) >> b, lambda a, b: a >> b),
}
