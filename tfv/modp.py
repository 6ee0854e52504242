"""Bit-vector terms as polynomials modulo a small number over bits and bounded variables."""
from .boot import z3
from .sym import Unsupported


class PolyMod:
    """poly(e): {monomial (sorted tuple of atom names) -> coefficient} congruent to the signed
    value of e modulo p, with the exact interval of that value; refuses terms that may wrap."""

    def __init__(self, p, ranges=None):
        self.p = p
        self.ranges = ranges or {}     # name -> (lo, hi)
        self.atom = {}                 # name -> expression
        self.bits = set()
        self.memo = {}

    def bit(self, c):
        n = "b%d" % c.get_id()
        self.atom[n] = c
        self.bits.add(n)
        return n

    def clean(self, d):
        return {k: v % self.p for k, v in d.items() if v % self.p}

    def add(self, a, b, s=1):
        d = dict(a)
        for k, v in b.items():
            d[k] = d.get(k, 0) + s * v
        return self.clean(d)

    def mul(self, a, b):
        d = {}
        for k, v in a.items():
            for j, w in b.items():
                m = list(k)
                for x in j:
                    if not (x in self.bits and x in m):
                        m.append(x)
                m = tuple(sorted(m))
                d[m] = d.get(m, 0) + v * w
        return self.clean(d)

    def chk(self, lo, hi, n):
        if lo < -(1 << (n - 1)) or hi >= 1 << (n - 1):
            raise Unsupported("a residue computation may wrap around")
        return lo, hi

    def poly(self, e):
        i = e.get_id()
        if i not in self.memo:
            self.memo[i] = self._poly(e), e
        return self.memo[i][0]

    def _poly(self, e):
        n = e.size()
        k = e.decl().kind()
        ch = e.children()
        if z3.is_bv_value(e):
            v = e.as_signed_long()
            return self.clean({(): v}), v, v
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG):
            d, lo, hi = {}, 0, 0
            for j, c in enumerate(ch):
                q, a, b = self.poly(c)
                if k == z3.Z3_OP_BNEG or (k == z3.Z3_OP_BSUB and j):
                    d = self.add(d, q, -1)
                    lo, hi = lo - b, hi - a
                else:
                    d = self.add(d, q)
                    lo, hi = lo + a, hi + b
            return (d,) + self.chk(lo, hi, n)
        if k == z3.Z3_OP_BMUL:
            d, lo, hi = {(): 1}, 1, 1
            for c in ch:
                q, a, b = self.poly(c)
                d = self.mul(d, q)
                v = [lo * a, lo * b, hi * a, hi * b]
                lo, hi = min(v), max(v)
            return (d,) + self.chk(lo, hi, n)
        if k in (z3.Z3_OP_BSMOD, z3.Z3_OP_BSMOD_I) and z3.is_bv_value(ch[1]) and ch[1].as_long() == self.p:
            return self.poly(ch[0])[0], 0, self.p - 1
        if k == z3.Z3_OP_ITE:
            a, b = self.poly(ch[1]), self.poly(ch[2])
            c = {(self.bit(ch[0]),): 1}
            d = self.add(self.mul(c, self.add(a[0], b[0], -1)), b[0])
            return d, min(a[1], b[1]), max(a[2], b[2])
        if k == z3.Z3_OP_CONCAT and z3.is_bv_value(ch[0]) and ch[0].as_long() == 0 and len(ch) == 2 and ch[1].size() == 1:
            return {(self.bit(z3.simplify(ch[1] == 1)),): 1}, 0, 1
        if z3.is_const(e) and str(e) in self.ranges:
            self.atom[str(e)] = e
            return ({(str(e),): 1},) + self.ranges[str(e)]
        raise Unsupported("not a residue term: " + str(e.decl()))


def top_mods(e, p):
    """the outermost remainders modulo p inside e"""
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() in (z3.Z3_OP_BSMOD, z3.Z3_OP_BSMOD_I) and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() == p:
            out.append(x)
            continue
        stack += x.children()
    return out
