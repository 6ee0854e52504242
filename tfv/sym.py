"""Symbolic executor for TensorFlow graphs.

The graph is produced by running the repository's own Python code, so the graph *is* the
intermediate representation of the implementation.  Every element of a tensor is either a
concrete Python number or a z3 term (bit-vector for integers, Bool, or IEEE FP).

Integers are kept as unsigned residues modulo 2**bits when concrete.
"""
import itertools

import numpy as np

from .boot import tf
from .boot import z3

BITS = {
    "int8": 8, "int16": 16, "int32": 32, "int64": 64,
    "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64,
}
SIGNED = {"int8", "int16", "int32", "int64"}
FP = {"float32": None, "float64": None, "double": None, "float": None}


class Unsupported(Exception):
    """The encoding does not cover an operation that was met."""


def fpsort(dt):
    return z3.Float32() if dt == "float32" else z3.Float64()


class Sym:
    """Tensor with at least potentially symbolic elements."""

    __slots__ = ("dt", "a")

    def __init__(self, dt, a):
        self.dt = dt
        self.a = a

    @property
    def shape(self):
        return self.a.shape

    def __repr__(self):
        return "Sym(%s,%s)" % (self.dt, self.a.shape)


def obj(shape):
    return np.empty(shape, dtype=object)


def to_obj(arr, dt):
    """concrete ndarray -> object array of canonical elements"""
    arr = np.asarray(arr)
    out = obj(arr.shape)
    if dt in BITS:
        m = (1 << BITS[dt]) - 1
        f = lambda v: int(v) & m
    elif dt == "bool":
        f = bool
    else:
        f = float
    flat = out.reshape(-1) if out.shape else None
    if out.shape == ():
        out[()] = f(arr[()])
        return out
    src = arr.reshape(-1)
    for i in range(src.shape[0]):
        flat[i] = f(src[i])
    return flat.reshape(arr.shape)


def is_conc(v):
    return not isinstance(v, z3.ExprRef)


def signed(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def all_conc(s):
    return all(is_conc(v) for v in s.a.flat)


def to_np(s):
    """Sym with all concrete elements -> ndarray"""
    dt = s.dt
    if dt in SIGNED:
        n = BITS[dt]
        flat = [signed(v, n) for v in s.a.flat]
    else:
        flat = list(s.a.flat)
    return np.array(flat, dtype=np.dtype(dt)).reshape(s.a.shape)


def lift(x, dt=None):
    """ndarray/Sym -> Sym"""
    if isinstance(x, Sym):
        return x
    x = np.asarray(x)
    d = dt or x.dtype.name
    return Sym(d, to_obj(x, d))


def norm(s):
    """Return ndarray when everything is concrete."""
    if isinstance(s, Sym) and s.dt in list(BITS) + ["bool", "float32", "float64"]:
        if all_conc(s):
            return to_np(s)
    return s


def bv(v, n):
    return z3.BitVecVal(v, n) if is_conc(v) else v


def bl(v):
    return z3.BoolVal(v) if is_conc(v) else v


def fp(v, dt):
    return z3.FPVal(v, fpsort(dt)) if is_conc(v) else v


# ---------------------------------------------------------------- scalar operations
def s_add(a, b, n):
    if is_conc(a) and is_conc(b):
        return (a + b) & ((1 << n) - 1)
    if is_conc(a) and a == 0:
        return b
    if is_conc(b) and b == 0:
        return a
    return bv(a, n) + bv(b, n)


def s_sub(a, b, n):
    if is_conc(a) and is_conc(b):
        return (a - b) & ((1 << n) - 1)
    if is_conc(b) and b == 0:
        return a
    return bv(a, n) - bv(b, n)


def s_mul(a, b, n):
    if is_conc(a) and is_conc(b):
        return (a * b) & ((1 << n) - 1)
    for u, v in ((a, b), (b, a)):
        if is_conc(u):
            if u == 0:
                return 0
            if u == 1:
                return v
    return bv(a, n) * bv(b, n)


def s_neg(a, n):
    return (-a) & ((1 << n) - 1) if is_conc(a) else -a


def s_and(a, b, n):
    if is_conc(a) and is_conc(b):
        return a & b
    m = (1 << n) - 1
    for u, v in ((a, b), (b, a)):
        if is_conc(u):
            if u == 0:
                return 0
            if u == m:
                return v
    return bv(a, n) & bv(b, n)


def s_or(a, b, n):
    if is_conc(a) and is_conc(b):
        return a | b
    for u, v in ((a, b), (b, a)):
        if is_conc(u) and u == 0:
            return v
    return bv(a, n) | bv(b, n)


def s_xor(a, b, n):
    if is_conc(a) and is_conc(b):
        return a ^ b
    for u, v in ((a, b), (b, a)):
        if is_conc(u) and u == 0:
            return v
    return bv(a, n) ^ bv(b, n)


def s_inv(a, n):
    return a ^ ((1 << n) - 1) if is_conc(a) else ~a


def s_shl(a, k, n):
    """TensorFlow semantics: the amount is clamped to [0, n-1]."""
    if is_conc(k):
        k = min(max(signed(k, n), 0), n - 1)
        if is_conc(a):
            return (a << k) & ((1 << n) - 1)
        return a << z3.BitVecVal(k, n)
    kk = z3.If(k < 0, z3.BitVecVal(0, n), z3.If(k > n - 1, z3.BitVecVal(n - 1, n), k))
    return bv(a, n) << kk


def s_shr(a, k, n, sgn):
    if is_conc(k):
        k = min(max(signed(k, n), 0), n - 1)
        if is_conc(a):
            return ((signed(a, n) if sgn else a) >> k) & ((1 << n) - 1)
        return (a >> z3.BitVecVal(k, n)) if sgn else z3.LShR(a, z3.BitVecVal(k, n))
    kk = z3.If(k < 0, z3.BitVecVal(0, n), z3.If(k > n - 1, z3.BitVecVal(n - 1, n), k))
    a = bv(a, n)
    return (a >> kk) if sgn else z3.LShR(a, kk)


def s_cmp(op, a, b, n, sgn):
    if is_conc(a) and is_conc(b):
        if sgn:
            a, b = signed(a, n), signed(b, n)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b,
                "==": a == b, "!=": a != b}[op]
    a, b = bv(a, n), bv(b, n)
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if sgn:
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    return {"<": z3.ULT(a, b), "<=": z3.ULE(a, b), ">": z3.UGT(a, b), ">=": z3.UGE(a, b)}[op]


def s_ite(c, a, b, dt):
    if is_conc(c):
        return a if c else b
    if is_conc(a) and is_conc(b) and a == b:
        return a
    if dt in BITS:
        n = BITS[dt]
        return z3.If(c, bv(a, n), bv(b, n))
    if dt == "bool":
        return z3.If(c, bl(a), bl(b))
    return z3.If(c, fp(a, dt), fp(b, dt))


def s_floormod(a, b, n, sgn):
    if is_conc(a) and is_conc(b):
        if sgn:
            a, b = signed(a, n), signed(b, n)
        return (a % b) & ((1 << n) - 1)
    a, b = bv(a, n), bv(b, n)
    if not sgn:
        return z3.URem(a, b)
    if z3.is_bv_value(b) and b.as_signed_long() > 0:
        v = b.as_signed_long()
        if v & (v - 1) == 0:
            return a & z3.BitVecVal(v - 1, n)
    # floor modulo == SMT-LIB bvsmod (sign follows divisor)
    return a % b


def s_floordiv(a, b, n, sgn):
    if is_conc(a) and is_conc(b):
        if sgn:
            a, b = signed(a, n), signed(b, n)
        return (a // b) & ((1 << n) - 1)
    a, b = bv(a, n), bv(b, n)
    if not sgn:
        return z3.UDiv(a, b)
    q = a / b
    r = z3.SRem(a, b)
    return z3.If(z3.And(r != 0, (r < 0) != (b < 0)), q - 1, q)


def s_truncdiv(a, b, n, sgn):
    if is_conc(a) and is_conc(b):
        if sgn:
            a, b = signed(a, n), signed(b, n)
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & ((1 << n) - 1)
    a, b = bv(a, n), bv(b, n)
    return (a / b) if sgn else z3.UDiv(a, b)


RNE = lambda: z3.RNE()


def s_cast(v, src, dst):
    if src == dst:
        return v
    if src in BITS:
        n = BITS[src]
        if dst in BITS:
            m = BITS[dst]
            if is_conc(v):
                return (signed(v, n) if src in SIGNED else v) & ((1 << m) - 1)
            if m == n:
                return v
            if m < n:
                return z3.Extract(m - 1, 0, v)
            return z3.SignExt(m - n, v) if src in SIGNED else z3.ZeroExt(m - n, v)
        if dst == "bool":
            return v != 0 if is_conc(v) else v != z3.BitVecVal(0, n)
        if dst in FP:
            if is_conc(v):
                return float(np.dtype(dst).type(signed(v, n) if src in SIGNED else v))
            f = z3.fpSignedToFP if src in SIGNED else z3.fpUnsignedToFP
            return f(RNE(), v, fpsort(dst))
    if src == "bool":
        if dst in BITS:
            m = BITS[dst]
            if is_conc(v):
                return int(v)
            return z3.If(v, z3.BitVecVal(1, m), z3.BitVecVal(0, m))
        if dst in FP:
            if is_conc(v):
                return float(v)
            return z3.If(v, z3.FPVal(1.0, fpsort(dst)), z3.FPVal(0.0, fpsort(dst)))
    if src in FP:
        if dst in FP:
            if is_conc(v):
                return float(np.dtype(dst).type(v))
            return z3.fpFPToFP(RNE(), v, fpsort(dst))
        if dst in BITS:
            m = BITS[dst]
            if is_conc(v):
                return int(np.dtype(src).type(v)) & ((1 << m) - 1)
            return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(m))
        if dst == "bool":
            if is_conc(v):
                return v != 0.0
            return z3.Not(z3.fpIsZero(v))
    raise Unsupported("cast %s->%s" % (src, dst))


def f_bin(op, a, b, dt):
    if is_conc(a) and is_conc(b):
        t = np.dtype(dt).type
        x, y = t(a), t(b)
        with np.errstate(all="ignore"):
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                 "/": lambda: x / y, "<": lambda: x < y, "<=": lambda: x <= y,
                 ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y,
                 "!=": lambda: x != y, "max": lambda: max(x, y), "min": lambda: min(x, y)}[op]()
        return bool(r) if isinstance(r, (bool, np.bool_)) else float(r)
    a, b = fp(a, dt), fp(b, dt)
    if op in "+-*/":
        return {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}[op](RNE(), a, b)
    if op == "max":
        return z3.fpMax(a, b)
    if op == "min":
        return z3.fpMin(a, b)
    return {"<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ,
            "==": z3.fpEQ, "!=": z3.fpNEQ}[op](a, b)


# ---------------------------------------------------------------- tensor helpers
def bmap(f, *arrs):
    """broadcasting elementwise map"""
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else [arrs[0]]
    out = obj(bs[0].shape)
    if out.shape == ():
        out[()] = f(*[x[()] for x in bs])
        return out
    it = [x.reshape(-1) for x in bs]
    of = obj(it[0].shape)
    for i in range(of.shape[0]):
        of[i] = f(*[x[i] for x in it])
    return of.reshape(out.shape)


def reduce_axes(arr, axes, keep, f, init=None):
    nd = arr.ndim
    axes = sorted({a % nd if nd else 0 for a in axes}) if nd else []
    rest = [i for i in range(nd) if i not in axes]
    t = np.transpose(arr, rest + axes)
    t = t.reshape([arr.shape[i] for i in rest] + [-1])
    out = obj(t.shape[:-1])
    for idx in np.ndindex(*t.shape[:-1]):
        vals = list(t[idx])
        if not vals:
            acc = init
        else:
            acc = vals[0]
            for v in vals[1:]:
                acc = f(acc, v)
        out[idx] = acc
    if keep:
        out = out.reshape([1 if i in axes else arr.shape[i] for i in range(nd)])
    return out


def bin_scalar(dt, op):
    if dt in BITS:
        n, sg = BITS[dt], dt in SIGNED
        return {
            "+": lambda a, b: s_add(a, b, n), "-": lambda a, b: s_sub(a, b, n),
            "*": lambda a, b: s_mul(a, b, n), "&": lambda a, b: s_and(a, b, n),
            "|": lambda a, b: s_or(a, b, n), "^": lambda a, b: s_xor(a, b, n),
            "<<": lambda a, b: s_shl(a, b, n), ">>": lambda a, b: s_shr(a, b, n, sg),
            "fm": lambda a, b: s_floormod(a, b, n, sg),
            "fd": lambda a, b: s_floordiv(a, b, n, sg),
            "td": lambda a, b: s_truncdiv(a, b, n, sg),
            "max": lambda a, b: s_ite(s_cmp(">=", a, b, n, sg), a, b, dt),
            "min": lambda a, b: s_ite(s_cmp("<=", a, b, n, sg), a, b, dt),
            "/": lambda a, b: s_truncdiv(a, b, n, sg),
            "<": lambda a, b: s_cmp("<", a, b, n, sg), "<=": lambda a, b: s_cmp("<=", a, b, n, sg),
            ">": lambda a, b: s_cmp(">", a, b, n, sg), ">=": lambda a, b: s_cmp(">=", a, b, n, sg),
            "==": lambda a, b: s_cmp("==", a, b, n, sg), "!=": lambda a, b: s_cmp("!=", a, b, n, sg),
        }[op]
    if dt == "bool":
        def land(a, b):
            if is_conc(a):
                return b if a else False
            if is_conc(b):
                return a if b else False
            return z3.And(a, b)

        def lor(a, b):
            if is_conc(a):
                return True if a else b
            if is_conc(b):
                return True if b else a
            return z3.Or(a, b)

        def lne(a, b):
            if is_conc(a) and is_conc(b):
                return a != b
            if is_conc(a):
                return z3.Not(b) if a else b
            if is_conc(b):
                return z3.Not(a) if b else a
            return z3.Xor(a, b)

        def leq(a, b):
            r = lne(a, b)
            return (not r) if is_conc(r) else z3.Not(r)

        return {"&": land, "|": lor, "==": leq, "!=": lne, "^": lne}[op]
    return lambda a, b: f_bin(op, a, b, dt)


BINOPS = {
    "Add": "+", "AddV2": "+", "Sub": "-", "Mul": "*", "MulNoNan": "*", "RealDiv": "/",
    "Div": "/", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXor": "^",
    "LeftShift": "<<", "RightShift": ">>", "FloorMod": "fm", "FloorDiv": "fd",
    "TruncateDiv": "td", "Maximum": "max", "Minimum": "min",
    "LogicalAnd": "&", "LogicalOr": "|",
}
CMPOPS = {"Equal": "==", "NotEqual": "!=", "Less": "<", "LessEqual": "<=",
          "Greater": ">", "GreaterEqual": ">="}

# op -> (names of inputs that carry data); every other input must be concrete
MOVES = {
    "Transpose": ["x"], "Reshape": ["tensor"], "StridedSlice": ["input"],
    "Slice": ["input"], "GatherV2": ["params"], "Gather": ["params"],
    "GatherNd": ["params"], "ConcatV2": ["values"], "Concat": ["values"], "Pack": ["values"],
    "Unpack": ["value"], "Split": ["value"], "SplitV": ["value"],
    "ExpandDims": ["input"], "Squeeze": ["input"], "Tile": ["input"],
    "ReverseV2": ["tensor"], "Reverse": ["tensor"], "Roll": ["input"],
    "BatchToSpaceND": ["input"], "SpaceToBatchND": ["input"],
    "BatchToSpace": ["input"], "SpaceToBatch": ["input"],
    "ExtractImagePatches": ["images"], "BroadcastTo": ["input"],
    "Pad": ["input"], "MirrorPad": ["input"], "DepthToSpace": ["input"],
    "SpaceToDepth": ["input"], "MatrixDiagPartV3": ["input"], "DiagPart": ["input"],
    "MatrixDiagPart": ["input"], "ReverseSequence": ["input"],
    "TensorScatterUpdate": ["tensor", "updates"], "DynamicStitch": ["data"],
    "ParallelDynamicStitch": ["data"], "BatchGatherV2": ["params"],
    "MatrixTranspose": ["x"],
}
IDENT = {"Identity", "StopGradient", "Snapshot", "PreventGradient", "CheckNumerics",
         "EnsureShape", "PlaceholderWithDefault", "ReadVariableOp", "IdentityN"}

RANDOM = {"SecureSeededRandomUniform", "I128SecureSeededRandomUniform",
          "SecureRandomUniform", "I128SecureRandomUniform", "RandomUniformInt",
          "StatelessRandomUniformIntV2", "StatelessRandomUniformInt", "SecureSeed",
          "RandomUniform", "StatelessRandomUniformFullIntV2", "StatelessRandomUniformFullInt",
          "RandomShuffle"}


def raw_run(op, inputs, attrs):
    """Execute the op for real in eager mode on concrete inputs -> list of ndarrays."""
    outs = _eager_exec(op, inputs, attrs)
    return outs


def _eager_exec(op, inputs, attr_over=None):
    """inputs: list of ndarrays in graph order; op: tf.Operation"""
    from tensorflow.python.eager import execute as ex
    from tensorflow.python.eager import context

    with tf.init_scope():
        ctx = context.context()
        ctx.ensure_initialized()
        op_def = op.op_def
        attrs = []
        ov = attr_over or {}
        for a in op_def.attr:
            try:
                v = ov[a.name] if a.name in ov else op.get_attr(a.name)
            except ValueError:
                continue
            if isinstance(v, tf.DType):
                v = v.as_datatype_enum
            elif isinstance(v, tf.TensorShape):
                v = v.as_proto()
            elif isinstance(v, list) and v and isinstance(v[0], tf.DType):
                v = [x.as_datatype_enum for x in v]
            elif hasattr(v, "tensor_content"):  # TensorProto
                pass
            attrs += [a.name, v]
        tens = [tf.constant(x, dtype=d) for x, d in inputs]
        outs = ex.execute(
            op.type.encode() if False else op.type,
            len(op.outputs), inputs=tens, attrs=tuple(attrs), ctx=ctx,
        )
        return [np.asarray(o.numpy()) for o in outs]


class Interp:
    """Evaluates tensors of a tf.Graph symbolically, on demand with memoisation."""

    def __init__(self, graph, feeds=None, rng=None, name=""):
        self.g = graph
        self.memo = {}
        self.rng = rng or Rng()
        self.vars = {}
        self.ops_seen = {}
        self.order = []  # op evaluation order (for view extraction)
        self.name = name
        for t, v in (feeds or {}).items():
            self.memo[self.key(t)] = v
        self.fed = set(self.memo)
        self.fstack = []

    @staticmethod
    def key(t):
        return (id(t.op), t.value_index)

    def set(self, t, v):
        self.memo[self.key(t)] = v

    def get(self, t):
        k = self.key(t)
        if k in self.memo:
            return self.memo[k]
        # iterative post-order evaluation
        stack = [t.op]
        done = self.memo
        while stack:
            op = stack[-1]
            if op.outputs and all((id(op), i) in done for i in range(len(op.outputs))):
                stack.pop()
                continue
            pend = []
            for i in op.inputs:
                if self.key(i) not in done:
                    pend.append(i.op)
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            ins = [done[self.key(i)] for i in op.inputs]
            outs = self.run_op(op, ins)
            for i, o in enumerate(outs):
                if (id(op), i) not in done:
                    done[(id(op), i)] = o
            self.order.append(op)
        return done[k]

    # ------------------------------------------------------------------ operations
    def run_op(self, op, ins):
        ty = op.type
        self.ops_seen[ty] = self.ops_seen.get(ty, 0) + 1
        if ty == "Const":
            return [np.asarray(tf.make_ndarray(op.get_attr("value")))]
        if ty in RANDOM:
            return self.rng.run(self, op, ins)
        if ty in ("VarHandleOp", "VariableV2", "Placeholder", "ReadVariableOp", "AssignVariableOp"):
            return self.stateful(op, ins)
        if ty in ("PartitionedCall", "StatefulPartitionedCall"):
            return self.call(op.get_attr("f"), ins)
        if ty in ("If", "StatelessIf"):
            c = norm(ins[0])
            if isinstance(c, Sym):
                raise Unsupported("data-dependent If")
            br = op.get_attr("then_branch" if bool(np.all(c)) else "else_branch")
            return self.call(br, ins[1:])
        if ty in ("While", "StatelessWhile"):
            state = list(ins)
            for _ in range(100000):
                c = norm(self.call(op.get_attr("cond"), state)[0])
                if isinstance(c, Sym):
                    raise Unsupported("data-dependent While")
                if not bool(c):
                    return state
                state = self.call(op.get_attr("body"), state)
            raise Unsupported("while bound")
        if ty in ("NoOp", "Assert"):
            return []
        symb = [isinstance(x, Sym) for x in ins]
        if not any(symb):
            if ty in IDENT:
                return list(ins)
            return _eager_exec(op, list(zip(ins, [i.dtype for i in op.inputs])))
        r = self.sym_op(op, ty, ins)
        return [norm(x) for x in r]

    def stateful(self, op, ins):
        ty = op.type
        if ty == "Placeholder":
            raise Unsupported("unfed placeholder " + op.name)
        if ty == "VarHandleOp":
            return [("var", op.name)]
        if ty == "ReadVariableOp":
            h = ins[0]
            if h in self.vars:
                return [self.vars[h]]
            # program order: the last write created before this read
            ws = [o for o in op.inputs[0].consumers() if o.type == "AssignVariableOp"]
            ids = {o: k for k, o in enumerate(self.g.get_operations())} if len(ws) > 1 else {}
            if ids:
                ws = [o for o in ws if ids[o] < ids[op]] or ws[:1]
                ws.sort(key=lambda o: ids[o])
            if not ws:
                raise Unsupported("uninitialised variable " + str(h))
            return [self.get_nested(ws[-1].inputs[1])]
        if ty == "AssignVariableOp":
            return []
        raise Unsupported(ty)

    def get_nested(self, t):
        return self.get(t)

    def call(self, fname, ins):
        name = fname.name if hasattr(fname, "name") else fname
        fg = self.func_graph(name)
        sub = Interp(fg, dict(zip(fg.inputs, ins)), rng=self.rng)
        sub.vars = self.vars
        outs = [sub.get(o) for o in fg.outputs]
        for k, v in sub.ops_seen.items():
            self.ops_seen[k] = self.ops_seen.get(k, 0) + v
        return outs

    def func_graph(self, name):
        if isinstance(name, bytes):
            name = name.decode()
        g = self.g
        while g is not None:
            fs = getattr(g, "_functions", {})
            f = fs.get(name) or fs.get(name.encode())
            if f is not None:
                fgr = getattr(f, "graph", None)
                if fgr is not None:
                    return fgr
            g = getattr(g, "outer_graph", None)
        raise Unsupported("function %s" % name)

    # symbolic implementations -------------------------------------------------
    def sym_op(self, op, ty, ins):
        odt = op.outputs[0].dtype.base_dtype.name if op.outputs else None
        idt = op.inputs[0].dtype.base_dtype.name if len(op.inputs) else None
        L = lambda i: lift(ins[i], op.inputs[i].dtype.base_dtype.name)
        if ty in IDENT:
            return list(ins)
        if ty in BINOPS:
            a, b = L(0), L(1)
            return [Sym(odt, bmap(bin_scalar(idt, BINOPS[ty]), a.a, b.a))]
        if ty in CMPOPS:
            a, b = L(0), L(1)
            return [Sym("bool", bmap(bin_scalar(idt, CMPOPS[ty]), a.a, b.a))]
        if ty == "AddN":
            acc = L(0).a
            f = bin_scalar(idt, "+")
            for i in range(1, len(ins)):
                acc = bmap(f, acc, L(i).a)
            return [Sym(odt, acc)]
        if ty == "Neg":
            if idt in BITS:
                return [Sym(odt, bmap(lambda v: s_neg(v, BITS[idt]), L(0).a))]
            return [Sym(odt, bmap(lambda v: -v if is_conc(v) else z3.fpNeg(v), L(0).a))]
        if ty == "Square":
            f = bin_scalar(idt, "*")
            return [Sym(odt, bmap(lambda v: f(v, v), L(0).a))]
        if ty == "SquaredDifference":
            f, s = bin_scalar(idt, "*"), bin_scalar(idt, "-")
            return [Sym(odt, bmap(lambda u, v: f(s(u, v), s(u, v)), L(0).a, L(1).a))]
        if ty == "Invert":
            return [Sym(odt, bmap(lambda v: s_inv(v, BITS[idt]), L(0).a))]
        if ty == "LogicalNot":
            return [Sym(odt, bmap(lambda v: (not v) if is_conc(v) else z3.Not(v), L(0).a))]
        if ty == "Abs":
            if idt in BITS:
                n = BITS[idt]
                return [Sym(odt, bmap(lambda v: s_ite(s_cmp("<", v, 0, n, True), s_neg(v, n), v, idt), L(0).a))]
            return [Sym(odt, bmap(lambda v: abs(v) if is_conc(v) else z3.fpAbs(v), L(0).a))]
        if ty == "Sign":
            if idt in BITS:
                n = BITS[idt]
                return [Sym(odt, bmap(lambda v: s_ite(s_cmp("<", v, 0, n, True), (1 << n) - 1,
                                                     s_ite(s_cmp("==", v, 0, n, True), 0, 1, idt), idt), L(0).a))]
        if ty == "Cast":
            return [Sym(odt, bmap(lambda v: s_cast(v, idt, odt), L(0).a))]
        if ty in ("Round", "Rint", "Floor", "Ceil"):
            if idt in BITS:
                return [ins[0]]
            rm = {"Round": z3.RNE(), "Rint": z3.RNE(), "Floor": z3.RTN(), "Ceil": z3.RTP()}[ty]
            cf = {"Round": np.rint, "Rint": np.rint, "Floor": np.floor, "Ceil": np.ceil}[ty]
            return [Sym(odt, bmap(lambda v: float(cf(v)) if is_conc(v) else z3.fpRoundToIntegral(rm, v), L(0).a))]
        if ty in ("Select", "SelectV2"):
            c, a, b = L(0), L(1), L(2)
            ca = c.a
            if ty == "Select" and ca.ndim < a.a.ndim:
                ca = ca.reshape(ca.shape + (1,) * (a.a.ndim - ca.ndim))
            return [Sym(odt, bmap(lambda x, y, z: s_ite(x, y, z, odt), ca, a.a, b.a))]
        if ty == "ClipByValue":
            mx, mn = bin_scalar(idt, "max"), bin_scalar(idt, "min")
            return [Sym(odt, bmap(lambda v, lo, hi: mn(mx(v, lo), hi), L(0).a, L(1).a, L(2).a))]
        if ty in ("Sum", "Prod", "Max", "Min", "Any", "All", "Mean"):
            ax = norm(ins[1])
            if isinstance(ax, Sym):
                raise Unsupported("symbolic axis")
            ax = [int(v) for v in np.asarray(ax).reshape(-1)]
            keep = op.get_attr("keep_dims")
            a = L(0)
            o = {"Sum": "+", "Prod": "*", "Max": "max", "Min": "min", "Any": "|", "All": "&", "Mean": "+"}[ty]
            init = {"Sum": 0, "Prod": 1, "Any": False, "All": True}.get(ty, 0)
            r = reduce_axes(a.a, ax, keep, bin_scalar(idt, o), init)
            if ty == "Mean":
                cnt = a.a.size // max(1, r.size)
                d = bin_scalar(idt, "/")
                r = bmap(lambda v: d(v, float(cnt) if idt not in BITS else cnt), r)
            return [Sym(odt, r)]
        if ty in ("ArgMax", "ArgMin"):
            ax = int(norm(ins[1]))
            a = np.moveaxis(L(0).a, ax, -1)
            cmp = bin_scalar(idt, ">" if ty == "ArgMax" else "<")
            out = obj(a.shape[:-1])
            for idx in np.ndindex(*a.shape[:-1]):
                best, bi = a[idx][0], 0
                for k in range(1, a.shape[-1]):
                    c = cmp(a[idx][k], best)
                    best = s_ite(c, a[idx][k], best, idt)
                    bi = s_ite(c, k, bi, odt)
                out[idx] = bi
            return [Sym(odt, out)]
        if ty in ("Cumsum", "Cumprod"):
            ax = int(norm(ins[1]))
            ex, rv = op.get_attr("exclusive"), op.get_attr("reverse")
            a = np.moveaxis(L(0).a, ax, -1)
            f = bin_scalar(idt, "+" if ty == "Cumsum" else "*")
            out = obj(a.shape)
            for idx in np.ndindex(*a.shape[:-1]):
                acc = 0 if ty == "Cumsum" else 1
                if idt in FP:
                    acc = float(acc)
                rngk = range(a.shape[-1])
                for k in reversed(rngk) if rv else rngk:
                    if ex:
                        out[idx][k] = acc
                        acc = f(acc, a[idx][k])
                    else:
                        acc = f(acc, a[idx][k])
                        out[idx][k] = acc
            return [Sym(odt, np.moveaxis(out, -1, ax))]
        if ty in ("MatMul", "BatchMatMul", "BatchMatMulV2", "BatchMatMulV3"):
            a, b = L(0).a, L(1).a
            ta = op.get_attr("transpose_a" if ty == "MatMul" else "adj_x")
            tb = op.get_attr("transpose_b" if ty == "MatMul" else "adj_y")
            if ta:
                a = np.swapaxes(a, -1, -2)
            if tb:
                b = np.swapaxes(b, -1, -2)
            return [Sym(odt, self.matmul(a, b, idt))]
        if ty in ("BiasAdd",):
            b = L(1).a
            x = L(0).a
            if op.get_attr("data_format") in (b"NCHW", "NCHW"):
                b = b.reshape((-1,) + (1,) * (x.ndim - 2))
            return [Sym(odt, bmap(bin_scalar(idt, "+"), x, b))]
        if ty == "Pow":
            p = norm(ins[1])
            if isinstance(p, Sym):
                raise Unsupported("symbolic exponent")
            f = bin_scalar(idt, "*")

            def pw(v, e):
                e = int(e)
                r = 1 if idt in BITS else 1.0
                for _ in range(e):
                    r = f(r, v)
                return r
            return [Sym(odt, bmap(pw, L(0).a, np.asarray(p).astype(object)))]
        if ty in ("Shape", "ShapeN", "Size", "Rank"):
            d = np.dtype(odt)
            if ty == "Shape":
                return [np.array(L(0).a.shape, dtype=d)]
            if ty == "ShapeN":
                return [np.array(x.shape, dtype=d) for x in ins]
            return [np.array(L(0).a.size if ty == "Size" else L(0).a.ndim, dtype=d)]
        if ty in ("ZerosLike", "OnesLike"):
            return [np.full(L(0).a.shape, 0 if ty[0] == "Z" else 1, dtype=np.dtype(odt))]
        if ty == "Fill":
            dims = norm(ins[0])
            out = obj(tuple(int(v) for v in dims))
            out.fill(L(1).a[()])
            return [Sym(odt, out)]
        if ty == "ScatterNd":
            return [self.scatter(op, ins, odt)]
        if ty in ("TensorScatterAdd", "TensorScatterSub"):
            return [self.scatter(op, ins, odt)]
        if ty in ("UnsortedSegmentSum", "SegmentSum"):
            seg = np.asarray(norm(ins[1])).astype(int)
            a = L(0).a
            num = int(norm(ins[2])) if ty[0] == "U" else int(seg.max()) + 1
            f = bin_scalar(idt, "+")
            tail = a.shape[seg.ndim:]
            out = obj((num,) + tail)
            out.fill(0)
            fa, fs = a.reshape((-1,) + tail), seg.reshape(-1)
            for i, s in enumerate(fs):
                if s >= 0:
                    out[s] = bmap(f, out[s] if tail else np.array(out[s], dtype=object), fa[i] if tail else np.array(fa[i], dtype=object)) if tail else f(out[s], fa[i])
            return [Sym(odt, out)]
        if ty == "PadV2":
            return [self.pad(L(0), norm(ins[1]), L(2).a[()])]
        if ty == "OneHot":
            raise Unsupported("OneHot symbolic")
        if ty == "Bitcast":
            return [self.bitcast(L(0), odt)]
        if ty in ("DynamicUpdateSlice", "XlaDynamicUpdateSlice"):
            pass
        if ty in CUSTOM:
            return CUSTOM[ty](self, op, ins)
        if ty in MOVES:
            return self.move(op, ty, ins)
        if ty == "Einsum":
            return [self.einsum(op, [L(i) for i in range(len(ins))], odt)]
        if ty == "Conv2D":
            raise Unsupported("Conv2D symbolic")
        if ty == "ArraySort" or ty == "TopKV2":
            raise Unsupported(ty)
        raise Unsupported("op %s (%s)" % (ty, op.name))

    def matmul(self, a, b, dt):
        mul, add = bin_scalar(dt, "*"), bin_scalar(dt, "+")
        bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        a = np.broadcast_to(a, bs + a.shape[-2:])
        b = np.broadcast_to(b, bs + b.shape[-2:])
        out = obj(bs + (a.shape[-2], b.shape[-1]))
        for idx in np.ndindex(*bs):
            for i in range(a.shape[-2]):
                for j in range(b.shape[-1]):
                    acc = None
                    for k in range(a.shape[-1]):
                        t = mul(a[idx][i, k], b[idx][k, j])
                        acc = t if acc is None else add(acc, t)
                    out[idx + (i, j)] = 0 if acc is None else acc
        return out

    def einsum(self, op, xs, odt):
        eq = op.get_attr("equation")
        eq = eq.decode() if isinstance(eq, bytes) else eq
        lhs, rhs = eq.split("->")
        subs = lhs.split(",")
        if "..." in eq:
            raise Unsupported("einsum ellipsis")
        mul, add = bin_scalar(odt, "*"), bin_scalar(odt, "+")
        dim = {}
        for s, x in zip(subs, xs):
            for c, d in zip(s, x.a.shape):
                dim[c] = d
        inner = [c for c in dim if c not in rhs]
        out = obj(tuple(dim[c] for c in rhs))
        for idx in np.ndindex(*out.shape):
            env = dict(zip(rhs, idx))
            acc = None
            for jd in itertools.product(*[range(dim[c]) for c in inner]):
                env.update(zip(inner, jd))
                t = None
                for s, x in zip(subs, xs):
                    v = x.a[tuple(env[c] for c in s)]
                    t = v if t is None else mul(t, v)
                acc = t if acc is None else add(acc, t)
            out[idx] = acc
        return Sym(odt, out)

    def bitcast(self, x, odt):
        if x.dt in BITS and odt in BITS and BITS[x.dt] == BITS[odt]:
            return Sym(odt, x.a)
        raise Unsupported("bitcast")

    def pad(self, x, p, cv):
        p = np.asarray(p).astype(int)
        out = obj(tuple(s + a + b for s, (a, b) in zip(x.a.shape, p)))
        out.fill(cv)
        out[tuple(slice(a, a + s) for s, (a, b) in zip(x.a.shape, p))] = x.a
        return Sym(x.dt, out)

    def scatter(self, op, ins, odt):
        ty = op.type
        f = bin_scalar(odt, "-" if ty == "TensorScatterSub" else "+")
        if ty == "ScatterNd":
            ind, upd, shp = norm(ins[0]), lift(ins[1], odt), norm(ins[2])
            out = obj(tuple(int(v) for v in shp))
            out.fill(0)
        else:
            base, ind, upd = lift(ins[0], odt), norm(ins[1]), lift(ins[2], odt)
            out = base.a.copy()
        if isinstance(ind, Sym):
            raise Unsupported("symbolic scatter index")
        ind = np.asarray(ind).astype(int)
        k = ind.shape[-1]
        tail = out.shape[k:]
        fi = ind.reshape(-1, k)
        fu = upd.a.reshape((-1,) + tail)
        for i in range(fi.shape[0]):
            for j in np.ndindex(*tail):
                o = tuple(fi[i]) + j
                out[o] = f(out[o], fu[(i,) + j])
        return Sym(odt, out)

    def move(self, op, ty, ins):
        """Run the real op on index tensors and permute the symbolic elements."""
        data = MOVES[ty]
        names = []
        for a in op.op_def.input_arg:
            cnt = 1
            if a.number_attr:
                cnt = op.get_attr(a.number_attr)
            elif a.type_list_attr:
                cnt = len(op.get_attr(a.type_list_attr))
            names += [(a.name, a.type_attr)] * cnt
        elems = [None]  # index 0 = zero fill
        feed = []
        dtype_attr = None
        dt = op.outputs[0].dtype.base_dtype.name
        for (nm, ta), v, inp in zip(names, ins, op.inputs):
            if nm in data:
                s = lift(v, inp.dtype.base_dtype.name)
                base = len(elems)
                elems += list(s.a.reshape(-1))
                feed.append((np.arange(base, base + s.a.size, dtype=np.int64).reshape(s.a.shape), tf.int64))
                dtype_attr = ta or dtype_attr
            else:
                c = norm(v)
                if isinstance(c, Sym):
                    if ty in ("GatherV2", "Gather"):
                        return [self.sym_gather(op, ins)]
                    raise Unsupported("symbolic structural operand of " + ty)
                feed.append((c, inp.dtype))
        over = {dtype_attr: tf.int64} if dtype_attr else {}
        outs = _eager_exec(op, feed, over)
        zero = False if dt == "bool" else (0 if dt in BITS else 0.0)
        elems[0] = zero
        res = []
        for o in outs:
            r = obj(o.shape)
            if o.shape == ():
                r[()] = elems[int(o)]
            else:
                fo, fr = o.reshape(-1), obj((o.size,))
                for i in range(o.size):
                    fr[i] = elems[int(fo[i])]
                r = fr.reshape(o.shape)
            res.append(Sym(dt, r))
        return res

    def sym_gather(self, op, ins):
        """gather with symbolic indices: ite chain along the axis"""
        if op.type != "GatherV2":
            raise Unsupported("symbolic gather")
        ax = int(norm(ins[2]))
        if op.get_attr("batch_dims"):
            raise Unsupported("batched symbolic gather")
        idt = op.inputs[1].dtype.base_dtype.name
        odt = op.outputs[0].dtype.base_dtype.name
        p = np.moveaxis(lift(ins[0], odt).a, ax, 0)
        ind = lift(ins[1], idt).a
        n = BITS[idt]
        out = obj(ind.shape + p.shape[1:])
        for i in np.ndindex(*ind.shape):
            for j in np.ndindex(*p.shape[1:]):
                acc = p[(p.shape[0] - 1,) + j]
                for k in range(p.shape[0] - 2, -1, -1):
                    acc = s_ite(s_cmp("==", ind[i], k, n, True), p[(k,) + j], acc, odt)
                out[i + j] = acc
        nd = len(ind.shape)
        out = np.moveaxis(out, list(range(nd)), list(range(ax, ax + nd)))
        return Sym(odt, out)


# ---------------------------------------------------------------- custom kernels
# Semantics assumed here are the ones the kernel property (C++ IR check) establishes.
def gather_bits(v, n, start, stride):
    """bit i of the result = bit start+i*stride of v"""
    if is_conc(v):
        r = 0
        for i, d in enumerate(range(start, n, stride)):
            r |= ((v >> d) & 1) << i
        return r
    parts = [z3.Extract(d, d, v) for d in range(start, n, stride)]
    parts.reverse()
    e = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    return z3.ZeroExt(n - len(parts), e) if len(parts) < n else e


def reverse_bits(v, n):
    if is_conc(v):
        return int(format(v, "0%db" % n)[::-1], 2)
    return z3.Concat(*[z3.Extract(i, i, v) for i in range(n)])


def xor_indices(v, n):
    if is_conc(v):
        r = 0
        for d in range(n):
            if (v >> d) & 1:
                r ^= d
        return r
    k = (n - 1).bit_length()
    outs = []
    for j in range(k - 1, -1, -1):
        acc = z3.BitVecVal(0, 1)
        for d in range(1, n):
            if (d >> j) & 1:
                acc = acc ^ z3.Extract(d, d, v)
        outs.append(acc)
    return z3.Concat(z3.BitVecVal(0, n - k), *outs)


def join128(a):
    """[...,2] int64 object array -> object array of 128-bit elements"""
    def f(lo, hi):
        if is_conc(lo) and is_conc(hi):
            return lo | (hi << 64)
        if not is_conc(lo) and not is_conc(hi) and lo.decl().kind() == z3.Z3_OP_EXTRACT and hi.decl().kind() == z3.Z3_OP_EXTRACT:
            if lo.params() == [63, 0] and hi.params() == [127, 64] and lo.arg(0).eq(hi.arg(0)) and lo.arg(0).size() == 128:
                return lo.arg(0)
        return z3.simplify(z3.Concat(bv(hi, 64), bv(lo, 64)))
    return bmap(f, a[..., 0], a[..., 1])


def split128(a):
    out = obj(a.shape + (2,))
    for i in np.ndindex(*a.shape):
        v = a[i]
        if is_conc(v):
            out[i + (0,)], out[i + (1,)] = v & ((1 << 64) - 1), v >> 64
        else:
            out[i + (0,)], out[i + (1,)] = z3.Extract(63, 0, v), z3.Extract(127, 64, v)
    return out


def _c_bitgather(it, op, ins):
    dt = op.inputs[0].dtype.base_dtype.name
    st, sd = op.get_attr("start"), op.get_attr("stride")
    return [Sym(dt, bmap(lambda v: gather_bits(v, BITS[dt], st, sd), lift(ins[0], dt).a))]


def _c_bitsplit(it, op, ins):
    dt = op.inputs[0].dtype.base_dtype.name
    sd = op.get_attr("stride")
    a = lift(ins[0], dt).a
    return [Sym(dt, np.stack([bmap(lambda v: gather_bits(v, BITS[dt], s, sd), a) for s in range(sd)]))]


def _c_rev(it, op, ins):
    return [Sym("int64", bmap(lambda v: reverse_bits(v, 64), lift(ins[0]).a))]


def _c_xori(it, op, ins):
    return [Sym("int64", bmap(lambda v: xor_indices(v, 64), lift(ins[0]).a))]


def _i128_un(f):
    def run(it, op, ins):
        return [Sym("int64", split128(bmap(f, join128(lift(ins[0], "int64").a))))]
    return run


def _i128_bin(f):
    def run(it, op, ins):
        a, b = join128(lift(ins[0], "int64").a), join128(lift(ins[1], "int64").a)
        return [Sym("int64", split128(bmap(f, a, b)))]
    return run


def _i128_matmul(it, op, ins):
    a, b = join128(lift(ins[0], "int64").a), join128(lift(ins[1], "int64").a)
    BITS.setdefault("i128", 128)
    SIGNED.add("i128")
    return [Sym("int64", split128(it.matmul(a, b, "i128")))]


def _i128_eq(it, op, ins):
    a, b = join128(lift(ins[0], "int64").a), join128(lift(ins[1], "int64").a)
    return [Sym("bool", bmap(lambda x, y: s_cmp("==", x, y, 128, True), a, b))]


def _i128_shift(kind):
    def run(it, op, ins):
        a = join128(lift(ins[0], "int64").a)
        k = norm(ins[1])
        if isinstance(k, Sym):
            raise Unsupported("symbolic i128 shift")
        k = np.asarray(k).astype(object)

        def f(v, s):
            s = int(s)
            if s <= 0:
                return v
            if kind == "l":
                if s >= 128:
                    return 0
                return (v << s) & ((1 << 128) - 1) if is_conc(v) else v << z3.BitVecVal(s, 128)
            if kind == "r":
                s = min(s, 127)
                return (signed(v, 128) >> s) & ((1 << 128) - 1) if is_conc(v) else v >> z3.BitVecVal(s, 128)
            if s >= 128:
                return 0
            return v >> s if is_conc(v) else z3.LShR(v, z3.BitVecVal(s, 128))
        return [Sym("int64", split128(bmap(f, a, k)))]
    return run


def _i128_sum(it, op, ins):
    a = join128(lift(ins[0], "int64").a)
    ax = [int(v) for v in np.asarray(norm(ins[1])).reshape(-1)]
    keep = bool(norm(ins[2]))
    if a.ndim == 0:
        return [ins[0]]
    r = reduce_axes(a, ax, keep, lambda x, y: s_add(x, y, 128), 0)
    return [Sym("int64", split128(r))]


def _i128_split_gather(it, op, ins):
    a = join128(lift(ins[0], "int64").a)
    sd = op.get_attr("stride")
    return [Sym("int64", split128(np.stack([bmap(lambda v: gather_bits(v, 128, s, sd), a) for s in range(sd)])))]


def _i128_gather(it, op, ins):
    st, sd = op.get_attr("start"), op.get_attr("stride")
    a = join128(lift(ins[0], "int64").a)
    return [Sym("int64", split128(bmap(lambda v: gather_bits(v, 128, st, sd), a)))]


def _to_i128(it, op, ins):
    sc = int(norm(ins[1]))

    def f(v):
        if is_conc(v):
            return int(np.float64(v) * np.float64(sc)) & ((1 << 128) - 1)
        w = v if sc == 1 else z3.fpMul(RNE(), v, z3.FPVal(float(sc), z3.Float64()))
        return z3.fpToSBV(z3.RTZ(), w, z3.BitVecSort(128))
    return [Sym("int64", split128(bmap(f, lift(ins[0], "float64").a)))]


def _from_i128(it, op, ins):
    sc = int(norm(ins[1]))

    def f(v):
        if is_conc(v):
            return float(signed(v, 128)) / float(sc)
        w = z3.fpSignedToFP(RNE(), v, z3.Float64())
        return w if sc == 1 else z3.fpDiv(RNE(), w, z3.FPVal(float(sc), z3.Float64()))
    return [Sym("float64", bmap(f, join128(lift(ins[0], "int64").a)))]


CUSTOM = {
    "BitGather": _c_bitgather, "BitSplitAndGather": _c_bitsplit, "BitReverse": _c_rev,
    "XorIndices": _c_xori,
    "I128Add": _i128_bin(lambda a, b: s_add(a, b, 128)),
    "I128Sub": _i128_bin(lambda a, b: s_sub(a, b, 128)),
    "I128Mul": _i128_bin(lambda a, b: s_mul(a, b, 128)),
    "I128Negate": _i128_un(lambda a: s_neg(a, 128)),
    "I128Abs": _i128_un(lambda v: (v if v < (1 << 127) else (-v) & ((1 << 128) - 1)) if is_conc(v) else z3.If(v < 0, -v, v)),
    "I128MatMul": _i128_matmul, "I128Equal": _i128_eq,
    "I128LeftShift": _i128_shift("l"), "I128RightShift": _i128_shift("r"),
    "I128LogicRightShift": _i128_shift("lr"), "I128ReduceSum": _i128_sum,
    "I128BitReverse": _i128_un(lambda v: reverse_bits(v, 128)),
    "I128XorIndices": _i128_un(lambda v: xor_indices(v, 128)),
    "I128BitGather": _i128_gather, "I128BitSplitAndGather": _i128_split_gather,
    "ToI128": _to_i128, "FromI128": _from_i128,
}


# ---------------------------------------------------------------- randomness
class Rng:
    """Random sources.  A seed is an opaque symbolic vector; an expansion of a seed is a
    stream of uniform variables indexed by the flat position, shared by every expansion of
    the same seed with the same element type and range."""

    def __init__(self, prefix=""):
        self.prefix = prefix
        self.streams = {}    # (seedkey, dt, lo, hi) -> id
        self.seedkeys = {}
        self.events = []     # (op, stream id, count, dt, lo, hi, seedkey)
        self.nseed = 0
        self.vars = {}       # variable name -> (stream id, index, bits)
        self.seedvars = {}   # seed op name -> list of vars
        self.assume = []
        self.feeds = []      # (tensor, Sym) for replay

    def seed_key(self, s):
        if isinstance(s, Sym):
            parts = []
            for v in s.a.reshape(-1):
                parts.append(str(v) if is_conc(v) else z3.simplify(v).sexpr())
            k = "|".join(parts)
        else:
            k = "c:" + ",".join(str(int(v)) for v in np.asarray(s).reshape(-1))
        return k

    def run(self, it, op, ins):
        ty = op.type
        if ty == "SecureSeed":
            n = op.outputs[0].shape.as_list()
            i = self.nseed
            self.nseed += 1
            a = obj(tuple(n))
            for j in np.ndindex(*a.shape):
                a[j] = z3.BitVec("%sseed%d_%s" % (self.prefix, i, "_".join(map(str, j))), 32)
            s = Sym("int32", a)
            self.seedvars[op.name] = (i, s)
            self.feeds.append((op.outputs[0], s))
            return [s]
        if ty in ("SecureSeededRandomUniform", "I128SecureSeededRandomUniform"):
            shp, seed, lo, hi = ins
        elif ty in ("SecureRandomUniform", "I128SecureRandomUniform", "RandomUniformInt"):
            (shp, lo, hi), seed = ins, None
        elif ty.startswith("StatelessRandomUniformIntV2"):
            shp, seed, _, _, lo, hi = ins
        elif ty == "StatelessRandomUniformInt":
            shp, seed, lo, hi = ins
        else:
            raise Unsupported("random op " + ty)
        shp, lo, hi = norm(shp), norm(lo), norm(hi)
        if isinstance(shp, Sym) or isinstance(lo, Sym) or isinstance(hi, Sym):
            raise Unsupported("symbolic sampling parameters")
        shape = tuple(int(v) for v in np.asarray(shp).reshape(-1))
        i128 = ty.startswith("I128")
        if i128:
            def full(v):
                v = np.asarray(v).reshape(-1)
                return int(v[0]) if v.size == 1 else (int(v[0]) & ((1 << 64) - 1)) + (int(v[1]) << 64)
            lo, hi, nb, dt = full(lo), full(hi), 128, "i128"
        else:
            lo, hi = int(lo), int(hi)
            dt = op.outputs[0].dtype.base_dtype.name
            nb = BITS[dt]
        if seed is None:
            key = "unseeded:%d" % len(self.events)
        else:
            key = self.seed_key(seed)
        sk = (key, dt, lo, hi)
        if sk not in self.streams:
            self.streams[sk] = len(self.streams)
        sid = self.streams[sk]
        cnt = int(np.prod(shape)) if shape else 1
        a = obj((cnt,))
        for i in range(cnt):
            a[i] = self.var(sid, i, nb, lo, hi)
        a = a.reshape(shape)
        self.events.append(dict(op=op, sid=sid, count=cnt, dt=dt, lo=lo, hi=hi, key=key, seed=seed))
        res = Sym("int64", split128(a)) if i128 else Sym(dt, a)
        self.feeds.append((op.outputs[0], res))
        return [res]

    def var(self, sid, i, nb, lo, hi):
        name = "%srnd%d_%d" % (self.prefix, sid, i)
        fullrange = lo == -(1 << (nb - 1)) and hi >= (1 << (nb - 1)) - 1
        span = hi - lo
        if fullrange:
            self.vars[name] = (sid, i, nb)
            return z3.BitVec(name, nb)
        if span > 0 and span & (span - 1) == 0:
            w = span.bit_length() - 1
            if w == 0:
                return lo & ((1 << nb) - 1)
            self.vars[name] = (sid, i, w)
            v = z3.BitVec(name, w)
            e = z3.ZeroExt(nb - w, v) if w < nb else v
            return e if lo == 0 else e + z3.BitVecVal(lo, nb)
        fresh = name not in self.vars
        self.vars[name] = (sid, i, nb)
        v = z3.BitVec(name, nb)
        if fresh:
            self.assume.append(z3.And(v >= lo, v < hi))
        return v
