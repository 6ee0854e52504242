"""NumPy arrays with symbolic elements, for the code that encodes arrays before they become tensors.

`SArr` is an ndarray (so that isinstance tests see one) whose elements are symbolic and whose dtype
is the one it stands for; arithmetic follows NumPy's promotion rules.  Anything else is refused."""
import contextlib

import numpy as np

from .boot import tf
from .sym import BITS
from .sym import FP
from .sym import Sym
from .sym import Unsupported
from .sym import bmap
from .sym import f_bin
from .sym import is_conc
from .sym import s_add
from .sym import s_cast
from .sym import s_mul
from .sym import s_neg
from .sym import s_sub
from .sym import to_obj

INT = {"multiply": s_mul, "add": s_add, "subtract": s_sub}
FLT = {"multiply": "*", "add": "+", "subtract": "-", "true_divide": "/", "divide": "/"}
RND = {"trunc": "RTZ", "rint": "RNE", "floor": "RTN", "ceil": "RTP"}


def arr(elems, dt):
    a = np.asarray(elems, dtype=object).view(SArr)
    a.sdt = str(np.dtype(dt))
    return a


class Num:
    """one symbolic number as a Python object (what an object array holds)"""

    def __init__(self, v, dt):
        self.v, self.dt = v, dt

    def __int__(self):
        raise Unsupported("a symbolic number became a Python int")

    __float__ = __index__ = __bool__ = __int__


class Big:
    """a symbolic Python integer that fits in 128 bits (two's complement)"""

    def __init__(self, v):
        self.v = v

    def __and__(self, m):
        if m == (1 << 128) - 1:
            return Pos(self.v)
        raise Unsupported("& %r on a symbolic integer" % (m,))

    def __bool__(self):
        raise Unsupported("branch on a symbolic integer")

    __int__ = __index__ = __bool__


class Pos(Big):
    """the same bits read as a non-negative integer"""

    def to_bytes(self, n, order, signed=False):
        if n != 16 or order != "little":
            raise Unsupported("to_bytes(%r, %r)" % (n, order))
        return Raw(self.v)


class Raw:
    def __init__(self, v):
        self.v = v


def integer(x, *a):
    """Python's int()"""
    if isinstance(x, Num):
        if x.dt in FP:
            from .boot import z3

            return Big(z3.fpToSBV(z3.RTZ(), x.v, z3.BitVecSort(128)))
        if x.dt in ("int32", "int64", "int8", "int16"):
            from .boot import z3

            return Big(z3.SignExt(128 - BITS[x.dt], x.v))
        raise Unsupported("int() of symbolic %s" % x.dt)
    return int(x, *a)


class Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, *a):
        return integer(*a) if a else 0

    def __getattr__(cls, n):
        return getattr(int, n)


class Integer(metaclass=Meta):
    """stands in for `int` in the modules under analysis"""


def cast(a, dt):
    dt = str(np.dtype(dt))
    if dt == "object":
        r = np.empty(a.shape, dtype=object)
        e = a.view(np.ndarray)
        for i in np.ndindex(*a.shape):
            r[i] = Num(e[i], a.sdt)
        return r
    return arr(bmap(lambda v: s_cast(v, a.sdt, dt), np.asarray(a).view(np.ndarray)), dt)


def operand(x, res):
    if isinstance(x, SArr):
        return cast(x, res).view(np.ndarray)
    x = np.asarray(x)
    return to_obj(x.astype(res), str(np.dtype(res)))


class SArr(np.ndarray):
    sdt = None

    def __array_finalize__(self, o):
        self.sdt = getattr(o, "sdt", None)

    @property
    def dtype(self):
        return np.dtype(self.sdt)

    def astype(self, dt, *a, **k):
        return cast(self, dt)

    def copy(self, *a, **k):
        return arr(np.array(self.view(np.ndarray)), self.sdt)

    def __array_ufunc__(self, uf, method, *ins, **kw):
        n = uf.__name__
        if method != "__call__" or kw:
            raise Unsupported("numpy %s.%s" % (n, method))
        tmpl = [np.zeros(x.shape, x.sdt) if isinstance(x, SArr) else x for x in ins]
        res = str(uf(*tmpl).dtype)
        a = [operand(x, res) for x in ins]
        if res in FP:
            if n in FLT:
                return arr(bmap(lambda x, y: f_bin(FLT[n], x, y, res), *a), res)
            if n in RND:
                from .boot import z3

                return arr(bmap(lambda x: x if is_conc(x) else z3.fpRoundToIntegral(getattr(z3, RND[n])(), x), *a), res)
            if n == "negative":
                return arr(bmap(lambda x: -x, *a), res)
        if res in BITS:
            if n in INT:
                return arr(bmap(lambda x, y: INT[n](x, y, BITS[res]), *a), res)
            if n == "negative":
                return arr(bmap(lambda x: s_neg(x, BITS[res]), *a), res)
        raise Unsupported("numpy %s on %s" % (n, res))

    def __array_function__(self, f, types, args, kw):
        raise Unsupported("numpy %s" % getattr(f, "__name__", f))


class Shim:
    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def array(x, *a, dtype=None, **k):
        if isinstance(x, SArr):
            return x.copy() if dtype is None else cast(x, dtype)
        return np.array(x, *a, **dict(k, **({} if dtype is None else {"dtype": dtype})))

    asarray = array

    @staticmethod
    def frombuffer(x, dtype=float, **k):
        if isinstance(x, Raw):
            if np.dtype(dtype) != np.int64 or k:
                raise Unsupported("frombuffer as %s" % dtype)
            from .boot import z3

            r = np.empty(2, dtype=object)
            r[0], r[1] = z3.Extract(63, 0, x.v), z3.Extract(127, 64, x.v)
            return r
        return np.frombuffer(x, dtype=dtype, **k)


def symbolic(v):
    return isinstance(v, np.ndarray) and not isinstance(v, SArr) and v.dtype == object and any(not is_conc(e) for e in v.reshape(-1))


@contextlib.contextmanager
def numpy_inputs(h, modules):
    """while building the graph: modules' `np` knows symbolic arrays, and TensorFlow takes them in
    as placeholders of the dtype they stand for, converted the way a NumPy constant would be"""
    olds = [(m, m.np) for m in modules if hasattr(m, "np")]
    conv, const = tf.convert_to_tensor, tf.constant

    def take(v, dtype):
        p = tf.compat.v1.placeholder(tf.as_dtype(v.sdt), list(v.shape))
        h.feeds.append((p, Sym(v.sdt, v.view(np.ndarray))))
        return p if dtype is None or tf.as_dtype(dtype) == p.dtype else tf.cast(p, dtype)

    def convert(value, dtype=None, *a, **k):
        if symbolic(value):
            value = arr(value, "int64")
        return take(value, dtype) if isinstance(value, SArr) else conv(value, dtype, *a, **k)

    def constant(value, dtype=None, *a, **k):
        return take(value, dtype) if isinstance(value, SArr) else const(value, dtype, *a, **k)

    s = Shim()
    for m, _ in olds:
        m.np = s
        m.int = Integer
    tf.convert_to_tensor, tf.constant = convert, constant
    try:
        yield
    finally:
        tf.convert_to_tensor, tf.constant = conv, const
        for m, o in olds:
            m.np = o
            del m.int
