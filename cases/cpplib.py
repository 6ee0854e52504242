"""The C++ kernels: compiled from /repo's current sources to LLVM IR, executed symbolically."""
import atexit
import os
import shutil
import subprocess
import tempfile
import time

import numpy as np

from tfv import llvm
from tfv import solve
from tfv.boot import REPO
from tfv.boot import tf
from tfv.boot import z3
from tfv.harness import Result
from tfv.sym import Unsupported
from tfv.sym import is_conc
from tfv.sym import obj

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tfv", "cxx")
SRC = {
    "aux": ["operations/aux/aux_kernels.cc"],
    "random": ["operations/secure_random/secure_random.cc"],
    "i128": None,
}
DT = {"float32": 1, "float64": 2, "int32": 3, "int16": 5, "int8": 6, "int64": 9, "bool": 10, "uint64": 23}
BITS = {"float32": 32, "float64": 64, "int32": 32, "int16": 16, "int8": 8, "int64": 64, "bool": 8, "uint64": 64}
_TMP = {}


def tmp():
    if "d" not in _TMP:
        d = _TMP["d"] = tempfile.mkdtemp(prefix="tfv-cxx-")
        atexit.register(shutil.rmtree, d, True)
    return _TMP["d"]


def sources(fam):
    s = SRC[fam]
    if s is None:
        d = os.path.join(REPO, "operations", "tf_i128")
        return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cc")]
    return [os.path.join(REPO, f) for f in s]


def compile_(fam, native=False):
    d = tmp()
    out = os.path.join(d, fam + (".exe" if native else ".ll"))
    if os.path.exists(out):
        return out
    inc = os.path.join(d, fam + "_all.h")
    with open(inc, "w") as f:
        # clang ignores `int __attribute__((mode(TI)))`; the sources have a spelling for it
        f.write('#include "tfv_tf.h"\n#include "sodium.h"\n#include <mutex>\n#include <exception>\n')
        f.write('#include "tensorflow/core/util/bcast.h"\n#include "tensorflow/core/util/work_sharder.h"\n')
        if fam == "i128":
            f.write('#include "unsupported/Eigen/CXX11/Tensor"\n#include "Eigen/Core"\n#include "Eigen/Dense"\n')
        f.write("#if defined(__clang__) && !defined(__APPLE__)\n#define __APPLE__ 1\n#define TFV_APPLE\n#endif\n")
        for s in sources(fam):
            f.write('#include "%s"\n' % s)
        if fam != "aux":
            f.write('static_assert(sizeof(i128_t) == 16, "i128");\n')
        f.write("#ifdef TFV_APPLE\n#undef __APPLE__\n#endif\n")
    if os.path.exists(out + ".failed"):
        raise Unsupported("the kernel sources do not compile against the stand-in headers")
    cmd = ["g++" if native else "clang++", "-std=gnu++17", "-fno-exceptions", "-fno-rtti", "-fno-strict-aliasing", "-ffp-contract=off", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_CPUID", "-DNDEBUG", "-w",
           "-I" + os.path.join(HERE, "include"), "-I" + tf.sysconfig.get_include(), '-DTFV_SRC="%s"' % inc, "-O1"]
    cmd += ["-DTFV_MAIN", "-o", out] if native else ["-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-S", "-emit-llvm", "-o", out]
    r = subprocess.run(cmd + [os.path.join(HERE, "run.cc")], capture_output=True, text=True, timeout=600)
    if r.returncode:
        open(out + ".failed", "w").close()
        raise Unsupported("the kernel sources do not compile against the stand-in headers: " + r.stderr[:300])
    return out


_M = {}


def module(fam):
    if fam not in _M:
        _M[fam] = llvm.Module(compile_(fam))
    return _M[fam]


class Call:
    """one invocation of a kernel"""

    def __init__(self, fam, op, dt, ins, out="int64", attrs=(), threads=1):
        self.fam, self.op, self.dt, self.ins, self.out, self.attrs, self.threads = fam, op, dt, ins, out, dict(attrs), threads
        # ins: list of (dtype, array of ints | z3)

    def run(self, draw=None, assume=(), limit=3000000, machine=None):
        """-> [(path condition, "ok"|text, output array, state)]"""
        m = machine or llvm.Machine(module(self.fam), draw, limit)
        un, m.unroll = m.unroll, None
        self.m = m
        st = m.base.copy()

        def one(f, *a):
            nonlocal st
            r = m.run(st, f, list(a))
            if len(r) != 1 or isinstance(r[0][1], Exception):
                raise Unsupported("driver: %s: %s" % (f, r[:1]))
            st = r[0][0]
            return r[0][1]
        one("tfv_reset", self.threads, DT[self.out])
        for k, v in self.attrs.items():
            a = m.cstr(st, k)
            one("tfv_attr", a, v & (2 ** 64 - 1))
        self.at = []
        for dt, v in self.ins:
            d = m.new(st, 8 * max(1, v.ndim))
            for i, x in enumerate(v.shape):
                m.put(st, d + 8 * i, x, ("i", 64))
            p = one("tfv_input", DT[dt], v.ndim, d)
            self.at.append(p)
            n = BITS[dt] // 8
            t = ("i", 8 * n) if not dt.startswith("float") else ("double" if n == 8 else "float")
            for i, x in enumerate(v.reshape(-1)):
                if not dt.startswith("float") and not is_conc(x):
                    pass
                elif not dt.startswith("float"):
                    x = int(x) & ((1 << 8 * n) - 1)
                m.put(st, p + n * i, x, t)
        s = m.cstr(st, self.op)
        st.pc = list(assume)
        res = []
        m.unroll = un
        runs = m.run(st, "tfv_exec", [s, DT[self.dt] if self.dt else 0])
        m.unroll = None
        for s2, rv in runs:
            if isinstance(rv, Exception):
                res.append((s2.pc, "stops: %s" % rv, None, s2))
                continue
            if not llvm.conc(rv):
                raise Unsupported("symbolic return code")
            if rv != 0:
                res.append((s2.pc, "refused" if rv == 1 else "no such kernel", None, s2))
                continue
            st3 = s2

            def q(f, *a):
                nonlocal st3
                r = m.run(st3, f, list(a))
                if len(r) != 1 or isinstance(r[0][1], Exception):
                    raise Unsupported("driver: " + f)
                st3 = r[0][0]
                return r[0][1]
            rank = q("tfv_out_rank")
            shp = tuple(q("tfv_out_dim", i) for i in range(rank))
            p = q("tfv_out")
            n = BITS[self.out] // 8
            t = ("i", 8 * n) if not self.out.startswith("float") else ("double" if n == 8 else "float")
            o = obj(shp)
            ok = "ok"
            try:
                for k, i in enumerate(np.ndindex(*shp)):
                    o[i] = m.get(st3, p + n * k, t)
            except llvm.Trap as e:
                ok = "output: %s" % e
            res.append((s2.pc, ok, o, s2))
        return res

    def native(self, values, records=()):
        """the compiled code on concrete inputs (arrays of ints or floats) -> ("ok"|text, array|None)"""
        import struct

        exe = compile_(self.fam, True)
        txt = ["%s %d %d %d %d %d %d %d" % (self.op, DT[self.dt] if self.dt else 0, self.threads, DT[self.out], len(self.attrs), len(self.ins), len(records), 0)]
        for k, v in self.attrs.items():
            txt.append("%s %d" % (k, v))
        for (dt, a), v in zip(self.ins, values):
            n = BITS[dt] // 8
            if dt.startswith("float"):
                hx = "".join(struct.pack("<d" if n == 8 else "<f", float(x)).hex() for x in v.reshape(-1))
            else:
                hx = "".join((int(x) & ((1 << 8 * n) - 1)).to_bytes(n, "little").hex() for x in v.reshape(-1))
            txt.append("%d %d %s %d %s" % (DT[dt], v.ndim, " ".join(str(x) for x in v.shape), n * v.size, hx))
        for b in records:
            txt.append("%d %s" % (len(b), bytes(b).hex()))
        r = subprocess.run([exe], input="\n".join(txt) + "\n", capture_output=True, text=True, timeout=60)
        ls = r.stdout.split("\n")
        if r.returncode or not ls or not ls[0].startswith("rc "):
            return "stops: exit code %d %s" % (r.returncode, r.stdout[:80].strip()), None
        if ls[0] != "rc 0":
            return ("refused" if ls[0] == "rc 1" else "no such kernel"), None
        shp = tuple(int(x) for x in ls[2].split())
        n = BITS[self.out] // 8
        raw = bytes.fromhex(ls[3].strip())
        o = obj(shp)
        for k, i in enumerate(np.ndindex(*shp)):
            b = raw[n * k:n * k + n]
            o[i] = struct.unpack("<d" if n == 8 else "<f", b)[0] if self.out.startswith("float") else int.from_bytes(b, "little")
        return "ok", o


def model_value(m, x):
    if is_conc(x) or isinstance(x, float):
        return x
    v = m.eval(x, model_completion=True)
    if z3.is_bool(x):
        return int(z3.is_true(v))
    if z3.is_fp(x):
        b = z3.simplify(z3.fpToIEEEBV(v))
        import struct
        w = b.size()
        return struct.unpack("<d" if w == 64 else "<f", b.as_long().to_bytes(w // 8, "little"))[0]
    return v.as_long()


def differ(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return not (a == b or (a != a and b != b))
    return a != b


def compare(res, call, want, assume=(), timeout=60000, draw=None):
    """every path of the kernel gives `want` (an array of terms); or want is None: must refuse"""
    n0 = len(res.detail)
    paths = call.run(draw, assume)
    res.functions = sorted(set(res.functions) | {f.strip("@") for f in call.m.seen if "Op" in f or "i128" in f.lower() or "Generator" in f or "tf_" in f})
    label = "%s(%s)%s threads=%d" % (call.op, ", ".join("%s%s" % (d, list(v.shape)) for d, v in call.ins), call.attrs or "", call.threads)

    def values(m):
        return [np.vectorize(lambda x: model_value(m, x), otypes=[object])(v) if v.size else v for _, v in call.ins]

    def fail(m, why):
        vals = values(m)
        ok, o = call.native(vals)
        wv = None
        if want is not None:
            wv = np.vectorize(lambda x: model_value(m, x), otypes=[object])(want)
        bad = ok != "ok" or o.shape != want.shape or any(differ(x, y) for x, y in zip(o.reshape(-1), wv.reshape(-1)))
        if bad:
            res.violation("%s: %s; compiled code gives %s %s, expected %s" % (label, why, ok, None if o is None else (list(o.shape), [str(x) for x in o.reshape(-1)[:6]]),
                                                                            None if wv is None else (list(wv.shape), [str(x) for x in wv.reshape(-1)[:6]])),
                          op=call.op, inputs=[[str(x) for x in v.reshape(-1)] for v in vals])
        else:
            res.undecided("%s: %s, but the compiled code agrees on the counterexample" % (label, why))
    for pc, st, out, _ in paths:
        if st != "ok" or out.shape != want.shape:
            r, m = solve.check(pc, timeout) if pc else ("sat", None)
            if r == "unsat":
                continue
            if m is None:
                s = z3.Solver()
                s.check()
                m = s.model()
            fail(m, st if st != "ok" else "output of shape %s instead of %s" % (list(out.shape), list(want.shape)))
            return
        for x, y in zip(out.reshape(-1), want.reshape(-1)):
            res.obligations += 1
            fp = isinstance(x, float) or isinstance(y, float) or (not is_conc(x) and z3.is_fp(x)) or (not is_conc(y) and z3.is_fp(y))
            if fp:
                x = x if not isinstance(x, float) else z3.FPVal(x, z3.Float64())
                y = y if not isinstance(y, float) else z3.FPVal(y, z3.Float64())
                goal = z3.simplify(x == y)
            elif is_conc(x) and is_conc(y):
                goal = z3.BoolVal(int(x) == int(y))
            else:
                w = BITS[call.out]
                if not is_conc(y) and z3.is_bool(y):
                    y = z3.If(y, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
                if not is_conc(x) and z3.is_bool(x):
                    x = z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
                if is_conc(y):
                    y = int(y) & ((1 << w) - 1)
                goal = llvm.bvv(x, w) == llvm.bvv(y, w)
            r, m = solve.valid(goal, pc, timeout)
            if r == "unsat":
                continue
            if r == "sat":
                fail(m, "a wrong element")
                return
            res.undecided("%s: solver %s" % (label, r))
            return
    if len(res.detail) == n0 and not paths:
        res.undecided(label + ": no path")


def direct(prop, name, fn, **kw):
    from tfv.reg import add

    def run():
        res = Result(name)
        solve.reset()
        t0 = time.time()
        try:
            fn(res)
        except Unsupported as e:
            res.undecided("encoding: %s" % e)
        res.wall, res.solver, res.queries = time.time() - t0, dict(solve.STATS), solve.STATS["queries"]
        return res
    add(prop, name, run, kind="direct", **kw)
