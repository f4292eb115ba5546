"""Back ends: exact normal form (nf), modular identity test (pit), z3, cvc5, numeric sampling (refutation only)."""
import math
import os
import random
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from .terms import *
from . import terms as T
from .nf import NF, Blowup
from . import tm
from .intblast import int_unsat

P = (1 << 127) - 1          # prime, = 3 mod 4
Z3_FEAS_MS = int(os.environ.get("THV_FEAS_MS", "400"))
Z3_PROVE_MS = int(os.environ.get("THV_PROVE_MS", "20000"))


class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n


class NotQR(Exception):
    pass


def h2(*a):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=16).digest(), "big") % P


class Pit:
    """evaluation of real terms in GF(p); algebraic atoms are evaluated consistently with their defining equations"""

    def __init__(self, seed):
        self.seed = seed
        self.memo = {}

    def ev(self, t):
        st = [t]
        memo = self.memo
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [a for a in x.args if a.sort == "R" and a.id not in memo]
            if todo and x.op in ("add", "sub", "mul", "div", "neg", "app"):
                st.extend(todo)
                continue
            memo[x.id] = self.ev1(x, memo)
            st.pop()
        return memo[t.id]

    def ev1(self, x, m):
        o = x.op
        if o == "rc":
            return x.val.numerator * pow(x.val.denominator, -1, P) % P
        if o == "rv":
            return h2("v", x.val, self.seed)
        if o == "add":
            return (m[x.args[0].id] + m[x.args[1].id]) % P
        if o == "sub":
            return (m[x.args[0].id] - m[x.args[1].id]) % P
        if o == "mul":
            return m[x.args[0].id] * m[x.args[1].id] % P
        if o == "neg":
            return -m[x.args[0].id] % P
        if o == "div":
            d = m[x.args[1].id]
            if d == 0:
                raise NotQR()
            return m[x.args[0].id] * pow(d, -1, P) % P
        if o == "app":
            a = [m[y.id] if y.sort == "R" else ("n", y.id) for y in x.args]
            n = x.val
            if n == "sqrt":
                r = pow(a[0], (P + 1) // 4, P)
                if r * r % P != a[0]:
                    raise NotQR()
                return min(r, P - r)
            if n in ("sin", "cos"):
                v, sg = a[0], 1
                if v > P // 2:
                    v, sg = P - v, -1
                if v == 0:
                    return 0 if n == "sin" else 1
                t = h2("trig", v, self.seed)
                d = pow(1 + t * t, -1, P)
                return sg * 2 * t * d % P if n == "sin" else (1 - t * t) * d % P
            return h2("app", n, a, self.seed)
        return h2("node", x.id, self.seed)


def pit_zero(t, rounds=3):
    """True: identically zero (error prob < deg/2^127 per round); False: certainly not the zero function; None: undecided"""
    got = 0
    for s in range(400):
        try:
            v = Pit(s).ev(t)
        except NotQR:
            continue
        if v:
            return False
        got += 1
        if got >= rounds:
            return True
    return None


class _Fp(Pit):
    def ev1(self, x, m):
        try:
            return Pit.ev1(self, x, m)
        except NotQR:
            return h2("opaque", x.id, self.seed)


_FP = _Fp(77001)


def fingerprint(t):
    return _FP.ev(t)


def _same(a, b):
    return pit_zero(rsub(a, b), 2) is True


T.FINGERPRINT = fingerprint
T.SAME = _same


# ---------------------------------------------------------------- z3 lowering
class Lower:
    def __init__(self, intmode=False):
        self.memo = {}
        self.side = []
        self.funcs = {}
        self.inputs = {}
        self.intmode = intmode

    def fn(self, name, n):
        k = (name, n)
        if k not in self.funcs:
            self.funcs[k] = z3.Function("f_" + name.replace(":", "_"), *([z3.RealSort()] * (n + 1)))
        return self.funcs[k]

    def lo(self, t):
        st = [t]
        memo = self.memo
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x.id] = self.lo1(x)
            st.pop()
        return memo[t.id]

    def lo1(self, x):
        m = self.memo
        a = [m[y.id] for y in x.args]
        o = x.op
        s = x.sort
        if s == "R":
            if o == "rc":
                return z3.RealVal(str(x.val))
            if o == "rv" and x.val == "!pi":
                v = z3.Real("pi")
                self.side += [v > z3.RealVal("3.14159265358979"), v < z3.RealVal("3.1415926535898")]
                return v
            if o == "rv":
                v = z3.Real("r!" + str(x.val))
                self.inputs[x.val] = v
                return v
            if o == "add":
                return a[0] + a[1]
            if o == "sub":
                return a[0] - a[1]
            if o == "mul":
                return a[0] * a[1]
            if o == "div":
                return a[0] / a[1]
            if o == "neg":
                return -a[0]
            if o == "ite":
                return z3.If(a[0], a[1], a[2])
            if o == "app":
                n = x.val
                if n == "sqrt":
                    v = z3.Real("sqrt!%d" % x.id)
                    self.side += [v >= 0, v * v == a[0]]
                    return v
                if n == "cbrt":
                    v = self.fn(n, 1)(a[0])
                    self.side += [v * v * v == a[0]]
                    return v
                if n in ("sin", "cos"):
                    sn, cs = self.fn("sin", 1)(a[0]), self.fn("cos", 1)(a[0])
                    self.side.append(sn * sn + cs * cs == 1)
                    return sn if n == "sin" else cs
                if n in ("exp", "exp2"):
                    v = self.fn(n, 1)(a[0])
                    self.side.append(v > 0)
                    self.side.append((a[0] > 0) == (v > 1))
                    self.side.append((a[0] == 0) == (v == 1))
                    return v
                if n in ("ln", "log2"):
                    v = self.fn(n, 1)(a[0])
                    self.side.append(z3.Implies(a[0] > 0, (a[0] > 1) == (v > 0)))
                    self.side.append(z3.Implies(a[0] == 1, v == 0))
                    return v
                if any(y.sort != "R" for y in x.args):
                    # int-indexed application
                    f = self.funcs.get((n, "i"))
                    if f is None:
                        f = self.funcs[(n, "i")] = z3.Function("g_" + n, *[z.sort() for z in a], z3.RealSort())
                    return f(*a)
                return self.fn(n, len(a))(*a)
            if o == "i2r":
                if self.intmode:
                    return z3.ToReal(a[0])
                return z3.ToReal(z3.BV2Int(a[0], x.val == "s"))
            raise NotImplementedError("lower " + o)
        if s == "B":
            if o == "true":
                return z3.BoolVal(True)
            if o == "false":
                return z3.BoolVal(False)
            if o == "bv":
                return z3.Bool("b!" + str(x.val))
            if o == "not":
                return z3.Not(a[0])
            if o == "and":
                return z3.And(*a)
            if o == "ite":
                return z3.If(a[0], a[1], a[2])
            if o in ("req", "ieq"):
                return a[0] == a[1]
            if o == "rlt":
                return a[0] < a[1]
            if o == "iult":
                return (a[0] < a[1]) if self.intmode else z3.ULT(a[0], a[1])
            if o == "islt":
                return a[0] < a[1]
            if o == "feq":
                return z3.fpEQ(a[0], a[1])
            if o == "flt":
                return z3.fpLT(a[0], a[1])
            if o == "fle":
                return z3.fpLEQ(a[0], a[1])
            if o == "fnan":
                return z3.fpIsNaN(a[0])
            if o == "fsame":      # identical doubles (NaN==NaN, -0 != +0)
                return a[0] == a[1]
            if o == "fisint":
                return z3.fpEQ(a[0], z3.fpRoundToIntegral(z3.RTZ(), a[0]))
            raise NotImplementedError("lower " + o)
        if s == "F":
            F = z3.Float64()
            if o == "fc":
                return z3.FPVal(x.val, F)
            if o == "fv":
                v = z3.FP("d!" + str(x.val), F)
                self.inputs[x.val] = v
                return v
            R = z3.RNE()
            if o == "fadd":
                return z3.fpAdd(R, a[0], a[1])
            if o == "fsub":
                return z3.fpSub(R, a[0], a[1])
            if o == "fmul":
                return z3.fpMul(R, a[0], a[1])
            if o == "fdiv":
                return z3.fpDiv(R, a[0], a[1])
            if o == "fneg":
                return z3.fpNeg(a[0])
            if o == "fabs":
                return z3.fpAbs(a[0])
            if o == "fsqrt":
                return z3.fpSqrt(R, a[0])
            if o == "ffloor":
                return z3.fpRoundToIntegral(z3.RTN(), a[0])
            if o == "i2f":
                return z3.fpSignedToFP(R, a[0], F) if x.val == "s" else z3.fpUnsignedToFP(R, a[0], F)
            if o == "fbits":
                return z3.fpBVToFP(a[0], F)
            if o == "ite":
                return z3.If(a[0], a[1], a[2])
            if o == "app":
                f = self.funcs.get((x.val, "F"))
                if f is None:
                    f = self.funcs[(x.val, "F")] = z3.Function("F_" + x.val, *[F] * (len(a) + 1))
                return f(*a)
            raise NotImplementedError("lower " + o)
        # ints
        w = s
        if self.intmode:
            if o == "ic":
                return z3.IntVal(x.val if x.val < 1 << (w - 1) else x.val - (1 << w))
            if o == "iv":
                v = z3.Int("i!" + str(x.val))
                self.inputs[x.val] = v
                self.side += [v >= 0, v < (1 << w)]
                return v
            if o == "iadd":
                return a[0] + a[1]
            if o == "isub":
                return a[0] - a[1]
            if o == "imul":
                return a[0] * a[1]
            if o in ("izext", "isext", "itrunc"):
                return a[0]
            if o in ("iudiv", "isdiv"):
                return a[0] / a[1]
            if o in ("iurem", "isrem"):
                return a[0] % a[1]
            if o == "ite":
                return z3.If(a[0], a[1], a[2])
            if o == "r2i":
                v = z3.Int("t!%d" % x.id)
                y = a[0]
                self.side += [z3.Implies(y >= 0, z3.And(z3.ToReal(v) <= y, y < z3.ToReal(v) + 1)),
                              z3.Implies(y < 0, z3.And(z3.ToReal(v) >= y, y > z3.ToReal(v) - 1))]
                return v
            if o == "ilshr" and x.args[1].op == "ic":
                return a[0] / z3.IntVal(1 << x.args[1].val)
            if o == "ishl" and x.args[1].op == "ic":
                return a[0] * z3.IntVal(1 << x.args[1].val)
            raise NotImplementedError("lower int " + o)
        if o == "ic":
            return z3.BitVecVal(x.val, w)
        if o == "iv":
            v = z3.BitVec("i!" + str(x.val), w)
            self.inputs[x.val] = v
            return v
        if o == "ite":
            return z3.If(a[0], a[1], a[2])
        if o == "izext":
            return z3.ZeroExt(w - x.args[0].sort, a[0])
        if o == "isext":
            return z3.SignExt(w - x.args[0].sort, a[0])
        if o == "itrunc":
            return z3.Extract(w - 1, 0, a[0])
        if o == "r2i":
            return z3.Int2BV(z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0])), w)
        if o == "f2i":
            return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(w)) if x.val == "s" else z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(w))
        if o == "f2bits":
            return z3.fpToIEEEBV(a[0])
        if o == "iapp":
            f = self.funcs.get((x.val, "iapp"))
            if f is None:
                f = self.funcs[(x.val, "iapp")] = z3.Function("u_" + x.val, *[z.sort() for z in a], z3.BitVecSort(w))
            return f(*a)
        D = {"iadd": lambda p, q: p + q, "isub": lambda p, q: p - q, "imul": lambda p, q: p * q,
             "iand": lambda p, q: p & q, "ior": lambda p, q: p | q, "ixor": lambda p, q: p ^ q,
             "ishl": lambda p, q: p << q, "ilshr": z3.LShR, "iashr": lambda p, q: p >> q,
             "iudiv": z3.UDiv, "isdiv": lambda p, q: p / q, "iurem": z3.URem, "isrem": z3.SRem}
        return D[o](a[0], a[1])


INT_OK = {"ic", "iv", "iadd", "isub", "imul", "izext", "isext", "itrunc", "ite", "r2i", "ieq", "iult", "islt",
          "iudiv", "isdiv", "iurem", "isrem", "ilshr", "ishl"}


def pick_intmode(nodes):
    mixed = False
    for x in atoms_of(nodes):
        if x.op in ("r2i", "i2r") or (x.op == "app" and any(isinstance(y.sort, int) for y in x.args)):
            mixed = True
        elif isinstance(x.sort, int) and x.op not in INT_OK:
            return False
    return mixed


def relevant(pc, goal):
    """cone of influence: drop path conditions sharing no variable with the goal (sound for proving)"""
    return pc


def fval(v):
    """z3 numeral -> python number"""
    try:
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_fp(v):
            if v.isNaN():
                return float("nan")
            if v.isInf():
                return float("-inf") if v.isNegative() else float("inf")
            b = z3.simplify(z3.fpToIEEEBV(v))
            import struct
            return struct.unpack("<d", struct.pack("<Q", b.as_long()))[0]
    except Exception:
        return None
    return None


def run_z3(conj, ms, want_model=False, intmode=None):
    """conj: list of bool Nodes -> ('sat'|'unsat'|'unknown', model dict or None)"""
    if intmode is None:
        intmode = pick_intmode(conj)
    L = Lower(intmode)
    try:
        fs = [L.lo(c) for c in conj]
    except NotImplementedError as e:
        return "unknown", str(e)
    hasF = any(x.sort == "F" for x in atoms_of(conj))
    s = z3.Solver() if not hasF else z3.SolverFor("QF_FPBV") if not L.funcs else z3.Solver()
    s.set("timeout", int(ms))
    s.add(*fs)
    s.add(*L.side)
    r = str(s.check())
    if r == "unknown" and not hasF and not L.funcs and not intmode and not any(isinstance(x.sort, int) for x in atoms_of(conj)):
        t = z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver()
        t.set("timeout", int(ms))
        t.add(*fs)
        t.add(*L.side)
        r = str(t.check())
        s = t
    if r == "sat" and want_model:
        m = s.model()
        out = {}
        for k, v in L.inputs.items():
            q = fval(m.eval(v, model_completion=True))
            if q is not None:
                out[k] = q
        # uninterpreted function tables
        tabs = {}
        for (nm, ar), f in L.funcs.items():
            fi = m[f]
            if isinstance(fi, z3.FuncInterp) and fi.f and ar != "i":
                es = []
                for e in range(fi.num_entries()):
                    en = fi.entry(e)
                    es.append(([fval(en.arg_value(i)) for i in range(en.num_args())], fval(en.value())))
                tabs[nm] = (es, fval(fi.else_value()))
        out["!uf"] = tabs
        return r, out
    return r, None


def to_smt2(conj):
    L = Lower(pick_intmode(conj))
    fs = [L.lo(c) for c in conj]
    s = z3.Solver()
    s.add(*fs)
    s.add(*L.side)
    return s.to_smt2()


def run_cvc5(conj, secs):
    try:
        txt = to_smt2(conj)
    except NotImplementedError:
        return "unknown"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt.replace("(check-sat)", "(check-sat)\n"))
        fn = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(secs * 1000), "--force-logic=ALL", fn],
                           capture_output=True, text=True, timeout=secs + 5)
        o = p.stdout.strip().split("\n")[0] if p.stdout.strip() else ""
        return o if o in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(fn)


# ---------------------------------------------------------------- numeric evaluation (refutation by sampling)
class NumFail(Exception):
    pass


def ufval(name, args, seed):
    import hashlib
    if name == "pos":
        return max(args[0], 0)
    k = (name, tuple(round(float(a), 9) if not isinstance(a, int) else a for a in args), seed)
    h = int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), "big")
    return ((h % 2000001) - 1000000) / 250000.0


def numeval(ns, env, seed=0):
    memo = {}

    def ev(t):
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x.id] = ev1(x)
            st.pop()
        return memo[t.id]

    def ev1(x):
        a = [memo[y.id] for y in x.args]
        o = x.op
        try:
            if o == "rc":
                return float(x.val)
            if o == "rv" and x.val == "!pi":
                return math.pi
            if o == "rv" or o == "iv":
                return env(x)
            if o == "ic":
                return x.val
            if o == "add":
                return a[0] + a[1]
            if o == "sub":
                return a[0] - a[1]
            if o == "mul":
                return a[0] * a[1]
            if o == "div":
                return a[0] / a[1]
            if o == "neg":
                return -a[0]
            if o == "app":
                n = x.val
                if n == "sqrt":
                    return math.sqrt(a[0])
                if n == "sin":
                    return math.sin(a[0])
                if n == "cos":
                    return math.cos(a[0])
                if n == "exp":
                    return math.exp(a[0])
                if n == "exp2":
                    return 2.0 ** a[0]
                if n == "ln":
                    return math.log(a[0])
                if n == "log2":
                    return math.log2(a[0])
                if n == "atan":
                    return math.atan(a[0])
                if n == "pow":
                    return a[0] ** a[1]
                if n == "pos":
                    return max(a[0], 0.0)
                return ufval(n, a, seed)
            if o == "true":
                return True
            if o == "false":
                return False
            if o == "bv":
                return bool(hash((x.val, seed)) & 1)
            if o == "not":
                return not a[0]
            if o == "and":
                return all(a)
            if o == "req":
                return a[0] == a[1]
            if o == "rlt":
                return a[0] < a[1]
            if o == "ite":
                return a[1] if a[0] else a[2]
            if o == "i2r":
                w = x.args[0].sort
                return float(sx(a[0], w)) if x.val == "s" else float(a[0])
            if o in ("ieq", "iult", "islt"):
                return int_cmp({"ieq": "eq", "iult": "ult", "islt": "slt"}[o], a[0], a[1], x.args[0].sort)
            if o in ("izext", "itrunc"):
                return a[0] & ((1 << x.sort) - 1)
            if o == "isext":
                return sx(a[0], x.args[0].sort) & ((1 << x.sort) - 1)
            if isinstance(x.sort, int) and o[0] == "i":
                r = int_eval(o[1:], a[0], a[1], x.sort)
                if r is None:
                    raise NumFail()
                return r
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            raise NumFail()
        raise NumFail()
    return [ev(n) for n in ns]


def const_num(t):
    """value (many digits) of a term without free variables, None if it has any"""
    for x in atoms_of([t]):
        if (x.op == "rv" and x.val != "!pi") or x.op in ("iv", "bv", "fv", "iapp") or x.sort == "F":
            return None
        if x.op == "app" and x.val not in ("sqrt", "sin", "cos", "exp", "ln", "atan", "log2", "exp2", "cbrt"):
            return None
    try:
        return mpeval([t], None, None)[0]
    except NumFail:
        return None


def native_uf(seed, tabs):
    """the interpretation runtime/native.cpp gives to uninterpreted functions"""
    M = (1 << 64) - 1

    def hs(n, salt):
        h = 1469598103934665603 ^ (salt & M)
        for ch in n.encode():
            h = ((h ^ ch) * 1099511628211) & M
        z = h
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
        return z ^ (z >> 31)

    def cf(n, i):
        v = hs(n, seed * 131 + i)
        return Fraction((v % 17) - 8, 4)

    def f(name, a):
        import mpmath
        for args, r in tabs.get(name, ()):
            if len(args) == len(a) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(args, a)):
                return mpmath.mpf(r)
        q = lambda i: mpmath.mpf(cf(n, i).numerator) / cf(n, i).denominator
        if name.startswith("el_"):
            i = [int(mpmath.nint(x)) for x in a]
            v = hs(name[3:], (i[0] * 0x9E3779B97F4A7C15 + (i[1] * 0xD1B54A32D192ED03 if len(i) > 1 else 0) + seed) & M)
            return mpmath.mpf((v % 2049) - 1024) / 256
        if name == "pos":
            return max(a[0], mpmath.mpf(0))
        if name.startswith("uf_"):
            n = name[3:]
            x, = a
            return q(0) + x * (q(1) + x * (q(2) + x * q(3) / 8)) + q(4) * mpmath.sin(x * q(5))
        if name.startswith("uf2_"):
            n = name[4:]
            x, y = a
            return q(0) + q(1) * x + q(2) * y + q(3) * x * y + q(4) * mpmath.sin(x + q(5) * y)
        if name.startswith("uf3_"):
            n = name[4:]
            x, y, z = a
            return q(0) + q(1) * x + q(2) * y + q(6) * z + q(3) * x * y * z + q(4) * mpmath.sin(x + q(5) * y + z)
        if name.startswith("ufu_"):
            return hs(name[4:], (a[0] * 0x9E3779B97F4A7C15 + seed) & M)
        return mpmath.mpf(ufval(name, a, seed))
    return f


def mpeval(ns, env, uf, digits=120):
    """evaluation with many digits; comparisons closer than 1e-50 (relative) count as equal"""
    import mpmath
    mp = mpmath.mp
    old = mp.dps
    mp.dps = digits
    eps = mpmath.mpf(10) ** -50
    memo = {}
    U = {"sqrt": mpmath.sqrt, "sin": mpmath.sin, "cos": mpmath.cos, "exp": mpmath.exp, "ln": mpmath.log, "atan": mpmath.atan,
         "log2": lambda x: mpmath.log(x, 2), "exp2": lambda x: mpmath.power(2, x)}

    def ev1(x):
        a = [memo[y.id] for y in x.args]
        o = x.op
        if o == "rc":
            return mpmath.mpf(x.val.numerator) / x.val.denominator
        if o == "rv" and x.val == "!pi":
            return +mpmath.pi
        if o in ("rv", "iv"):
            v = env(x)
            if isinstance(v, Fraction):
                v = mpmath.mpf(v.numerator) / v.denominator
            return mpmath.mpf(v) if o == "rv" else v
        if o == "ic":
            return x.val
        if o in ("add", "sub", "mul", "div"):
            p, q = a
            if o == "div" and abs(q) < eps * eps:
                raise NumFail()
            return p + q if o == "add" else p - q if o == "sub" else p * q if o == "mul" else p / q
        if o == "neg":
            return -a[0]
        if o == "app":
            n = x.val
            if n in U:
                if n in ("sqrt", "ln", "log2") and a[0] < 0:
                    if a[0] > -eps and n == "sqrt":
                        return mpmath.mpf(0)
                    raise NumFail()
                if n in ("exp", "exp2") and abs(a[0]) > 1e6:
                    raise NumFail()
                return U[n](a[0])
            if n == "cbrt":
                return mpmath.sign(a[0]) * mpmath.cbrt(abs(a[0]))
            if n == "pow":
                return mpmath.power(a[0], a[1])
            return uf(n, a)
        if o == "iapp":
            return uf(x.val, a) & ((1 << x.sort) - 1)
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "not":
            return not a[0]
        if o == "and":
            return all(a)
        if o in ("req", "rlt"):
            p, q = a
            near = abs(p - q) <= eps * max(1, abs(p), abs(q))
            return bool(near) if o == "req" else bool(not near and p < q)
        if o == "ite":
            return a[1] if a[0] else a[2]
        if o == "i2r":
            w = x.args[0].sort
            return mpmath.mpf(sx(a[0], w) if x.val == "s" else a[0])
        if o == "r2i":
            n = mpmath.nint(a[0])
            v = int(n) if abs(n - a[0]) < eps else int(a[0])
            return v & ((1 << x.sort) - 1)
        if o in ("ieq", "iult", "islt"):
            return int_cmp({"ieq": "eq", "iult": "ult", "islt": "slt"}[o], a[0], a[1], x.args[0].sort)
        if o in ("izext", "itrunc"):
            return a[0] & ((1 << x.sort) - 1)
        if o == "isext":
            return sx(a[0], x.args[0].sort) & ((1 << x.sort) - 1)
        if isinstance(x.sort, int) and o[0] == "i":
            r = int_eval(o[1:], a[0], a[1], x.sort)
            if r is not None:
                return r
        raise NumFail()
    try:
        out = []
        for t in ns:
            st = [t]
            while st:
                x = st[-1]
                if x.id in memo:
                    st.pop()
                    continue
                todo = [y for y in x.args if y.id not in memo]
                if todo:
                    st.extend(todo)
                    continue
                memo[x.id] = ev1(x)
                st.pop()
            out.append(memo[t.id])
        return out
    except (ValueError, ZeroDivisionError, OverflowError, TypeError, AttributeError):
        raise NumFail()
    finally:
        mp.dps = old


POOL = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, 4.0, -3.0, 0.25, 10.0, 1.5]


def bit_test(c):
    """(variable, mask, value) if c says that the masked bits of a variable have that value"""
    pos = True
    while c.op == "not":
        c = c.args[0]
        pos = not pos
    if c.op != "ieq":
        return None
    a, b = c.args
    if a.op == "ic":
        a, b = b, a
    if b.op != "ic" or a.op != "iand" or a.args[1].op != "ic" or a.args[0].op != "iv":
        return None
    m = a.args[1].val
    if pos:
        return a.args[0], m, b.val & m
    if m & (m - 1) == 0:
        return a.args[0], m, m if b.val == 0 else 0
    return None


def bit_witness(pc, cond):
    """True if a value built from the bit tests of the path satisfies all of it"""
    t = bit_test(cond)
    if t is None:
        return False
    x = t[0]
    conj = list(pc) + [cond]
    v = 0
    for c in conj:
        q = bit_test(c)
        if q is not None and q[0] is x:
            v |= q[2]
    try:
        return all(numeval(conj, lambda n: v if n is x else 0, 0))
    except NumFail:
        return False


class Solver:
    def __init__(self, stats=None):
        self.stats = stats if stats is not None else Stats()
        self.feas_cache = {}
        self.consts = []
        self.exact = None
        self.lemmas = {}     # goal -> path conditions under which it was proved

    def nf(self, secs=8):
        return NF(time.time() + secs)

    # ---- equalities of the path used as rewrite rules
    def solved_eqs(self, pc):
        mp = {}
        for c in pc:
            if c.op != "req":
                continue
            a, b = c.args
            if mp:
                a, b = subst(a, mp), subst(b, mp)
            for u, v in ((a, b), (b, a)):
                if u.op == "rv" and u.val != "!pi" and not any(y is u for y in atoms_of([v])):
                    one = {u.id: v}
                    for k in list(mp):
                        mp[k] = subst(mp[k], one)
                    mp[u.id] = v
                    break
            else:
                # linear with constant coefficient in some variable
                try:
                    nf = self.nf()
                    r = nf.of(rsub(a, b))
                    if len(r[0]) > 200:
                        continue
                    from .nf import BITS, EMASK
                    for i, (kind, x) in enumerate(nf.atoms):
                        if kind != "var" or x.val == "!pi":
                            continue
                        key = 1 << (BITS * i)
                        if key in r[0] and all(((m >> (BITS * i)) & EMASK) == 0 for m in r[0] if m != key):
                            if any(x in atoms_of([d[2]]) for kk, d in nf.atoms if kk == "app" and d[2] is not None):
                                continue
                            if r[2]:
                                continue
                            coef = r[0][key]
                            # x = -(rest)/coef : rebuild a term
                            d = rsub(a, b)
                            rest = subst(d, {x.id: R0})
                            val = rdiv(rneg(rest), rc(Fraction(coef, r[1])))
                            one = {x.id: val}
                            for k in list(mp):
                                mp[k] = subst(mp[k], one)
                            mp[x.id] = val
                            break
                except (Blowup, ZeroDivisionError, IndexError, AttributeError):
                    pass
        return mp

    def zero_rewrite(self, pc, d):
        """d = 0, after replacing the subterms the path equates to zero and roots of squares of known sign"""
        zs = [rsub(*c.args) for c in pc if c.op == "req" and c.args[0].sort == "R"]
        at = atoms_of([d])
        sq = [x for x in at if x.op == "app" and x.val == "sqrt"]
        if not zs or not sq or len(at) > 400:
            return False
        mp = {}
        try:
            for x in at:
                if x.op in ("add", "sub", "mul", "neg") and len(mp) < 40:
                    for z in zs[:8]:
                        if self.nf(1).is_zero(rsub(x, z)) or self.nf(1).is_zero(radd(x, z)):
                            mp[x.id] = R0
                            break
            if not mp:
                return False
            d = subst(d, mp)
            for x in atoms_of([d]):
                if x.op == "app" and x.val == "sqrt" and x.args[0].op == "mul" and x.args[0].args[0] is x.args[0].args[1]:
                    y = x.args[0].args[0]
                    if not self.feasible(pc, rlt(y, R0), 2000):
                        d = subst(d, {x.id: y})
                    elif not self.feasible(pc, rlt(R0, y), 2000):
                        d = subst(d, {x.id: rneg(y)})
            return self.nf().is_zero(d)
        except (Blowup, ZeroDivisionError):
            return False

    def quick_bool(self, c, secs=8):
        """decide a bool node by normalisation only"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        neg = False
        while c.op == "not":
            c = c.args[0]
            neg = not neg
        if c.op in ("req", "rlt"):
            try:
                v = self.nf(secs).const_value(rsub(c.args[0], c.args[1]))
            except (Blowup, ZeroDivisionError):
                v = None
            if v is None:
                l, r = [x.val if x.op == "rc" else self.hidden_const(x) for x in c.args]
                v = l - r if l is not None and r is not None else None
            if v is None:
                d = const_num(rsub(c.args[0], c.args[1]))
                if d is not None and abs(d) > 1e-40:
                    return ((d < 0) if c.op == "rlt" else False) != neg
            if v is not None:
                r = (v == 0) if c.op == "req" else (v < 0)
                return r != neg
        return None

    def hidden_const(self, d):
        """value of d if it is a constant in disguise (sin^2 + cos^2, ...): guessed numerically, proved by normal form"""
        if not any(x.op == "app" and x.val in ("sqrt", "sin", "cos", "cbrt", "exp") for x in atoms_of([d])):
            return None
        vals = []
        for k in range(8):
            rnd = random.Random(99 + k)
            memo = {}
            try:
                v, = numeval([d], lambda x: memo.setdefault(x.id, rnd.uniform(0.3, 2.7) if x.op == "rv" else rnd.randint(1, 9)), 5)
            except NumFail:
                continue
            vals.append(v)
            if len(vals) == 3:
                break
        if len(vals) < 3 or not all(math.isfinite(v) for v in vals) or max(vals) - min(vals) > 1e-9 * max(1.0, abs(vals[0])):
            return None
        g = Fraction(vals[0]).limit_denominator(1000)
        if abs(float(g) - vals[0]) > 1e-9:
            return None
        try:
            if self.nf(2.0).is_zero(rsub(d, rc(g))):
                return g
        except (Blowup, ZeroDivisionError):
            pass
        return None

    def null_sums(self, c):
        """c with the sums and differences that are identically zero (x^(1/n)^n - x, ...) replaced by 0"""
        at = atoms_of([c])
        if len(at) > 300 or not any(x.op == "app" and x.val in ("sqrt", "cbrt", "exp") for x in at):
            return c
        mp = {}
        for x in at:
            if x.op in ("add", "sub") and any(y.op == "app" for y in atoms_of([x])):
                try:
                    if self.nf(1.0).is_zero(x):
                        mp[x.id] = R0
                except (Blowup, ZeroDivisionError):
                    pass
        return subst(c, mp) if mp else c

    def nonzero_by_path(self, pc, d):
        """True if d is, by exact division of normal forms, a product of terms the path already knows to be nonzero"""
        try:
            nf = self.nf(2.0)
            num = nf.of(d)[0]
            if not num:
                return False
            known = []
            for c in pc:
                if c.op == "not" and c.args[0].op == "req":
                    t = rsub(*c.args[0].args)
                elif c.op == "rlt":
                    t = rsub(*c.args)
                else:
                    continue
                known.append(nf.of(t)[0])
            for q in known:
                if not q:
                    continue
                g, mono, f = nf.factor(q)
                fs = [k for k, e in nf.mono_factors(mono)] + ([f] if f is not None else [])
                for f in fs:
                    while len(num) >= 1:
                        z = nf.try_divide(num, f)
                        if z is None:
                            break
                        num = z
                if list(num) == [0]:
                    return True
            return list(num) == [0]
        except (Blowup, ZeroDivisionError):
            return False

    def nonneg(self, t, pc, depth=0):
        """t >= 0 by its form: squares, sums, products, roots, facts of the path"""
        if t.op == "rc":
            return t.val >= 0
        if depth > 60:
            return False
        o = t.op
        if o == "mul":
            fs, st = {}, [t]
            while st:
                x = st.pop()
                if x.op == "mul" and len(st) < 200:
                    st.extend(x.args)
                elif x.op == "neg":
                    fs[-1] = fs.get(-1, 0) + 1
                    st.append(x.args[0])
                else:
                    fs[x.id] = fs.get(x.id, 0) + 1
                    fs.setdefault("n", {})[x.id] = x
            if fs.get(-1, 0) % 2:
                return False
            return all(fs[i] % 2 == 0 or self.nonneg(x, pc, depth + 1) for i, x in fs["n"].items())
        if o == "add":
            st = [t]
            while st:
                x = st.pop()
                if x.op == "add":
                    st.extend(x.args)
                elif not self.nonneg(x, pc, depth + 1):
                    return False
            return True
        if o == "div":
            return all(self.nonneg(a, pc, depth + 1) for a in t.args)
        if o == "app":
            return t.val in ("sqrt", "exp", "exp2") or self.fact_nonneg(t, pc)
        if o == "i2r":
            return t.val == "u"
        if o == "rv" and t.val == "!pi":
            return True
        return self.fact_nonneg(t, pc)

    def fact_nonneg(self, t, pc):
        for c in pc:
            if c.op == "rlt" and c.args[1] is t and c.args[0].op == "rc" and c.args[0].val >= 0:
                return True
            if c.op == "not" and c.args[0].op == "rlt" and c.args[0].args[0] is t and c.args[0].args[1].op == "rc" and c.args[0].args[1].val >= 0:
                return True
        return False

    def impossible_sign(self, pc, c):
        if c.op == "rlt" and c.args[1].op == "rc" and c.args[1].val <= 0:
            return self.nonneg(c.args[0], pc)
        if c.op == "rlt" and c.args[0].op == "rc" and c.args[0].val >= 0 and c.args[1].op == "neg":
            return self.nonneg(c.args[1].args[0], pc)
        return False

    def by_bounds(self, pc, cond):
        """contradiction of cond (a strict or weak inequality) with one inequality of the path, by normal forms"""
        def ineq(c):        # (d, strict) meaning d < 0 or d <= 0
            if c.op == "rlt":
                return rsub(*c.args), True
            if c.op == "not" and c.args[0].op == "rlt":
                a, b = c.args[0].args
                return rsub(b, a), False
            return None
        q = ineq(cond)
        if q is None:
            return False
        for c in pc:
            r = ineq(c)
            if r is None:
                continue
            try:
                v = self.nf(0.5).const_value(radd(q[0], r[0]))
            except (Blowup, ZeroDivisionError):
                continue
            if v is not None and (v > 0 or (v == 0 and (q[1] or r[1]))):
                return True
        return False

    def feasible(self, pc, cond, ms=None):
        """may cond hold on this path?  True when unknown."""
        if self.exact is not None:
            return self.exact(cond)
        key = (tuple(c.id for c in pc), cond.id)
        r = self.feas_cache.get(key)
        if r is not None:
            return r
        ncond = bnot(cond)
        if ncond in pc:
            r = False
        elif cond in pc:
            r = True
        elif self.impossible_sign(pc, cond):
            r = False
        else:
            hard = tm.hard(bnot(cond))
            if hard and tm.prove(pc, bnot(cond), 4.0, 250):
                q = False
            else:
                q = self.quick_bool(cond, 0.5 if hard else 3)
            if q is not None:
                r = q
            elif cond.op == "req" and pc and self.nonzero_by_path(pc, rsub(*cond.args)):
                r = False
            elif bit_witness(pc, cond):
                r = True
            elif self.impossible_sign(pc, cond):
                r = False
            elif self.null_sums(cond) is not cond:
                r = self.feasible(pc, self.null_sums(cond), ms)
            else:
                t0 = time.time()
                st, _ = run_z3(list(pc) + [cond], ms or Z3_FEAS_MS)
                self.stats.inc("feas_queries")
                self.stats.inc("solver_s", time.time() - t0)
                r = st != "unsat"
                if st == "unknown" and self.by_bounds(pc, cond):
                    r = False
        self.feas_cache[key] = r
        return r

    def sample(self, pc, goal, tries=60):
        """look for an input satisfying pc and clearly violating goal; returns dict or None"""
        neg = False
        g = goal
        while g.op == "not":
            g = g.args[0]
            neg = not neg
        rnd = random.Random(12345)
        leaves = [x for x in atoms_of(list(pc) + [goal]) if x.op in ("rv", "iv") and x.val != "!pi"]
        if any(x.sort == "F" for x in atoms_of([goal])):
            return None
        consts = []
        for x in atoms_of(list(pc)):
            if x.op == "rc":
                consts.append(float(x.val))
        for k in range(tries):
            vals = {}
            for x in leaves:
                if x.op == "rv":
                    z = rnd.random()
                    if z < 0.15 and consts:
                        v = rnd.choice(consts) + rnd.choice([0, 0, 0, 1, -1])
                    elif z < 0.4:
                        v = rnd.choice(POOL)
                    elif z < 0.7:
                        v = float(rnd.randint(-8, 8))
                    else:
                        v = rnd.uniform(-4, 4)
                    vals[x.val] = v
                else:
                    z = rnd.random()
                    vals[x.val] = rnd.getrandbits(x.sort) if z < 0.3 else rnd.randint(0, 20) if z < 0.8 else (1 << x.sort) - 1 - rnd.randint(0, 5)
                    vals[x.val] &= (1 << x.sort) - 1
            try:
                pcv = numeval(pc, lambda x: vals[x.val], k)
                if not all(pcv):
                    continue
                if g.op == "req":
                    l, r = numeval(g.args, lambda x: vals[x.val], k)
                    if not (math.isfinite(l) and math.isfinite(r)):
                        continue
                    diff = abs(l - r) > 1e-6 * max(1.0, abs(l), abs(r))
                    bad = diff != neg
                elif g.op == "rlt":
                    l, r = numeval(g.args, lambda x: vals[x.val], k)
                    if abs(l - r) <= 1e-9 * max(1.0, abs(l), abs(r)):
                        continue
                    bad = (not (l < r)) != neg
                else:
                    v, = numeval([g], lambda x: vals[x.val], k)
                    bad = (not v) != neg
                if bad:
                    # rule out rounding artefacts of the evaluation itself
                    seed = k
                    out = mpeval(list(pc) + [goal], lambda x: vals[x.val], lambda n, a: ufval(n, a, seed))
                    if all(out[:-1]) and not out[-1]:
                        return vals
            except NumFail:
                continue
        return None

    def witness(self, pc, v):
        """value of v at some point satisfying the path condition, None if none is found"""
        rnd = random.Random(7)
        leaves = [x for x in atoms_of(list(pc) + [v]) if x.op in ("rv", "iv") and x.val != "!pi"]
        if any(x.sort == "F" for x in atoms_of(list(pc) + [v])):
            return None
        for k in range(400):
            vals = {x.val: (rnd.choice([1, 1, 2, 5, 20]) * rnd.uniform(-1, 1) if rnd.random() < 0.7 else rnd.uniform(0, 1)) if x.op == "rv"
                    else rnd.randint(0, 20) & ((1 << x.sort) - 1) for x in leaves}
            try:
                if all(numeval(pc, lambda x: vals[x.val], k)):
                    x, = numeval([v], lambda x: vals[x.val], k)
                    if math.isfinite(x):
                        return x
            except NumFail:
                continue
        r, m = run_z3(list(pc), 3000, want_model=True)
        if r == "sat" and m:
            try:
                vals = {x.val: float(m.get(x.val, 1)) if x.op == "rv" else int(m.get(x.val, 1)) for x in leaves}
                x, = numeval([v], lambda x: vals[x.val], 0)
                if math.isfinite(x):
                    return x
            except (NumFail, TypeError, ValueError):
                pass
        return None

    def prove(self, pc, goal, budget_ms=None):
        """-> (verdict, backend, model)   verdict in proved / refuted / unknown"""
        if self.exact is not None:
            return ("proved", "exact", None) if self.exact(goal) else ("refuted", "exact", {})
        t0 = time.time()
        ids = frozenset(c.id for c in pc)
        for old in self.lemmas.get(goal.id, ()):
            if old <= ids:
                return "proved", "path", None
        try:
            r = self._prove(pc, goal, budget_ms or Z3_PROVE_MS)
            if r[0] == "proved" and r[1] in ("z3", "cvc5", "int", "taylor model"):
                self.lemmas.setdefault(goal.id, []).append(ids)
            return r
        finally:
            self.stats.inc("solver_s", time.time() - t0)

    def _prove(self, pc, goal, ms):
        if goal is TRUE:
            return "proved", "eval", None
        if goal in pc:
            return "proved", "path", None
        q = self.quick_bool(goal)
        if q is True:
            return "proved", "nf", None
        if goal.op == "not" and self.impossible_sign(pc, goal.args[0]):
            return "proved", "nf", None
        g = goal
        eqs = None
        if g.op == "and":
            be = "nf"
            for x in g.args:
                v, b, m = self._prove(pc, x, ms)
                if v != "proved":
                    return v, b, m
                if b != "nf":
                    be = b
            return "proved", be, None
        if g.op == "req":
            d = rsub(*g.args)
            blow = False
            try:
                if self.nf().is_zero(d):
                    return "proved", "nf", None
            except (Blowup, ZeroDivisionError):
                blow = True
            eqs = self.solved_eqs(pc)
            if eqs:
                d2 = subst(d, eqs)
                try:
                    if self.nf().is_zero(d2):
                        return "proved", "nf", None
                except (Blowup, ZeroDivisionError):
                    blow = True
            if blow:
                if pit_zero(d) or (eqs and pit_zero(subst(d, eqs))):
                    return "proved", "pit", None
            if self.zero_rewrite(pc, d):
                return "proved", "nf", None
        s = self.sample(pc, goal)
        if s is not None:
            return "refuted", "sample", s
        if tm.hard(goal) and tm.prove(pc, goal):
            return "proved", "taylor model", None
        conj = list(pc) + [bnot(goal)]
        if any(x.op in ("imul", "iudiv", "iurem") for x in atoms_of([goal])) and int_unsat(conj, ms / 2):
            return "proved", "int", None
        r, m = run_z3(conj, ms, want_model=True)
        if r == "unsat":
            return "proved", "z3", None
        if r == "sat":
            return "refuted", "z3", m
        if eqs:
            c2 = [subst(c, eqs) for c in conj]
            c2 = [c for c in c2 if c is not TRUE]
            r, m2 = run_z3(c2, ms, want_model=True)
            if r == "unsat":
                return "proved", "z3", None
        s = self.sample(pc, goal, 1500)
        if s is not None:
            return "refuted", "sample", s
        r = run_cvc5(conj, ms / 1000.0)
        if r == "unsat":
            return "proved", "cvc5", None
        if r == "sat":
            return "refuted", "cvc5", None
        # last resort, long timeouts: an infeasible path, or a loaded machine
        r, _ = run_z3(list(pc), 3 * ms)
        if r == "unsat":
            return "proved", "z3", None
        r, m2 = run_z3(conj, 3 * ms, want_model=True)
        if r == "unsat":
            return "proved", "z3", None
        if r == "sat":
            return "refuted", "z3", m2
        return "unknown", "z3+cvc5", m if isinstance(m, str) else None
