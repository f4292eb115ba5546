"""Trusted contracts: contract intrinsics (thv_*), C/C++ runtime, x87 instructions, and callee contracts of the
library's own transcendental functions (used at call sites instead of their bodies; their bodies are checked by
the elementary-function contracts)."""
from .terms import *
from . import terms as T
import math


def _ex():
    from . import execu
    return execu


def cstr(E, p):
    o, off = p.obj, p.off
    s = b""
    while True:
        b = E.assemble(o, off, 1, _I8)
        if not isinstance(b, int) or b == 0:
            break
        s += bytes([b])
        off += 1
    return s.decode()


class _TyI8:
    kind = "int"
    width = 8
    store = 1
    size = 1


class _TyI32:
    kind = "int"
    width = 32
    store = 4
    size = 4


_I8 = _TyI8()
_I32 = _TyI32()


class _TyI64:
    kind = "int"
    width = 64
    store = 8
    size = 8


class _TyPtr:
    kind = "ptr"
    width = 64
    store = 8
    size = 8


_I64 = _TyI64()
_PTR = _TyPtr()


def inp(E, args):
    n = cstr(E, args[0]) + "#%d" % E.ninput
    E.ninput += 1
    return n


def fixed_real(E, n):
    v = float.fromhex(E.fixed[n]) if n in E.fixed else 0.0
    if v != v:
        return T.NAN
    if v in (float("inf"), float("-inf")):
        return T.PINF if v > 0 else T.NINF
    return rc(Fraction(v))


def thv_real(E, a):
    n = inp(E, a)
    if E.fixed is not None and not E.fp:
        return fixed_real(E, n)
    if E.fp:
        v = mk("fv", (), "F", n)
        E.inputs.append((n, "double", None))
        big = mk("fc", (), "F", 1.7976931348623157e308)
        E.assume(mk("fle", (mk("fabs", (v,), "F"), big), "B"))
        return v
    E.inputs.append((n, "real", None))
    return rv(n)


def thv_double(E, a):
    n = inp(E, a)
    if E.fixed is not None and not E.fp:
        return fixed_real(E, n)
    if E.fp:
        E.inputs.append((n, "double", None))
        return mk("fv", (), "F", n)
    k = E.choose(4)
    if k == 0:
        E.inputs.append((n, "real", None))
        return rv(n)
    E.inputs.append((n, "const", ["", "nan", "inf", "-inf"][k]))
    return [None, T.NAN, T.PINF, T.NINF][k]


def mk_uint(w, signed=False):
    def f(E, a):
        n = inp(E, a)
        lo, hi = a[1], a[2]
        if E.fixed is not None:
            return int(E.fixed.get(n, "0"), 0) & ((1 << w) - 1)
        E.inputs.append((n, "int%d" % w, None))
        v = iv(n, w)
        p = "s" if signed else "u"
        full_lo = (1 << (w - 1)) if signed else 0
        full_hi = ((1 << (w - 1)) - 1) if signed else (1 << w) - 1
        if lo != full_lo:
            E.assume(bnot(icmp(p + "lt", v, ic(lo, w), w)))
        if hi != full_hi:
            E.assume(bnot(icmp(p + "lt", ic(hi, w), v, w)))
        return v
    return f


def thv_size(E, a):
    """a size without a bound: any integer from lo to 2^30"""
    n = inp(E, a)
    if E.fixed is not None:
        return int(E.fixed.get(n, "0"), 0) & ((1 << 64) - 1)
    E.inputs.append((n, "int64", None))
    v = iv(n, 64)
    r = mk("i2r", (v,), "R", "u")
    E.assume(T.rlt(r, rc(1 << 30)))
    if a[1]:
        E.assume(bnot(T.rlt(r, rc(a[1]))))
    return v


def LP():
    from . import loops
    return loops


def thv_elem(E, a):
    """the element of a dataset at an index, any real number"""
    n = "el_" + cstr(E, a[0])
    xs = []
    for i in a[1:]:
        if isinstance(i, int):
            L = LP().Lin(k=i)
            xs.append(rc(i))
            continue
        if i is _ex().UNDEF:
            raise _ex().Fail("uninitialised", "index")
        L = E.ints.lin(i)
        if L is None:
            raise _ex().Unsupported("index which is not linear: %s" % T.show(i)[:80])
        xs.append(L.term())
    if len(xs) == 1:
        if not any(x.op == "iv" and x.val[:2] in ("!k", "!i") for y, _ in L.c.values() for x in T.atoms_of([y])):
            E.accessed.setdefault((n, L.key()), (n, L))
        if E.foralls:
            LP().instantiate(E, n, L)
    return app(n, *xs)


def thv_spec(E, a):
    """calls of a recursive function are replaced by its specification (inside of its own body when a measure is given)"""
    E.specs[cstr(E, a[0])] = (a[1].obj.name, a[2].obj.name if hasattr(a[2], "obj") and a[2].obj is not None else None)


def spec_call(E, name, a, sp):
    fn, measure = sp
    outer = [fr for fr in E.stack if fr[0].name == name]
    if measure:
        if not outer:
            return None
        m1, m0 = E.call_function(measure, list(a)), E.call_function(measure, list(outer[-1][3]))
        E.oblige("the recursion ends (%s)" % fn[:40], E.asbool(E.icmp("ult", m1, m0, _I64)), "termination")
    return lambda E, b: E.call_function(fn, b)


def thv_pick(E, a):
    n = inp(E, a)
    lo, hi = sx(a[1], 64), sx(a[2], 64)
    if E.fixed is not None:
        return int(E.fixed.get(n, str(lo)), 0) & ((1 << 64) - 1)
    k = lo + E.choose(hi - lo + 1)
    E.inputs.append((n, "pick", k))
    return k & ((1 << 64) - 1)


def thv_assume(E, a):
    c = a[0]
    if isinstance(c, Node) and c.sort != "B":
        c = bnot(icmp("eq", c, ic(0, c.sort), c.sort))
    E.assume(c)


def thv_ensure(E, a):
    c = a[1]
    if c is _ex().UNDEF:
        raise _ex().Fail("uninitialised", "postcondition %s depends on an uninitialised value" % cstr(E, a[0]))
    if isinstance(c, Node) and c.sort != "B":
        c = bnot(icmp("eq", c, ic(0, c.sort), c.sort))
    E.oblige(cstr(E, a[0]), c)


def same_double(E, x, y):
    if E.fp:
        # equal values; NaN equals NaN; zeros compare equal
        nn = band(mk("fnan", (x,), "B"), mk("fnan", (y,), "B"))
        return bor(nn, mk("feq", (x, y), "B"))
    if x.op == "special" or y.op == "special":
        return TRUE if x is y else FALSE
    return req(x, y)


def thv_ensure_eq(E, a):
    n = cstr(E, a[0])
    U = _ex().UNDEF
    if a[1] is U or a[2] is U:
        raise _ex().Fail("uninitialised", "postcondition %s depends on an uninitialised value" % n)
    E.oblige(n, same_double(E, a[1], a[2]))


def thv_ensure_near(E, a):
    n = cstr(E, a[0])
    U = _ex().UNDEF
    if a[1] is U or a[2] is U:
        raise _ex().Fail("uninitialised", "postcondition %s depends on an uninitialised value" % n)
    x, y, tol = a[1], a[2], a[3]
    if E.fp:
        E.oblige(n, E.fcmp("ole", mk("fabs", (mk("fsub", (x, y), "F"),), "F"), tol))
        return
    if x.op == "special" or y.op == "special":
        E.oblige(n, TRUE if x is y else FALSE)
        return
    d = rsub(x, y)
    E.oblige(n, band(rle(d, tol), rle(rneg(tol), d)))


def _b32(c):
    if c is TRUE or c is FALSE:
        return int(c is TRUE)
    return mk("ite", (c, ic(1, 32), ic(0, 32)), 32)


def thv_isnan(E, a):
    if E.fp:
        return _b32(mk("fnan", (a[0],), "B"))
    if a[0] is _ex().UNDEF:
        raise _ex().Fail("uninitialised", "uninitialised double")
    return int(a[0] is T.NAN)


def thv_isinf(E, a):
    if E.fp:
        return _b32(E.fcmp("oeq", mk("fabs", (a[0],), "F"), T.fcn(float("inf"))))
    return int(a[0] is T.PINF or a[0] is T.NINF)


def thv_isfinite(E, a):
    if E.fp:
        return _b32(E.fcmp("ole", mk("fabs", (a[0],), "F"), T.fcn(1.7976931348623157e308)))
    if a[0] is _ex().UNDEF:
        raise _ex().Fail("uninitialised", "uninitialised double")
    return int(a[0].op != "special")


def mathfn(name, nargs=1):
    def f(E, a):
        for x in a[:nargs]:
            if x is _ex().UNDEF:
                return x
        if E.fp:
            if nargs == 1 and a[0].op == "fc" and name in CMATH:
                E.assumptions.add("elementary functions of constants: evaluated to within 1 ulp")
                try:
                    return T.fcn(CMATH[name](T._flt(a[0])))
                except (ValueError, OverflowError):
                    pass
            return mk("app", tuple(a[:nargs]), "F", name)
        return transc(E, name, *a[:nargs])
    return f


CMATH = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "ln": math.log, "log2": math.log2, "atan": math.atan, "sqrt": math.sqrt}


def transc(E, name, *a):
    """elementary function as an (interpreted by axioms) application; special values as in IEEE"""
    x = a[0]
    if any(y.op == "special" for y in a):
        if any(y is T.NAN for y in a):
            return T.NAN
        if name == "exp":
            return T.PINF if x is T.PINF else R0
        if name in ("ln", "log2"):
            return T.PINF if x is T.PINF else T.NAN
        if name in ("sin", "cos", "tan"):
            return T.NAN
        if name == "sqrt":
            return T.PINF if x is T.PINF else T.NAN
        if name == "tanh":
            return R1 if x is T.PINF else rc(-1)
        return T.NAN
    if x.op == "rc" and len(a) == 1:
        if x.val == 0:
            if name in ("sin", "tan", "asin", "atan", "sinh", "tanh", "sqrt", "cbrt", "expm1"):
                return R0
            if name in ("cos", "exp", "exp2", "cosh"):
                return R1
        if x.val == 1:
            if name in ("ln", "log2"):
                return R0
            if name in ("sqrt", "cbrt"):
                return R1
        if name == "sqrt" and x.val > 0:
            from math import isqrt
            n, d = x.val.numerator, x.val.denominator
            if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                return rc(Fraction(isqrt(n), isqrt(d)))
    if name == "exp" and x.op == "app" and x.val == "ln":
        return x.args[0]
    if name == "ln" and x.op == "app" and x.val == "exp":
        return x.args[0]
    if name in ("sin", "cos"):
        r = trig(E, name, x)
        if r is not None:
            return r
    if name == "sqrt":
        if x.op == "mul" and x.args[0] is x.args[1]:
            return E.fabs(x.args[0])
        if E.decide(rlt(x, R0)):
            return T.NAN
    if name in ("ln", "log2"):
        if E.decide(rlt(x, R0)):
            return T.NAN
        if E.decide(req(x, R0)):
            return T.NINF
    if name == "log2":
        x = T.canon(x)
        if x.op == "rc" and x.val > 0:
            n, d = x.val.numerator, x.val.denominator
            if n & (n - 1) == 0 and d & (d - 1) == 0:
                return rc(n.bit_length() - d.bit_length())
        return rdiv(transc(E, "ln", x), app("ln", rc(2)))
    return app(name, *a)


def atan_sc(E, u):
    """sine and cosine of atan(u)"""
    if u.op == "div":
        y, x = u.args
        h = app("sqrt", radd(rmul(x, x), rmul(y, y)))
        if not E.decide(rlt(R0, x)):
            x, y = rneg(x), rneg(y)
        return rdiv(y, h), rdiv(x, h)
    h = app("sqrt", radd(R1, rmul(u, u)))
    return rdiv(u, h), rdiv(R1, h)


def trig(E, name, x):
    """sin/cos of k*pi/2 + rest; of +-atan(u) + rest"""
    if not any(y.val in ("!pi", "atan") for y in T.atoms_of([x]) if y.op in ("rv", "app")):
        return None
    k, rest = T.linear_angle(x)
    q = 2 * k
    if q.denominator != 1:
        return None
    q = int(q) % 4
    s, c = R0, R1
    t = R0
    used = q != 0 or not rest
    first = True
    for co, y in rest:
        if abs(co) == 1 and y.op == "app" and y.val == "atan":
            s1, c1 = atan_sc(E, y.args[0])
            if co < 0:
                s1 = rneg(s1)
            s, c = (s1, c1) if first else (radd(rmul(s, c1), rmul(c, s1)), rsub(rmul(c, c1), rmul(s, s1)))
            first = False
            used = True
        else:
            t = radd(t, rmul(rc(co), y))
    if not used:
        return None
    if t is not R0:
        s1, c1 = app("sin", t), app("cos", t)
        s, c = (s1, c1) if first else (radd(rmul(s, c1), rmul(c, s1)), rsub(rmul(c, c1), rmul(s, s1)))
    for _ in range(q):
        s, c = c, rneg(s)
    return s if name == "sin" else c


def thv_fn1(E, a):
    n = "uf_" + cstr(E, a[0])
    x = a[1]
    if E.fp:
        return mk("app", (x,), "F", n)
    if x is _ex().UNDEF or x.op == "special":
        return T.NAN
    return app(n, x)


def thv_fn2(E, a):
    n = "uf2_" + cstr(E, a[0])
    if any(x is _ex().UNDEF or x.op == "special" for x in a[1:3]):
        return T.NAN
    return app(n, a[1], a[2])


def thv_fn3(E, a):
    n = "uf3_" + cstr(E, a[0])
    if any(x is _ex().UNDEF or x.op == "special" for x in a[1:4]):
        return T.NAN
    return app(n, a[1], a[2], a[3])


def thv_fnu(E, a):
    """uninterpreted 64-bit function of a 64-bit value"""
    n = "ufu_" + cstr(E, a[0])
    return mk("iapp", (inode(a[1], 64),), 64, n)


def thv_option(E, a):
    n = cstr(E, a[0])
    v = a[1]
    if n == "fp":
        E.fp = bool(v)
        E.ieee = True
    elif n == "nodiv0":
        E.nodiv0 = bool(v)
    elif n == "unbounded":
        E.unb = True
        E.unbounded = True
    elif n == "noleak":
        E.leakcheck = not v
    elif n.startswith("abstract2:"):
        E.abstract.add(n[10:])
        E.assumptions.add("callee %s abstracted to a function of its argument (verified by its own contract)" % n[10:])
    elif n.startswith("abstract1:"):
        E.abstract1.add(n[10:])
        E.assumptions.add("callee %s abstracted to a function of its arguments" % n[10:])
    elif n.startswith("inline:"):
        if v:
            E.inline.add(n[7:])
        else:
            E.inline.discard(n[7:])
    else:
        raise _ex().Unsupported("option " + n)


class _TyD:
    kind = "double"
    store = 8
    size = 8


def abstract2(E, name, a):
    """a function from values made of two doubles to such a value, left uninterpreted"""
    P = _ex().Ptr
    xs = []
    for p in a[1:]:
        for o in (0, 8):
            v = E.load(P(p.obj, E.padd(p.off, o)), _TyD())
            if v is _ex().UNDEF or v.op == "special":
                raise _ex().Unsupported("abstracted call on a special value")
            xs.append(v)
    for o, w in ((0, "a"), (8, "b")):
        E.store(P(a[0].obj, E.padd(a[0].off, o)), app("abs_%s_%s" % (w, name), *xs), _TyD())


def abstract1(E, name, a):
    """a scalar function of scalars, left uninterpreted"""
    xs = []
    for v in a:
        if v is _ex().UNDEF:
            raise _ex().Fail("uninitialised", "argument of %s" % name)
        if isinstance(v, int):
            v = rc(v)
        elif isinstance(v.sort, int):
            v = mk("i2r", (v,), "R", "u")
        if v.op == "special":
            return T.NAN
        xs.append(v)
    return app("abs_" + name, *xs)


def thv_bounded(E, a):
    E.bounded.add(cstr(E, a[0]))


def do_new(E, a):
    n = a[0]
    if isinstance(n, Node):
        raise _ex().Unsupported("allocation of symbolic size")
    if n > 1 << 32:
        raise _ex().Fail("memory-safety", "allocation of %d bytes" % n)
    return _ex().Ptr(E.new_obj(n, "heap#%d" % len(E.heap), "heap"), 0)


def do_delete(E, a):
    p = a[0]
    if isinstance(p, int) and p == 0:
        return
    if p.obj is None:
        return
    if p.obj.kind != "heap" or p.off != 0:
        raise _ex().Fail("memory-safety", "free of a non-heap pointer")
    if not p.obj.alive:
        raise _ex().Fail("memory-safety", "double free")
    if E.journals:
        E.touch(p.obj)
    p.obj.alive = False


def do_calloc(E, a):
    n = a[0] * a[1]
    p = do_new(E, [n])
    E.memset(p, 0, n)
    return p


def do_memcpy(E, a):
    E.memcpy(a[0], a[1], a[2])
    return a[0]


def do_memset(E, a):
    E.memset(a[0], a[1], a[2])
    return a[0]


def do_memcmp(E, a):
    n = a[2]
    for i in range(n):
        x = E.load(_ex().Ptr(a[0].obj, a[0].off + i), _I8)
        y = E.load(_ex().Ptr(a[1].obj, a[1].off + i), _I8)
        if not isinstance(x, int) or not isinstance(y, int):
            raise _ex().Unsupported("memcmp of symbolic data")
        if x != y:
            return (x - y) & 0xffffffff
    return 0


def do_errno(E, a):
    if E.errno is None:
        E.errno = _ex().Obj(4, "errno", "global")
        E.errno.cells[0] = (4, 0)
    return _ex().Ptr(E.errno, 0)


def fail(kind):
    def f(E, a):
        raise _ex().Fail(kind, "call to a throwing/aborting routine")
    return f


def assert_fail(E, a):
    m = ""
    try:
        m = cstr(E, a[3])
    except Exception:
        pass
    raise _ex().Fail("memory-safety", "library assertion failed: %s" % m)


def do_throw(E, a):
    raise _ex().Fail("exception", "an exception is thrown")


# ---- exceptions (Itanium C++ ABI)
def cxa_allocate(E, a):
    return _ex().Ptr(E.new_obj(a[0], "exception#%d" % len(E.heap), "heap"), 0)


def cxa_throw(E, a):
    e = _ex().Thrown(a[0], a[1].obj.name, a[2])
    E.exns[a[0].obj] = e
    raise e


def cxa_begin_catch(E, a):
    e = E.exns[a[0].obj]
    E.caught.append(e)
    return _ex().Ptr(e.obj.obj, e.obj.off + getattr(e, "adj", 0))


def cxa_end_catch(E, a):
    e = E.caught.pop()
    if getattr(e, "again", False):
        e.again = False
        return
    d = e.dtor
    if isinstance(d, _ex().Ptr) and d.obj is not None:
        E.call_function(d.obj.name, [e.obj])
    e.obj.obj.alive = False


def cxa_rethrow(E, a):
    e = E.caught[-1]
    e.again = True
    raise e


def cxa_free(E, a):
    a[0].obj.alive = False


def typeid(E, name):
    return 1 + int.from_bytes(name.encode(), "big") % 1000003


def bases(E, name):
    """public bases of a class type: (type info name, offset)"""
    h = E.mod.globals.get(name)
    if h is None or not E.mod.L.LLVMGetInitializer(h):
        return []
    o = E.global_ptr(name).obj
    P = _ex().Ptr
    if o.size <= 16:
        return []
    if o.size == 24:
        return [(E.load(P(o, 16), _PTR).obj.name, 0)]
    n = E.load(P(o, 20), _I32)
    r = []
    for i in range(n):
        fl = E.load(P(o, 32 + 16 * i), _I64)
        if fl & 2 and not fl & 1:
            r.append((E.load(P(o, 24 + 16 * i), _PTR).obj.name, fl >> 8))
    return r


def catches(E, want, e):
    todo = [(e.ti, 0)]
    while todo:
        n, off = todo.pop()
        if n == want:
            e.adj = off
            return True
        todo += [(b, off + k) for b, k in bases(E, n)]
    return False


def guard_acquire(E, a):
    v = E.load(a[0], _I8)
    if v == 0 or v is _ex().UNDEF:
        return 1
    return 0


def guard_release(E, a):
    E.store(a[0], 1, _I8)


def nop(E, a):
    return 0


def ov(op, signed):
    def f(E, a):
        # determine width from the intrinsic name
        w = E._ovw
        x, y = a
        if isinstance(x, int) and isinstance(y, int):
            if signed:
                r = {"add": sx(x, w) + sx(y, w), "sub": sx(x, w) - sx(y, w), "mul": sx(x, w) * sx(y, w)}[op]
                o = int(not -(1 << (w - 1)) <= r < 1 << (w - 1))
            else:
                r = {"add": x + y, "sub": x - y, "mul": x * y}[op]
                o = int(not 0 <= r < 1 << w)
            return (r & ((1 << w) - 1), o)
        X, Y = inode(x, w), inode(y, w)
        e = "isext" if signed else "izext"
        W = 2 * w
        big = iop(op, mk(e, (X,), W), mk(e, (Y,), W), W)
        r = iop(op, X, Y, w)
        return (r, bnot(icmp("eq", mk(e, (r,), W) if isinstance(r, Node) else ic(r, W), big, W)))
    return f


def llvm_minmax(name):
    def f(E, a):
        w = E._ovw
        x, y = a
        p = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[name]
        if isinstance(x, int) and isinstance(y, int):
            return x if int_cmp(p, x, y, w) else y
        return ite(icmp(p, inode(x, w), inode(y, w), w), inode(x, w), inode(y, w))
    return f


def ctpop(E, a):
    if isinstance(a[0], int):
        return bin(a[0]).count("1")
    raise _ex().Unsupported("ctpop")


def ctlz(E, a):
    w = E._ovw
    if isinstance(a[0], int):
        return w - a[0].bit_length()
    raise _ex().Unsupported("ctlz")


def cttz(E, a):
    w = E._ovw
    if isinstance(a[0], int):
        return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
    raise _ex().Unsupported("cttz")


def f_floor(E, a):
    x = a[0]
    if E.fp:
        return mk("ffloor", (x,), "F")
    if x.op == "rc":
        return rc(x.val.numerator // x.val.denominator)
    if x.op == "special":
        return x
    return app("floor", x)


def fmuladd(E, a):
    return E.farith("fadd", E.farith("fmul", a[0], a[1]), a[2])


def is_fpclass(E, a):
    raise _ex().Unsupported("is.fpclass")


def time_fn(E, a):
    E.fresh += 1
    n = "time#%d" % E.fresh
    return iv(n, 64)


# ---- callee contracts: precondition -> result, otherwise the body is executed
def summary(fn, pre=None):
    def f(E, a):
        U = _ex().UNDEF
        if E.fp or any(x is U for x in a):
            return NotImplemented
        if pre is not None and not pre(E, *a):
            return NotImplemented
        E.assumptions.add("callee contract used for %s" % fn[0])
        return fn[1](E, *a)
    return f


def finite(E, x):
    return x.op != "special"


SUMM = {
    "_ZN10theoretica3expEd": summary(("th::exp(x) = e^x", lambda E, x: transc(E, "exp", x))),
    "_ZN10theoretica2lnEd": summary(("th::ln(x) = ln x for x > 0", lambda E, x: transc(E, "ln", x)),
                                    lambda E, x: x.op != "special" and E.decide(rlt(R0, x))),
    "_ZN10theoretica4atanEd": summary(("th::atan(x) = arctan x", lambda E, x: transc(E, "atan", x)), finite),
    "_ZN10theoretica4cbrtEd": summary(("th::cbrt(x)^3 = x", lambda E, x: transc(E, "cbrt", x)), finite),
}

TABLE = {
    "thv_real": thv_real, "thv_double": thv_double, "thv_u64": mk_uint(64), "thv_u32": mk_uint(32),
    "thv_u16": mk_uint(16), "thv_u8": mk_uint(8),
    "thv_i64": mk_uint(64, True), "thv_i32": mk_uint(32, True), "thv_pick": thv_pick, "thv_size": thv_size, "thv_elem": thv_elem, "thv_elem2": thv_elem, "thv_spec": thv_spec,
    "thv_assume": thv_assume, "thv_ensure": thv_ensure, "thv_ensure_eq": thv_ensure_eq,
    "thv_ensure_near": thv_ensure_near,
    "thv_isnan": thv_isnan, "thv_isinf": thv_isinf, "thv_isfinite": thv_isfinite,
    "thv_fn1": thv_fn1, "thv_fn2": thv_fn2, "thv_fn3": thv_fn3, "thv_fnu": thv_fnu, "thv_option": thv_option, "thv_bounded": thv_bounded,
    "thv_sqrt": mathfn("sqrt"), "thv_sin": mathfn("sin"), "thv_cos": mathfn("cos"), "thv_exp": mathfn("exp"),
    "thv_ln": mathfn("ln"), "thv_atan": mathfn("atan"), "thv_cbrt": mathfn("cbrt"), "thv_log2": mathfn("log2"),
    "_Znwm": do_new, "_Znam": do_new, "malloc": do_new, "calloc": do_calloc,
    "_ZdlPv": do_delete, "_ZdlPvm": do_delete, "_ZdaPv": do_delete, "_ZdaPvm": do_delete, "free": do_delete,
    "memcpy": do_memcpy, "memmove": do_memcpy, "memset": do_memset, "memcmp": do_memcmp, "bcmp": do_memcmp,
    "__errno_location": do_errno, "abort": fail("abort"), "_ZSt9terminatev": fail("exception"),
    "__clang_call_terminate": fail("exception"),
    "__cxa_throw": cxa_throw, "__cxa_rethrow": cxa_rethrow, "__cxa_allocate_exception": cxa_allocate, "__cxa_free_exception": cxa_free,
    "__cxa_begin_catch": cxa_begin_catch, "__cxa_end_catch": cxa_end_catch, "_ZNSt9exceptionD2Ev": nop, "_ZNSt9exceptionD1Ev": nop,
    "strlen": lambda E, a: len(cstr(E, a[0]).encode()),
    "_ZSt21__glibcxx_assert_failPKciS0_S0_": assert_fail,
    "__cxa_guard_acquire": guard_acquire, "__cxa_guard_release": guard_release, "__cxa_atexit": nop,
    "sqrt": mathfn("sqrt"), "sin": mathfn("sin"), "cos": mathfn("cos"), "exp": mathfn("exp"), "log": mathfn("ln"),
    "log2": mathfn("log2"), "cbrt": mathfn("cbrt"), "atan": mathfn("atan"), "tan": mathfn("tan"),
    "pow": mathfn("pow", 2), "floor": f_floor, "atan2": mathfn("atan2", 2), "tanh": mathfn("tanh"),
    "sinh": mathfn("sinh"), "cosh": mathfn("cosh"), "asin": mathfn("asin"), "acos": mathfn("acos"),
    "fabs": lambda E, a: E.fabs(a[0]), "time": time_fn, "clock": time_fn,
    "_ZNSt6chrono3_V212system_clock3nowEv": time_fn, "_ZNSt6chrono3_V212steady_clock3nowEv": time_fn,
}


def lookup(E, name):
    f = TABLE.get(name)
    if f is not None:
        return f
    if E.specs:
        for k in E.specs:
            if k in name:
                f = spec_call(E, name, E.call_args, E.specs[k])
                if f is not None:
                    return f
    if name.startswith("llvm."):
        return llvm(E, name)
    if E.abstract1 and any(x in name for x in E.abstract1):
        return lambda E, a: abstract1(E, name, a)
    if name in E.abstract:
        return lambda E, a: abstract2(E, name, a)
    f = SUMM.get(name)
    if f is not None and name not in E.inline:
        def g(E, a):
            r = f(E, a)
            if r is NotImplemented:
                E.inline.add(name)
                try:
                    return E.call_function(name, a)
                finally:
                    E.inline.discard(name)
            return r
        return g
    if name.startswith("_ZSt") and "__throw_" in name:
        return fail("exception")
    return None


def llvm(E, n):
    p = n.split(".")
    k = p[1]
    if k in ("memcpy", "memmove"):
        return do_memcpy
    if k == "memset":
        return do_memset
    if k in ("dbg", "lifetime", "assume", "experimental", "donothing", "stackrestore", "prefetch", "va_start", "invariant"):
        return nop
    if k == "eh":
        return lambda E, a: typeid(E, a[0].obj.name if a[0].obj is not None else "")
    if k == "stacksave":
        return lambda E, a: _ex().NULL
    if k == "fabs":
        return lambda E, a: E.fabs(a[0])
    if k in ("sqrt", "sin", "cos", "exp", "log", "log2", "pow"):
        return mathfn({"log": "ln"}.get(k, k), 2 if k == "pow" else 1)
    if k == "floor":
        return f_floor
    if k in ("fmuladd", "fma"):
        return fmuladd
    if len(p) > 3 and p[2] == "with":
        E._ovw = int(p[-1][1:])
        return ov(k[1:], k[0] == "s")
    if k in ("umin", "umax", "smin", "smax"):
        E._ovw = int(p[-1][1:])
        return llvm_minmax(k)
    if k in ("ctpop", "ctlz", "cttz"):
        E._ovw = int(p[-1][1:])
        return {"ctpop": ctpop, "ctlz": ctlz, "cttz": cttz}[k]
    if k == "expect":
        return lambda E, a: a[0]
    if k == "trap":
        return fail("abort")
    if k in ("minnum", "maxnum"):
        def mm(E, a):
            c = E.fcmp("olt", a[0], a[1])
            lt = E.decide(c)
            return a[0] if lt == (k == "minnum") else a[1]
        return mm
    if k == "is":
        return is_fpclass
    if k == "eh":
        return nop
    if k == "load" or k == "threadlocal":
        return lambda E, a: a[0]
    return None


ASM_NOTE = {"fsqrt": "x87 fsqrt: correctly rounded square root", "fabs": "x87 fabs", "fsin": "x87 fsin = sin",
            "fcos": "x87 fcos = cos", "fsincos": "x87 fsincos = (cos, sin)", "fyl2x": "x87 fyl2x = y*log2(x)",
            "f2xm1": "x87 f2xm1 = 2^x - 1"}


CONC = {"fsin": lambda x: math.sin(x), "fcos": lambda x: math.cos(x), "fsincos": lambda x: (math.cos(x), math.sin(x)),
        "fyl2x": lambda x, y: y * math.log2(x), "f2xm1": lambda x: math.expm1(x * math.log(2))}


def asm(E, s, cons, a):
    s = s.strip()
    if any(x is _ex().UNDEF for x in a):
        return _ex().UNDEF
    if s in ASM_NOTE:
        E.assumptions.add("instruction contract: " + ASM_NOTE[s])
    if E.fp:
        if s == "fabs":
            return mk("fabs", (a[0],), "F")
        if s == "fsqrt":
            return mk("fsqrt", (a[0],), "F")
        if all(x.op == "fc" for x in a) and s in CONC and (s != "fyl2x" or 0 < T._flt(a[0]) < math.inf):
            E.assumptions.add("transcendental x87 instructions on constants: evaluated to within 2 ulp")
            r = CONC[s](*[T._flt(x) for x in a])
            return tuple(T.fcn(v) for v in r) if isinstance(r, tuple) else T.fcn(r)
        if s == "fsincos":
            return (mk("app", (a[0],), "F", "cos"), mk("app", (a[0],), "F", "sin"))
        return mk("app", tuple(a), "F", s)
    if s == "fabs":
        return E.fabs(a[0])
    if s == "fsqrt":
        return transc(E, "sqrt", a[0])
    if s == "fsin":
        return transc(E, "sin", a[0])
    if s == "fcos":
        return transc(E, "cos", a[0])
    if s == "fsincos":
        return (transc(E, "cos", a[0]), transc(E, "sin", a[0]))
    if s == "fyl2x":
        return E.farith("fmul", a[1], transc(E, "log2", a[0]))
    if s == "f2xm1":
        return E.farith("fsub", transc(E, "exp2", a[0]), R1)
    raise _ex().Unsupported("inline asm " + s)
