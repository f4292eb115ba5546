"""Hash-consed terms.  Sorts: 'R' mathematical real, 'B' bool, 'F' IEEE binary64, int n = n-bit vector."""
import math
from fractions import Fraction

_tab = {}
_cnt = [0]


class Node:
    __slots__ = ("op", "args", "val", "sort", "id", "__weakref__")

    def __repr__(self):
        return show(self)


def reset():
    _tab.clear()
    mk_consts()


def _flt(n):
    v = n.val
    return float(v) if isinstance(v, str) else v


def fcn(d):
    """a double constant"""
    return mk("fc", (), "F", "nan" if d != d else d if d or math.copysign(1, d) > 0 else "-0.0")


def _fdiv(x, y):
    if y == 0:
        if x == 0 or x != x:
            return math.nan
        return math.copysign(math.inf, x) * math.copysign(1, y)
    return x / y


def _fmul(x, y):
    return x * y


FOLD = {"fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y, "fmul": _fmul, "fdiv": _fdiv, "fneg": lambda x: -x, "fabs": abs,
        "fsqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan, "fnan": lambda x: x != x, "feq": lambda x, y: x == y,
        "flt": lambda x, y: x < y, "fle": lambda x, y: x <= y}


def mk(op, args, sort, val=None):
    if op in FOLD and all(a.op == "fc" for a in args):
        r = FOLD[op](*[_flt(a) for a in args])
        if sort == "B":
            return TRUE if r else FALSE
        return fcn(r)
    key = (op, tuple([a.id for a in args]), sort, val)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.val = val
        n.sort = sort
        _cnt[0] += 1
        n.id = _cnt[0]
        _tab[key] = n
    return n


def show(n, d=0):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == "rc":
        v = n.val
        if v.denominator == 1:
            return str(v.numerator)
        if v.denominator < 10**7:
            return str(v)
        return repr(float(v))
    if n.op in ("rv", "iv", "bv", "fv", "ic", "special", "fc"):
        return str(n.val)
    if d > 12:
        return "…"
    return "%s%s(%s)" % (n.op, ":%s" % (n.val,) if n.val is not None else "", ",".join(show(a, d + 1) for a in n.args))


F0 = Fraction(0)
F1 = Fraction(1)


def mk_consts():
    global R0, R1, NAN, PINF, NINF, TRUE, FALSE
    R0 = mk("rc", (), "R", F0)
    R1 = mk("rc", (), "R", F1)
    NAN = mk("special", (), "R", "nan")
    PINF = mk("special", (), "R", "+inf")
    NINF = mk("special", (), "R", "-inf")
    TRUE = mk("true", (), "B")
    FALSE = mk("false", (), "B")


mk_consts()


def pi_node():
    return mk("rv", (), "R", "!pi")


def _consts():
    """doubles that stand for a mathematical constant (within 2 units in the last place)"""
    import math
    t = {}

    def near(x, mkr):
        v = x
        for _ in range(2):
            v = math.nextafter(v, -math.inf)
        for _ in range(5):
            t[v] = (mkr, 1)
            t[-v] = (mkr, -1)
            v = math.nextafter(v, math.inf)
    for n, d in ((1, 1), (1, 2), (1, 3), (1, 4), (1, 6), (1, 8), (2, 1), (3, 2), (3, 4), (1, 180)):
        near(math.pi * n / d, lambda n=n, d=d: rmul(rc(Fraction(n, d)), pi_node()))
    near(1 / math.pi, lambda: rdiv(R1, pi_node()))
    near(2 / math.pi, lambda: rdiv(rc(2), pi_node()))
    near(180 / math.pi, lambda: rdiv(rc(180), pi_node()))
    near(math.sqrt(2), lambda: app("sqrt", rc(2)))
    near(math.sqrt(0.5), lambda: rdiv(app("sqrt", rc(2)), rc(2)))
    near(math.sqrt(3), lambda: app("sqrt", rc(3)))
    near(math.sqrt(math.pi), lambda: app("sqrt", pi_node()))
    near(math.sqrt(2 * math.pi), lambda: rmul(app("sqrt", rc(2)), app("sqrt", pi_node())))
    e, l2, l10 = (lambda: app("exp", R1)), (lambda: app("ln", rc(2))), (lambda: app("ln", rc(10)))
    near(math.e, e)
    near(math.log(2), l2)
    near(math.log(10), l10)
    near(1 / math.log(2), lambda: rdiv(R1, l2()))
    near(1 / math.log(10), lambda: rdiv(R1, l10()))
    near(math.log10(2), lambda: rdiv(l2(), l10()))
    near(math.log2(10), lambda: rdiv(l10(), l2()))
    # 2^(i/2) pi^(j/2)
    def comb(i, j):
        x = rc(Fraction(2) ** (i // 2))
        if i % 2:
            x = rmul(x, app("sqrt", rc(2)))
        k = abs(j)
        y = R1
        for _ in range(k // 2):
            y = rmul(y, pi_node())
        if k % 2:
            y = rmul(y, app("sqrt", pi_node()))
        return rmul(x, y) if j >= 0 else rdiv(x, y)
    for j in (-4, -3, -2, -1, 1, 2, 3, 4):
        for i in range(-8, 9):
            v = math.sqrt(2.0 ** i * math.pi ** j)
            if v not in t:
                near(v, lambda i=i, j=j: comb(i, j))
    return t


_CT = []


def named_const(d):
    if not _CT:
        _CT.append(_consts())
    r = _CT[0].get(d)
    if r is None:
        return None
    f, sg = r
    return f() if sg > 0 else rneg(f())


def linear_angle(t):
    """t as (pi multiple, [(coefficient, term)])"""
    acc = {}
    pis = [F0]

    def go(x, k):
        while True:
            if x.op == "neg":
                x, k = x.args[0], -k
            elif x.op == "mul" and x.args[0].op == "rc":
                k, x = k * x.args[0].val, x.args[1]
            elif x.op == "mul" and x.args[1].op == "rc":
                k, x = k * x.args[1].val, x.args[0]
            elif x.op == "div" and x.args[1].op == "rc":
                k, x = k / x.args[1].val, x.args[0]
            else:
                break
        if x.op in ("add", "sub"):
            go(x.args[0], k)
            go(x.args[1], k if x.op == "add" else -k)
            return
        if x.op == "rv" and x.val == "!pi":
            pis[0] += k
            return
        if x.op == "rc" and x.val == 0:
            return
        if x.id in acc:
            acc[x.id] = (acc[x.id][0] + k, x)
        else:
            acc[x.id] = (k, x)
    go(t, F1)
    return pis[0], [(k, x) for k, x in acc.values() if k]


def rc(v):
    return mk("rc", (), "R", Fraction(v))


def rv(name):
    return mk("rv", (), "R", name)


def is_rc(n):
    return n.op == "rc"


def is_special(n):
    return n.op == "special"


def radd(a, b):
    if a.op == "rc":
        if b.op == "rc":
            return rc(a.val + b.val)
        if a.val == 0:
            return b
    elif b.op == "rc" and b.val == 0:
        return a
    return mk("add", (a, b), "R")


def rneg(a):
    if a.op == "rc":
        return rc(-a.val)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,), "R")


def rsub(a, b):
    if a is b:
        return R0
    if b.op == "rc":
        if a.op == "rc":
            return rc(a.val - b.val)
        if b.val == 0:
            return a
    elif a.op == "rc" and a.val == 0:
        return rneg(b)
    return mk("sub", (a, b), "R")


def rmul(a, b):
    if a.op == "rc":
        if b.op == "rc":
            return rc(a.val * b.val)
        if a.val == 0:
            return R0
        if a.val == 1:
            return b
        if a.val == -1:
            return rneg(b)
    elif b.op == "rc":
        if b.val == 0:
            return R0
        if b.val == 1:
            return a
        if b.val == -1:
            return rneg(a)
    return mk("mul", (a, b), "R")


def rdiv(a, b):
    """b is known nonzero on the path"""
    if b.op == "rc":
        if a.op == "rc":
            return rc(a.val / b.val)
        if b.val == 1:
            return a
        if b.val == -1:
            return rneg(a)
    if a.op == "rc" and a.val == 0:
        return R0
    return mk("div", (a, b), "R")


_CANON = {}
FINGERPRINT = None      # set by solve.py: value of a real term in a large finite field, None if it has none
SAME = None             # set by solve.py: identity test of two real terms


def canon(a):
    """a term identical to a as a rational function of its atoms, the first one seen (applications then share their argument)"""
    if a.sort != "R" or a.op in ("rc", "rv", "special") or FINGERPRINT is None:
        return a
    f = FINGERPRINT(a)
    if f is None:
        return a
    c = _CANON.get(f)
    if c is None:
        for n in (f, f - FIELD):
            if -(1 << 24) < n < (1 << 24) and SAME(a, rc(n)):
                a = rc(n)
                break
        _CANON[f] = a
        return a
    return c if c is a or SAME(a, c) else a


FIELD = (1 << 127) - 1


def app(name, *args):
    return mk("app", tuple(canon(x) for x in args), "R", name)


# booleans ---------------------------------------------------------------
def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def band(*xs):
    ys = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is not TRUE and x not in ys:
            ys.append(x)
    if not ys:
        return TRUE
    if len(ys) == 1:
        return ys[0]
    return mk("and", tuple(ys), "B")


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bconst(b):
    return TRUE if b else FALSE


def req(a, b):
    if a is b:
        return TRUE
    if a.op == "rc" and b.op == "rc":
        return bconst(a.val == b.val)
    if a.id > b.id:
        a, b = b, a
    return mk("req", (a, b), "B")


def rlt(a, b):
    if a is b:
        return FALSE
    if a.op == "rc" and b.op == "rc":
        return bconst(a.val < b.val)
    return mk("rlt", (a, b), "B")


def rle(a, b):
    return bnot(rlt(b, a))


# ints -------------------------------------------------------------------
def ic(v, w):
    return mk("ic", (), w, v & ((1 << w) - 1))


def iv(name, w):
    return mk("iv", (), w, name)


def inode(x, w):
    return x if isinstance(x, Node) else ic(x, w)


def iop(op, a, b, w):
    """symbolic int op; a,b Nodes of width w"""
    if a.op == "ic" and b.op == "ic":
        r = int_eval(op, a.val, b.val, w)
        if r is not None:
            return ic(r, w)
    if b.op == "ic":
        if b.val == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
            return a
        if b.val == 1 and op in ("mul", "udiv", "sdiv"):
            return a
        if b.val == 0 and op in ("mul", "and"):
            return b
    if a.op == "ic":
        if a.val == 0 and op in ("add", "or", "xor"):
            return b
        if a.val == 1 and op == "mul":
            return b
        if a.val == 0 and op in ("mul", "and"):
            return a
    # (x + c1) + c2
    if op in ("add", "sub") and b.op == "ic" and a.op == "iadd" and a.args[1].op == "ic":
        c = a.args[1].val + (b.val if op == "add" else -b.val)
        return iop("add", a.args[0], ic(c, w), w)
    if op == "sub" and b.op == "ic":
        return mk("iadd", (a, ic(-b.val, w)), w)
    if op == "sub" and a is b:
        return ic(0, w)
    if op == "add" and a.op == "ic":
        a, b = b, a
    return mk("i" + op, (a, b), w)


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def int_eval(op, a, b, w):
    m = (1 << w) - 1
    if op == "add":
        return (a + b) & m
    if op == "sub":
        return (a - b) & m
    if op == "mul":
        return (a * b) & m
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "shl":
        return (a << b) & m if b < w else None
    if op == "lshr":
        return a >> b if b < w else None
    if op == "ashr":
        return (sx(a, w) >> b) & m if b < w else None
    if op == "udiv":
        return a // b if b else None
    if op == "urem":
        return a % b if b else None
    if op in ("sdiv", "srem"):
        x, y = sx(a, w), sx(b, w)
        if y == 0:
            return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q & m) if op == "sdiv" else ((x - q * y) & m)
    return None


def icmp(pred, a, b, w):
    if a.op == "ic" and b.op == "ic":
        return bconst(int_cmp(pred, a.val, b.val, w))
    if a is b:
        return bconst(pred in ("eq", "ule", "uge", "sle", "sge"))
    if pred == "ne":
        return bnot(icmp("eq", a, b, w))
    if pred in ("ugt", "sgt"):
        return icmp(pred[0] + "lt", b, a, w)
    if pred in ("uge", "sge"):
        return bnot(icmp(pred[0] + "lt", a, b, w))
    if pred in ("ule", "sle"):
        return bnot(icmp(pred[0] + "lt", b, a, w))
    if pred == "eq":
        for x, y in ((a, b), (b, a)):
            if x.op == "ic" and y.op == "ite" and y.args[1].op == "ic" and y.args[2].op == "ic":
                p, q = y.args[1].val == x.val, y.args[2].val == x.val
                if p and q:
                    return TRUE
                if p:
                    return y.args[0]
                if q:
                    return bnot(y.args[0])
                return FALSE
            if x.op == "ic" and y.op == "izext" and x.val < (1 << y.args[0].sort):
                return icmp("eq", y.args[0], ic(x.val, y.args[0].sort), y.args[0].sort)
    if pred == "eq" and a.id > b.id:
        a, b = b, a
    return mk("i" + pred, (a, b), "B")


def int_cmp(pred, a, b, w):
    if pred == "eq":
        return a == b
    if pred == "ne":
        return a != b
    if pred[0] == "s":
        a, b = sx(a, w), sx(b, w)
    p = pred[1:]
    return a > b if p == "gt" else a >= b if p == "ge" else a < b if p == "lt" else a <= b


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk("ite", (c, a, b), a.sort)


def subst(n, mp, memo=None):
    """replace nodes (by id) -- rebuilds with the smart constructors"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        r = mp.get(x.id)
        if r is None:
            if not x.args:
                r = x
            else:
                r = rebuild(x, [go(a) for a in x.args])
        memo[x.id] = r
        return r
    return go(n)


def rebuild(x, a):
    o = x.op
    if all(p is q for p, q in zip(a, x.args)):
        return x
    if o == "add":
        return radd(*a)
    if o == "sub":
        return rsub(*a)
    if o == "mul":
        return rmul(*a)
    if o == "neg":
        return rneg(*a)
    if o == "div":
        return rdiv(*a) if not (a[1].op == "rc" and a[1].val == 0) else mk("div", tuple(a), "R")
    if o == "req":
        return req(*a)
    if o == "rlt":
        return rlt(*a)
    if o == "not":
        return bnot(*a)
    if o == "and":
        return band(*a)
    if o == "ite":
        return ite(*a)
    if o in ("ieq", "iult", "islt"):
        return icmp(o[1:], a[0], a[1], a[0].sort)
    if isinstance(x.sort, int) and o[0] == "i" and o[1:] in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
        return iop(o[1:], a[0], a[1], x.sort)
    return mk(o, tuple(a), x.sort, x.val)


def atoms_of(ns, memo=None):
    """all leaf/app nodes reachable"""
    seen = set()
    out = []
    st = list(ns)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st.extend(x.args)
    return out


from functools import lru_cache


@lru_cache(maxsize=None)
def simplest_rational(x):
    """The simplest rational with denominator <= 100000 that rounds to the double x, else x exactly."""
    f = Fraction(x)
    if f.denominator <= 1 << 20:
        return f
    c = f.limit_denominator(100000)
    if float(c) == x:
        return c
    return f
