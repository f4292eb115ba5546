"""Taylor model back end: decides a < b and a <= b for terms of one real variable over an interval given by the path,
by adaptive subdivision; polynomial in (x - c) with interval coefficients plus an interval remainder, outward rounded (mpmath iv)."""
import time
from fractions import Fraction
import mpmath
from mpmath import iv, mp
from .terms import atoms_of, rsub, radd, rmul, rdiv, rneg, mk

iv.prec = 240
mp.prec = max(mp.prec, 300)
DEG = 13


class Fail(Exception):
    pass


def I(a, b=None):
    return iv.mpf(a) if b is None else iv.mpf([a, b])


def frac(q):
    return I(q.numerator) / I(q.denominator)


S = 220                     # fixed point: a value v is stored as the integer v * 2^S
ONE = 1 << S
BIG = 1 << (S + 80)


def lo(x):
    return mp.mpf(x.a)


def hi(x):
    return mp.mpf(x.b)


def toint(x, up):
    """mpf -> scaled integer rounded up / down"""
    if not mpmath.isfinite(x):
        raise Fail("infinite")
    if x == 0:
        return 0
    sg, m, e, _ = x._mpf_
    m = -int(m) if sg else int(m)
    e += S
    if e >= 0:
        return m << e
    return -((-m) >> -e) if up else m >> -e


def toiv(a, b):
    """scaled integers -> interval"""
    return iv.mpf([mp.ldexp(mp.mpf(a), -S), mp.ldexp(mp.mpf(b), -S)]) if a != b else iv.mpf(mp.ldexp(mp.mpf(a), -S))


def ball(x):
    """interval -> (midpoint, radius), scaled"""
    a, b = toint(lo(x), False), toint(hi(x), True)
    m = (a + b) >> 1
    return m, max(b - m, m - a)


def mag(x):
    """upper bound of |x| as a scaled integer"""
    return max(abs(toint(lo(x), False)), abs(toint(hi(x), True)))


class TM:
    """|f(t) - sum c[k] t^k| <= e for t in [-1, 1]"""
    __slots__ = ("c", "e")

    def __init__(self, c, e=0):
        self.c, self.e = c, e

    def range(self):
        a = b = self.c[0]
        for k in range(1, len(self.c)):
            x = self.c[k]
            if k & 1:
                x = abs(x)
                a -= x
                b += x
            elif x > 0:
                b += x
            else:
                a += x
        return a - self.e, b + self.e


def add(a, b, sg=1):
    x, y = a.c, b.c
    n = max(len(x), len(y))
    x = x + [0] * (n - len(x))
    y = y + [0] * (n - len(y))
    return TM([p + q for p, q in zip(x, y)] if sg > 0 else [p - q for p, q in zip(x, y)], a.e + b.e)


def mul(a, b):
    n = min(DEG + 1, len(a.c) + len(b.c) - 1)
    c = [0] * n
    r = 0
    for i, x in enumerate(a.c):
        if x:
            for j, y in enumerate(b.c):
                if i + j < n:
                    c[i + j] += x * y
                else:
                    r += abs(x * y)
    ma, mb = sum(abs(x) for x in a.c), sum(abs(x) for x in b.c)
    r += ma * b.e + mb * a.e + a.e * b.e
    r = (r >> S) + 1 + n
    if r > BIG or ma > BIG * BIG:
        raise Fail("enclosure too wide")
    return TM([x >> S for x in c], r)


def constant(x):
    m, r = ball(x)
    return TM([m], r)


def compose(a, coeffs, rem):
    """sum coeffs[k] (a - c0)^k + rem * (a - c0)^n,  n = len(coeffs); rem = bound of the coefficient of the remainder"""
    d = TM([0] + a.c[1:], a.e)
    p = constant(coeffs[-1])
    for k in range(len(coeffs) - 2, -1, -1):
        p = add(mul(p, d), constant(coeffs[k]))
    x, y = d.range()
    B = max(abs(x), abs(y))
    e = rem
    for _ in range(len(coeffs)):
        e = ((e * B) >> S) + 1
    return TM(p.c, p.e + e)


def series(name, c, n):
    """Taylor coefficients 0..n at the interval c"""
    if name == "inv":
        if lo(c) <= 0 <= hi(c):
            raise Fail("division by an interval with zero")
        out, x = [], 1 / c
        p = x
        for k in range(n + 1):
            out.append(p if k % 2 == 0 else -p)
            p = p * x
        return out
    if name == "exp":
        e = iv.exp(c)
        out = []
        for k in range(n + 1):
            out.append(e)
            e = e / (k + 1)
        return out
    if name == "ln":
        if lo(c) <= 0:
            raise Fail("ln")
        out, x = [iv.log(c)], 1 / c
        p = x
        for k in range(1, n + 1):
            out.append((p if k % 2 else -p) / k)
            p = p * x
        return out
    if name in ("sqrt", "cbrt"):
        if lo(c) <= 0:
            raise Fail(name)
        al = Fraction(1, 2) if name == "sqrt" else Fraction(1, 3)
        v = iv.sqrt(c) if name == "sqrt" else iv.exp(iv.log(c) / 3)
        out, b = [], Fraction(1)
        x = 1 / c
        for k in range(n + 1):
            out.append(v * frac(b))
            v = v * x
            b = b * (al - k) / (k + 1)
        return out
    if name in ("sin", "cos"):
        s, co = iv.sin(c), iv.cos(c)
        cyc = [s, co, -s, -co] if name == "sin" else [co, -s, -co, s]
        out, f = [], I(1)
        for k in range(n + 1):
            out.append(cyc[k % 4] / f)
            f = f * (k + 1)
        return out
    if name == "atan":
        out = [I(_atan(lo(c), -1), _atan(hi(c), 1))]
        q = 1 / (1 + c * c)
        out.append(q)
        for k in range(1, n):
            prev = out[k - 1]
            t = -(2 * c * k * out[k]) - (((k - 1) * prev) if k > 1 else I(0))
            out.append(t * q / (k + 1))
        return out[:n + 1]
    raise Fail(name)


def _atan(x, d):
    with mp.workprec(300):
        v = mp.atan(x)
        return v + d * (abs(v) + 1) * mp.mpf(2) ** -270


def fun(name, a):
    if name == "log2":
        return mul(constant(1 / iv.log(I(2))), fun("ln", a))
    if name == "exp2":
        return fun("exp", mul(constant(iv.log(I(2))), a))
    if name == "expm1":
        return add(fun("exp", a), TM([ONE]), -1)
    if name == "sinh" or name == "cosh" or name == "tanh":
        e = fun("exp", a)
        f = fun("inv", e)
        s = mul(add(e, f, -1), TM([ONE >> 1]))
        if name == "sinh":
            return s
        c = mul(add(e, f), TM([ONE >> 1]))
        return c if name == "cosh" else mul(s, fun("inv", c))
    if name == "tan":
        return mul(fun("sin", a), fun("inv", fun("cos", a)))
    n = DEG
    x, y = a.range()
    if name in ("inv", "ln", "sqrt", "cbrt") and len(a.c) > 1 and a.c[0]:
        # normalise around 1: the argument divided by a power of two
        k = abs(a.c[0]).bit_length() - S
        if name in ("sqrt", "cbrt"):
            k -= k % (2 if name == "sqrt" else 3)
        if abs(k) > 3:
            b = TM([z >> k if k > 0 else z << -k for z in a.c], (a.e >> k if k > 0 else a.e << -k) + (1 + len(a.c) if k > 0 else 0))
            r = fun(name, b)
            if name == "ln":
                return add(r, constant(k * iv.log(I(2))))
            k = -k if name == "inv" else k // (2 if name == "sqrt" else 3)
            return TM([z << k if k > 0 else z >> -k for z in r.c], (r.e << k if k > 0 else r.e >> -k) + (1 + len(r.c) if k < 0 else 0))
    if len(a.c) == 1:
        return constant(series(name, toiv(x, y), 1)[0])
    co = series(name, toiv(a.c[0], a.c[0]), n)
    rem = series(name, toiv(min(x, a.c[0]), max(y, a.c[0])), n + 1)[n + 1]
    return compose(a, co, mag(rem))


def simp(n, memo):
    """quotients of quotients (every divisor on the path is known not to be zero)"""
    if n.id in memo:
        return memo[n.id]
    a = tuple(simp(x, memo) for x in n.args)
    r = n
    if n.op == "div":
        x, y = a
        if y.op == "neg":
            x, y = rneg(x), y.args[0]
        r = rdiv(rmul(x, y.args[1]), y.args[0]) if y.op == "div" else rdiv(x, y)
    elif n.op == "neg":
        r = rneg(a[0])
    elif n.op in ("add", "sub", "mul"):
        r = {"add": radd, "sub": rsub, "mul": rmul}[n.op](*a)
    elif a and any(x is not y for x, y in zip(a, n.args)):
        r = mk(n.op, a, n.sort, n.val)
    memo[n.id] = r
    return r


def order(ns):
    seen, out, st = set(), [], [(n, False) for n in ns]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for x in n.args:
            if x.id not in seen:
                st.append((x, False))
    return out


SUP = ("exp", "ln", "sin", "cos", "atan", "sqrt", "cbrt", "log2", "exp2", "expm1", "tan", "sinh", "cosh", "tanh")


def evaluate(nodes, root, var, a, b):
    """enclosure (scaled integers) of root for var in [a, b]"""
    c, h = (a + b) / 2, (b - a) / 2
    val = {}
    for n in nodes:
        o = n.op
        if o == "rc":
            v = constant(frac(n.val)) if n.val.denominator != 1 else TM([n.val.numerator << S])
        elif o == "rv":
            if n.val == "!pi":
                v = constant(iv.pi)
            elif n is var:
                m, r = ball(frac(c))
                m2, r2 = ball(frac(h))
                v = TM([m, m2], r + r2)
            else:
                raise Fail("variable")
        elif o == "add":
            v = add(val[n.args[0].id], val[n.args[1].id])
        elif o == "sub":
            v = add(val[n.args[0].id], val[n.args[1].id], -1)
        elif o == "neg":
            x = val[n.args[0].id]
            v = TM([-y for y in x.c], x.e)
        elif o == "mul":
            v = mul(val[n.args[0].id], val[n.args[1].id])
        elif o == "div":
            v = mul(val[n.args[0].id], fun("inv", val[n.args[1].id]))
        elif o == "app" and n.val in SUP and len(n.args) == 1:
            v = fun(n.val, val[n.args[0].id])
        else:
            raise Fail("term " + o)
        val[n.id] = v
    return val[root.id].range()


def const(n):
    try:
        a, b = evaluate(order([n]), n, None, Fraction(0), Fraction(0))
        return Fraction(a, ONE), Fraction(b, ONE)
    except (Fail, ZeroDivisionError):
        return None


def affine(n, var):
    """n = k * var + m with rational k, m, or None"""
    o = n.op
    if o == "rc":
        return Fraction(0), n.val
    if n is var:
        return Fraction(1), Fraction(0)
    if o == "neg":
        t = affine(n.args[0], var)
        return t and (-t[0], -t[1])
    if o in ("add", "sub"):
        s, t = affine(n.args[0], var), affine(n.args[1], var)
        if s is None or t is None:
            return None
        return (s[0] + t[0], s[1] + t[1]) if o == "add" else (s[0] - t[0], s[1] - t[1])
    if o == "mul":
        s, t = affine(n.args[0], var), affine(n.args[1], var)
        if s is None or t is None:
            return None
        if s[0] == 0:
            return s[1] * t[0], s[1] * t[1]
        if t[0] == 0:
            return t[1] * s[0], t[1] * s[1]
        return None
    if o == "div":
        s, t = affine(n.args[0], var), affine(n.args[1], var)
        if s is None or t is None or t[0] != 0 or t[1] == 0:
            return None
        return s[0] / t[1], s[1] / t[1]
    return None


def bounds(pc, var):
    L, U = None, None
    for c in pc:
        neg = False
        while c.op == "not":
            c, neg = c.args[0], not neg
        if c.op == "req" and not neg and c.args[0].sort == "R":
            l = affine(rsub(*c.args), var)
            if l and l[0]:
                L = U = -l[1] / l[0]
            continue
        if c.op != "rlt":
            continue
        x = rsub(*c.args)
        l = affine(x, var)
        if l is None:
            # constant side that is not rational: a < const
            for s, t, sg in ((c.args[0], c.args[1], 1), (c.args[1], c.args[0], -1)):
                l = affine(s, var)
                k = const(t) if l and l[0] else None
                if k is None:
                    continue
                # s < t (sg 1) or t < s (sg -1); negated: reversed
                up = (sg > 0) != neg
                q = k[1] if up else k[0]
                v = (q - l[1]) / l[0]
                if up == (l[0] > 0):
                    U = v if U is None else min(U, v)
                else:
                    L = v if L is None else max(L, v)
            continue
        if l[0] == 0:
            continue
        v = -l[1] / l[0]
        if (l[0] > 0) != neg:
            U = v if U is None else min(U, v)
        else:
            L = v if L is None else max(L, v)
    return L, U


def split(goal):
    neg = False
    g = goal
    while g.op == "not":
        g, neg = g.args[0], not neg
    if g.op == "req" and neg and g.args[0].sort == "R":
        return rsub(*g.args), "ne"
    if g.op != "rlt":
        return None
    d = rsub(*g.args)
    return d, neg


def applicable(goal):
    g = split(goal)
    if g is None:
        return None
    at = atoms_of([g[0]])
    vs = [x for x in at if x.op == "rv" and x.val != "!pi"]
    if len(vs) != 1 or any(x.op == "app" and (x.val not in SUP or len(x.args) != 1) for x in at):
        return None
    if any(x.op not in ("rv", "rc", "add", "sub", "mul", "div", "neg", "app") for x in at):
        return None
    return g[0], g[1], vs[0]


def hard(goal):
    """an inequality in one variable with transcendental functions or of high degree"""
    t = applicable(goal)
    return t is not None and (any(x.op == "app" for x in atoms_of([t[0]])) or sum(1 for x in atoms_of([t[0]]) if x.op in ("mul", "div")) > 6)


def prove(pc, goal, secs=20.0, pieces=600):
    t = applicable(goal)
    if t is None:
        return False
    d, neg, var = t
    L, U = bounds(pc, var)
    if L is None or U is None:
        return False
    if L > U:
        return True
    d = simp(d, {})
    nodes = order([d])
    end = time.time() + secs
    todo = [(L, U)]
    used = 0
    while todo:
        a, b = todo.pop()
        used += 1
        if used > pieces or time.time() > end:
            return False
        try:
            r = evaluate(nodes, d, var, a, b)
            ok = (r[0] > 0 or r[1] < 0) if neg == "ne" else r[0] >= 0 if neg else r[1] < 0
        except (Fail, ZeroDivisionError, ValueError):
            ok = False
        if ok:
            continue
        if b - a < Fraction(1, 10 ** 12) * max(1, abs(a)):
            return False
        m = (a + b) / 2
        todo.append((m, b))
        todo.append((a, m))
    return True
