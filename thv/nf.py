"""Exact normal forms for real terms: rational functions over Q in atoms (variables, applications),
with algebraic reductions s^2=e for square roots, cos^2=1-sin^2, exp(a+b)=exp(a)exp(b).

is_zero(t) == True is a proof that t == 0 wherever every denominator is nonzero."""
from fractions import Fraction
from math import gcd
import time
from .terms import *

BITS = 12
EMASK = (1 << BITS) - 1


def umul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r


def ured(a, mp):
    """remainder modulo a monic polynomial"""
    a = list(a)
    d = len(mp) - 1
    while len(a) > d:
        c = a.pop()
        if c:
            for j in range(d):
                a[len(a) - d + j] -= c * mp[j]
    return a


_minp = {}


def min_poly(Q):
    """minimal polynomial of 2 cos(pi/Q), lowest coefficient first"""
    r = _minp.get(Q)
    if r is not None:
        return r
    n = 2 * Q

    def cyclo(n):
        num = [-1] + [0] * (n - 1) + [1]
        for d in range(1, n):
            if n % d == 0:
                den = cyclo(d)
                q = []
                a = list(num)
                while len(a) >= len(den):
                    c = a[-1]
                    q.append(c)
                    for j in range(len(den)):
                        a[len(a) - len(den) + j] -= c * den[j]
                    a.pop()
                num = q[::-1]
        return num
    c = cyclo(n)
    d = (len(c) - 1) // 2
    # x^k + x^-k = V_k(y), V_0 = 2, V_1 = y, V_k = y V_(k-1) - V_(k-2)
    V = [[2], [0, 1]]
    for k in range(2, d + 1):
        a = [0] + V[-1]
        for j, x in enumerate(V[-2]):
            a[j] -= x
        V.append(a)
    r = [0] * (d + 1)
    r[0] = c[d]
    for k in range(1, d + 1):
        for j, x in enumerate(V[k]):
            r[j] += c[d + k] * x
    _minp[Q] = r
    return r


def two_cos(p, Q):
    """2 cos(p pi/Q) as a reduced polynomial in 2 cos(pi/Q)"""
    a, b = [2], [0, 1]
    if p == 0:
        return a
    for _ in range(p - 1):
        c = [0] + b
        for j, x in enumerate(a):
            c[j] -= x
        a, b = b, c
    return ured(b, min_poly(Q))


class Blowup(Exception):
    pass


LIMIT = 60000


def padd(a, b, ca=1, cb=1):
    if ca == 1:
        r = dict(a)
    else:
        r = {m: c * ca for m, c in a.items()}
    for m, c in b.items():
        v = r.get(m, 0) + c * cb
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


class NF:
    def __init__(self, deadline=None):
        self.atoms = []       # index -> (kind, data)
        self.byvar = {}
        self.apps = {}        # name -> list of (argforms, index)
        self.memo = {}
        self.factors = []     # polynomials (primitive)
        self.fkey = {}
        self.deadline = deadline
        self.ops = 0

    def tick(self, n):
        self.ops += n
        if n > 4 * LIMIT * 20:
            raise Blowup()
        if self.deadline and self.ops > 20000:
            self.ops = 0
            if time.time() > self.deadline:
                raise Blowup()

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        self.tick(len(a) * len(b))
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                v = r.get(m)
                r[m] = c1 * c2 if v is None else v + c1 * c2
        r = {m: c for m, c in r.items() if c}
        if len(r) > LIMIT:
            raise Blowup()
        return r

    def ppow(self, a, n):
        r = {0: 1}
        for _ in range(n):
            r = self.pmul(r, a)
        return r

    def new_atom(self, kind, data):
        i = len(self.atoms)
        self.atoms.append((kind, data))
        return i

    # rational: (num dict, intden, ((factor,exp),...))
    def rconst(self, q):
        return ({0: q.numerator} if q.numerator else {}, q.denominator, ())

    def atom_r(self, i, e=1):
        return ({e << (BITS * i): 1}, 1, ())

    def factor(self, p):
        """polynomial -> (int content with sign, monomial, factor id or None)"""
        g = 0
        for c in p.values():
            g = gcd(g, c)
        lead = max(p)
        if p[lead] < 0:
            g = -g
        # monomial gcd
        mg = None
        ms = list(p)
        if len(ms) == 1:
            return g, ms[0], None
        common = None
        for m in ms:
            if common is None:
                common = {}
                i = 0
                while m:
                    e = m & EMASK
                    if e:
                        common[i] = e
                    m >>= BITS
                    i += 1
            else:
                for i in list(common):
                    e = (m >> (BITS * i)) & EMASK
                    if e < common[i]:
                        if e:
                            common[i] = e
                        else:
                            del common[i]
            if not common:
                break
        mono = 0
        for i, e in (common or {}).items():
            mono += e << (BITS * i)
        q = {m - mono: c // g for m, c in p.items()}
        key = tuple(sorted(q.items()))
        f = self.fkey.get(key)
        if f is None:
            f = len(self.factors)
            self.factors.append(q)
            self.fkey[key] = f
        return g, mono, f

    def mono_factors(self, m):
        out = []
        i = 0
        while m:
            e = m & EMASK
            if e:
                p = {1 << (BITS * i): 1}
                key = tuple(sorted(p.items()))
                f = self.fkey.get(key)
                if f is None:
                    f = len(self.factors)
                    self.factors.append(p)
                    self.fkey[key] = f
                out.append((f, e))
            m >>= BITS
            i += 1
        return out

    def try_divide(self, num, f):
        """exact division of num by factor f, or None"""
        p = self.factors[f]
        if len(p) == 1:
            (m0, _), = p.items()
            i = (m0.bit_length() - 1) // BITS
            sh = BITS * i
            for m in num:
                if not ((m >> sh) & EMASK):
                    return None
            return {m - m0: c for m, c in num.items()}
        if len(p) > 12 or len(num) > 4000 or len(num) < len(p):
            return None
        lead = max(p)
        lc = p[lead]
        q = {}
        r = dict(num)
        guard = 0
        while r:
            m = max(r)
            # monomial divisibility
            d = m - lead
            if d < 0 or not self.mono_div(m, lead):
                return None
            c = r[m]
            if c % lc:
                return None
            c //= lc
            q[d] = c
            for m2, c2 in p.items():
                v = r.get(m2 + d, 0) - c * c2
                if v:
                    r[m2 + d] = v
                else:
                    r.pop(m2 + d, None)
            guard += 1
            if guard > 3000:
                return None
            self.tick(len(p))
        return q

    def mono_div(self, a, b):
        while b:
            if (a & EMASK) < (b & EMASK):
                return False
            a >>= BITS
            b >>= BITS
        return True

    def clean(self, num, d, fs):
        if not num:
            return ({}, 1, ())
        g = d
        for c in num.values():
            g = gcd(g, c)
            if g == 1:
                break
        if g > 1:
            num = {m: c // g for m, c in num.items()}
            d //= g
        out = []
        for f, e in fs:
            while e:
                q = self.try_divide(num, f)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                out.append((f, e))
        return (num, d, tuple(out))

    def mul(self, a, b):
        if not a[0] or not b[0]:
            return ({}, 1, ())
        num = self.pmul(a[0], b[0])
        if a[2] or b[2]:
            fs = dict(a[2])
            for f, e in b[2]:
                fs[f] = fs.get(f, 0) + e
            return self.clean(num, a[1] * b[1], tuple(fs.items()))
        return self.clean(num, a[1] * b[1], ())

    def inv(self, a):
        num, d, fs = a
        if not num:
            raise ZeroDivisionError
        g, mono, f = self.factor(num)
        n = {0: 1}
        for ff, e in fs:
            n = self.pmul(n, self.ppow(self.factors[ff], e))
        n = {m: c * d for m, c in n.items()}
        if g < 0:
            n = {m: -c for m, c in n.items()}
            g = -g
        den = {}
        for ff, e in self.mono_factors(mono):
            den[ff] = den.get(ff, 0) + e
        if f is not None:
            den[f] = den.get(f, 0) + 1
        return self.clean(n, g, tuple(den.items()))

    def add(self, a, b, sb=1):
        if not a[0]:
            return b if sb == 1 else ({m: -c for m, c in b[0].items()}, b[1], b[2])
        if not b[0]:
            return a
        if a[2] == b[2]:
            if a[1] == b[1]:
                num = padd(a[0], b[0], 1, sb)
                d = a[1]
            else:
                g = gcd(a[1], b[1])
                num = padd(a[0], b[0], b[1] // g, sb * (a[1] // g))
                d = a[1] // g * b[1]
            if a[2] or d != 1:
                return self.clean(num, d, a[2])
            return (num, d, ())
        fa, fb = dict(a[2]), dict(b[2])
        L = dict(fa)
        for f, e in fb.items():
            L[f] = max(L.get(f, 0), e)
        na, nb = a[0], b[0]
        for f, e in L.items():
            k = e - fa.get(f, 0)
            if k:
                na = self.pmul(na, self.ppow(self.factors[f], k))
            k = e - fb.get(f, 0)
            if k:
                nb = self.pmul(nb, self.ppow(self.factors[f], k))
        g = gcd(a[1], b[1])
        num = padd(na, nb, b[1] // g, sb * (a[1] // g))
        return self.clean(num, a[1] // g * b[1], tuple(L.items()))

    # -- terms ------------------------------------------------------------
    def of(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative post-order to avoid recursion limits
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.memo:
                st.pop()
                continue
            todo = [a for a in x.args if a.sort == "R" and a.id not in self.memo]
            if todo and x.op in ("add", "sub", "mul", "div", "neg", "app", "sum"):
                st.extend(todo)
                continue
            self.memo[x.id] = self.of1(x)
            st.pop()
        return self.memo[t.id]

    def of1(self, x):
        o = x.op
        if o == "rc":
            return self.rconst(x.val)
        if o == "rv":
            i = self.byvar.get(x.val)
            if i is None:
                i = self.byvar[x.val] = self.new_atom("var", x)
            return self.atom_r(i)
        m = self.memo
        if o == "add":
            return self.add(m[x.args[0].id], m[x.args[1].id])
        if o == "sub":
            return self.add(m[x.args[0].id], m[x.args[1].id], -1)
        if o == "neg":
            a = m[x.args[0].id]
            return ({k: -c for k, c in a[0].items()}, a[1], a[2])
        if o == "mul":
            return self.mul(m[x.args[0].id], m[x.args[1].id])
        if o == "div":
            return self.mul(m[x.args[0].id], self.inv(m[x.args[1].id]))
        if o == "app":
            return self.application(x.val, [m[a.id] if a.sort == "R" else a for a in x.args], x)
        # opaque (ite, i2r, ...): atom by identity
        i = self.byvar.get(("node", x.id))
        if i is None:
            i = self.byvar[("node", x.id)] = self.new_atom("node", x)
        return self.atom_r(i)

    def rneg(self, a):
        return ({k: -c for k, c in a[0].items()}, a[1], a[2])

    def lead_sign(self, a):
        if not a[0]:
            return 0
        return 1 if a[0][max(a[0])] > 0 else -1

    def find_app(self, name, forms, node):
        lst = self.apps.setdefault(name, [])
        for fs, i in lst:
            ok = True
            for f, g in zip(fs, forms):
                if isinstance(f, Node) or isinstance(g, Node):
                    if f is not g:
                        ok = False
                        break
                elif f != g and not self.zero_r(self.add(f, g, -1)):
                    ok = False
                    break
            if ok:
                return i
        i = self.new_atom("app", (name, forms, node))
        lst.append((forms, i))
        return i

    def trig_expand(self, name, form, node):
        """angle addition: sums and small integer multiples of base angles; pi/2 multiples"""
        num, d, fs = form
        if fs or len(num) > 4 or not num:
            return None
        pi = self.byvar.get("!pi")
        pm = (1 << (BITS * pi)) if pi is not None else None
        terms = []
        q = 0
        for m, c in num.items():
            g = gcd(c, d)
            p, e = c // g, d // g
            if m == pm:
                if e not in (1, 2):
                    if e > 96:
                        return None
                    q = 4 + p % (2 * e)
                    qe = e
                    continue
                q = (2 * p // e) % 4
                continue
            if abs(p) > 6:
                return None
            terms.append((m, p, e))
        if len(terms) == 1 and terms[0][1] == 1 and q == 0:
            return None
        one, zero = self.rconst(Fraction(1)), self.rconst(Fraction(0))
        S, C = zero, one
        for m, p, e in terms:
            f = ({m: 1}, e, ())
            s1 = self.atom_r(self.find_app("sin", [f], None))
            c1 = self.atom_r(self.find_app("cos", [f], None))
            if p < 0:
                s1 = self.rneg(s1)
            for _ in range(abs(p)):
                S, C = self.add(self.mul(S, c1), self.mul(C, s1)), self.add(self.mul(C, c1), self.mul(S, s1), -1)
        if q >= 4:
            c1, s1 = self.cospi(Fraction(q - 4, qe)), self.cospi(Fraction(1, 2) - Fraction(q - 4, qe))
            S, C = self.add(self.mul(S, c1), self.mul(C, s1)), self.add(self.mul(C, c1), self.mul(S, s1), -1)
            q = 0
        for _ in range(q):
            S, C = C, self.rneg(S)
        return S if name == "sin" else C

    # cosines of rational multiples of pi: polynomials in g_Q = 2 cos(pi/Q), reduced modulo its minimal polynomial
    def cospi(self, r):
        r = r % 2
        if r > 1:
            r = 2 - r
        if r > Fraction(1, 2):
            return self.rneg(self.cospi(1 - r))
        if r == Fraction(1, 2):
            return self.rconst(Fraction(0))
        if r == 0:
            return self.rconst(Fraction(1))
        if r == Fraction(1, 3):
            return self.rconst(Fraction(1, 2))
        Q = r.denominator
        i = self.byvar.get(("cospi", Q))
        if i is None:
            i = self.byvar[("cospi", Q)] = self.new_atom("cospi", Q)
        num = {k << (BITS * i): c for k, c in enumerate(two_cos(r.numerator, Q)) if c}
        return self.clean(num, 2, ())

    def cospi_merge(self, p, idx):
        """p with the generators idx replaced by the one of their common field"""
        Q = 1
        for i in idx:
            Q = Q * self.atoms[i][1] // gcd(Q, self.atoms[i][1])
        g = self.byvar.get(("cospi", Q))
        if g is None:
            g = self.byvar[("cospi", Q)] = self.new_atom("cospi", Q)
        mp = min_poly(Q)
        cache = {}
        out = {}
        for m, c in p.items():
            key = []
            m0 = m
            for i in idx:
                k = (m >> (BITS * i)) & EMASK
                if k:
                    key.append((self.atoms[i][1], k))
                    m0 -= k << (BITS * i)
            key = tuple(key)
            v = cache.get(key)
            if v is None:
                v = [1]
                for q, k in key:
                    b = two_cos(Q // q, Q)
                    for _ in range(k):
                        v = ured(umul(v, b), mp)
                cache[key] = v
            for k, x in enumerate(v):
                if x:
                    mm = m0 + (k << (BITS * g))
                    y = out.get(mm, 0) + c * x
                    if y:
                        out[mm] = y
                    else:
                        out.pop(mm, None)
        return out

    def application(self, name, forms, node):
        if name in ("sin", "cos"):
            r = self.trig_expand(name, forms[0], node)
            if r is not None:
                return r
        if name in ("sin", "cos", "tan", "atan", "asin", "sinh", "cosh", "tanh", "cbrt"):
            f = forms[0]
            if self.lead_sign(f) < 0:
                r = self.atom_r(self.find_app(name, [self.rneg(f)], node))
                return r if name in ("cos", "cosh") else self.rneg(r)
        if name in ("exp", "exp2"):
            num, d, fs = forms[0]
            r = self.rconst(Fraction(1))
            if len(num) <= 40:
                for m, c in num.items():
                    g = gcd(c, d)
                    cc, dd = c // g, d // g
                    i = self.find_app(name, [({m: 1}, dd, fs)], None)
                    a = self.atom_r(i, abs(cc)) if abs(cc) < 64 else None
                    if a is None:
                        a = self.atom_r(self.find_app(name, [({m: cc}, dd, fs)], None))
                        cc = 1
                    r = self.mul(r, a if cc > 0 else self.inv(a))
                return r
        if name == "sqrt":
            num, d, fs = forms[0]
            # sqrt(c * f) with rational square constant
            if list(num) == [0] and not fs:
                from math import isqrt
                c = num[0]
                if c >= 0 and isqrt(c) ** 2 == c and isqrt(d) ** 2 == d:
                    return self.rconst(Fraction(isqrt(c), isqrt(d)))
        return self.atom_r(self.find_app(name, forms, node))

    def expand_mono_at(self, p, i):
        """p = sum_k atom_i^k * p_k  -> {k: p_k}"""
        sh = BITS * i
        out = {}
        for m, c in p.items():
            k = (m >> sh) & EMASK
            out.setdefault(k, {})[m - (k << sh)] = c
        return out

    def den_poly(self, r):
        n = {0: r[1]}
        for f, e in r[2]:
            n = self.pmul(n, self.ppow(self.factors[f], e))
        return n

    def ln_arg(self, form):
        """form = ln(a)/d -> (a, d)"""
        num, d, fs = form
        if fs or len(num) != 1 or d > 12:
            return None
        (m, c), = num.items()
        if c != 1:
            return None
        i = (m.bit_length() - 1) // BITS if m else -1
        if i < 0 or m != 1 << (BITS * i):
            return None
        kind, data = self.atoms[i]
        if kind != "app" or data[0] != "ln":
            return None
        return data[1][0], d

    def zero_poly(self, p):
        if not p:
            return True
        # find the newest algebraic atom occurring with exponent >= 2
        used = 0
        for m in p:
            used |= m
        n = len(self.atoms)
        idx = [i for i in range(n) if (used >> (BITS * i)) & EMASK and self.atoms[i][0] == "cospi"]
        if idx:
            big = False
            if len(idx) == 1:
                d = len(min_poly(self.atoms[idx[0]][1])) - 1
                big = any(((m >> (BITS * idx[0])) & EMASK) >= d for m in p)
            if len(idx) > 1 or big:
                return self.zero_poly(self.cospi_merge(p, idx))
        for i in range(n - 1, -1, -1):
            if not (used >> (BITS * i)) & EMASK:
                continue
            kind, data = self.atoms[i]
            if kind != "app" or data[0] not in ("sqrt", "cos", "cosh", "cbrt", "exp"):
                continue
            q = 3 if data[0] == "cbrt" else 2
            if data[0] == "exp":
                A = self.ln_arg(data[1][0])
                if A is None:
                    continue
                A, q = A
            parts = self.expand_mono_at(p, i)
            mx = max(parts)
            if mx < q:
                continue
            if data[0] in ("sqrt", "cbrt", "exp"):
                if data[0] != "exp":
                    A = data[1][0]
                na, da = A[0], self.den_poly(A)
            else:
                s = self.find_app("sin" if data[0] == "cos" else "sinh", data[1], None)
                sg = -1 if data[0] == "cos" else 1
                na, da = {0: 1, (2 << (BITS * s)): sg}, {0: 1}
            K = mx // q
            res = [dict() for _ in range(q)]
            for k, pk in parts.items():
                h = k // q
                t = self.pmul(pk, self.ppow(na, h))
                t = self.pmul(t, self.ppow(da, K - h))
                res[k % q] = padd(res[k % q], t)
            return all(self.zero_poly(r) for r in res)
        return False

    def zero_r(self, r):
        return self.zero_poly(r[0])

    def is_zero(self, t):
        return self.zero_r(self.of(t))

    def const_value(self, t):
        """Fraction if t normalises to a rational constant, else None"""
        r = self.of(t)
        if not r[0]:
            return F0
        if r[2] or list(r[0]) != [0]:
            return None
        return Fraction(r[0][0], r[1])
