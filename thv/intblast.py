"""Exact integer lowering of bit-vector obligations: every n-bit value becomes a polynomial over mathematical integers, wraps and
shifts become quotient variables with their defining inequalities, products of variables become opaque bounded monomials.  The
lowering is a relaxation (opaque monomials may take more values than the products), so only `unsat' is used."""
from math import gcd
import z3
from .terms import atoms_of


class Bail(Exception):
    pass


class IntBlast:
    def __init__(self, nodes):
        self.memo = {}
        self.names = {}      # var -> (lo, hi)
        self.cons = []       # (kind, poly[, poly]) -> z3 built at the end
        self.zm = {}
        self.splits = {}
        self.divs = {}
        self.side = []
        self.lim = {}        # bounds of inputs stated by the path
        for x in nodes:
            neg = x.op == "not"
            y = x.args[0] if neg else x
            if y.op == "iult":
                a, b = y.args
                if a.op == "iv" and b.op == "ic":
                    lo, hi = self.lim.get(a.id, (0, (1 << a.sort) - 1))
                    self.lim[a.id] = (max(lo, b.val), hi) if neg else (lo, min(hi, b.val - 1))
                elif b.op == "iv" and a.op == "ic":
                    lo, hi = self.lim.get(b.id, (0, (1 << b.sort) - 1))
                    self.lim[b.id] = (lo, min(hi, a.val)) if neg else (max(lo, a.val + 1), hi)
        for x in atoms_of(nodes):
            if x.sort in ("R", "F"):
                raise Bail()
            c = None
            if x.op == "ilshr" and x.args[1].op == "ic":
                c = x.args[1].val
            elif x.op == "itrunc":
                c = x.sort
            elif x.op == "iand" and x.args[1].op == "ic" and (x.args[1].val & (x.args[1].val + 1)) == 0:
                c = x.args[1].val.bit_length()
            if c is not None:
                b = x.args[0]
                while b.op == "izext":
                    b = b.args[0]
                if b.op == "iv":
                    self.splits.setdefault(b.id, set()).add(c)

    def var(self, name, lo, hi):
        self.names[name] = (lo, hi)
        return {(name,): 1}, lo, hi

    @staticmethod
    def padd(p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def pmul(p, q):
        if len(p) * len(q) > 400:
            raise Bail()
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n))
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def wrap(self, p, lo, hi, w):
        M = 1 << w
        if lo >= 0 and hi < M:
            return p, lo, hi
        return self.modq(p, lo, hi, M)[1]

    def modq(self, p, lo, hi, M):
        """(quotient, remainder) of p by the constant M"""
        if lo >= 0 and hi < M:
            return ({}, 0, 0), (p, lo, hi)
        if all(c % M == 0 for c in p.values()):
            return ({m: c // M for m, c in p.items()}, lo // M, hi // M), ({}, 0, 0)
        # peel multiples of M off
        A = {m: c - c % M for m, c in p.items() if c >= M or c < 0}
        key = (tuple(sorted(p.items())), M)
        if key not in self.divs:
            n = "q%d" % len(self.divs)
            q, _, _ = self.var(n, lo // M, hi // M)
            r = self.padd(p, q, -M)
            self.cons.append((r, 0, M - 1))
            if len(p) == 1:
                (mono, c), = p.items()
                if mono:
                    # Gauss: M divides c v only if M / gcd(c, M) divides v
                    k = M // gcd(c, M)
                    t = z3.Int("m%d" % len(self.divs))
                    self.side.append(lambda: z3.Implies(self.z(r) == 0, self.z({mono: 1}) == k * t))
            self.divs[key] = ((q, lo // M, hi // M), (r, 0, M - 1))
        return self.divs[key]

    def ev(self, x):
        r = self.memo.get(x.id)
        if r is None:
            r = self.memo[x.id] = self.ev1(x)
        return r

    def ev1(self, x):
        o, w = x.op, x.sort
        if o == "ic":
            return ({(): x.val} if x.val else {}), x.val, x.val
        if o == "iv":
            cs = sorted(c for c in self.splits.get(x.id, ()) if 0 < c < w)
            if not cs:
                lo, hi = self.lim.get(x.id, (0, (1 << w) - 1))
                if lo > hi:
                    raise Bail()
                return self.var("v%d" % x.id, lo, hi)
            p, prev = {}, 0
            for i, c in enumerate(cs + [w]):
                v, _, _ = self.var("v%d_%d" % (x.id, prev), 0, (1 << (c - prev)) - 1)
                p = self.padd(p, v, 1 << prev)
                prev = c
            return p, 0, (1 << w) - 1
        if o == "ite":
            c = self.evb(x.args[0])
            a, b = self.ev(x.args[1]), self.ev(x.args[2])
            v = self.var("t%d" % x.id, min(a[1], b[1]), max(a[2], b[2]))
            self.side.append(lambda: z3.If(c, self.z(v[0]) == self.z(a[0]), self.z(v[0]) == self.z(b[0])))
            return v
        if o in ("izext",):
            return self.ev(x.args[0])
        if o == "isext":
            a = self.ev(x.args[0])
            if a[2] < 1 << (x.args[0].sort - 1):
                return a
            raise Bail()
        if o == "itrunc":
            a = self.ev(x.args[0])
            return self.mod2(a, w)
        if o in ("iadd", "isub", "imul"):
            a, b = self.ev(x.args[0]), self.ev(x.args[1])
            if o == "iadd":
                if x.args[1].op == "ic" and x.args[1].val >> (w - 1):      # x - c
                    k = (1 << w) - x.args[1].val
                    return self.wrap(self.padd(a[0], {(): -k}), a[1] - k, a[2] - k, w)
                return self.wrap(self.padd(a[0], b[0]), a[1] + b[1], a[2] + b[2], w)
            if o == "isub":
                return self.wrap(self.padd(a[0], b[0], -1), a[1] - b[2], a[2] - b[1], w)
            return self.wrap(self.pmul(a[0], b[0]), a[1] * b[1], a[2] * b[2], w)
        if o == "ishl" and x.args[1].op == "ic":
            a, k = self.ev(x.args[0]), 1 << x.args[1].val
            return self.wrap({m: c * k for m, c in a[0].items()}, a[1] * k, a[2] * k, w)
        if o == "ilshr" and x.args[1].op == "ic":
            return self.div2(self.ev(x.args[0]), x.args[1].val)
        if o == "iand" and x.args[1].op == "ic" and (x.args[1].val & (x.args[1].val + 1)) == 0:
            return self.mod2(self.ev(x.args[0]), x.args[1].val.bit_length())
        if o == "ior":
            a, b = self.ev(x.args[0]), self.ev(x.args[1])
            for p, q in ((a, b), (b, a)):
                k = q[2].bit_length()
                if all(c % (1 << k) == 0 for c in p[0].values()):
                    return self.wrap(self.padd(p[0], q[0]), p[1] + q[1], p[2] + q[2], w)
            raise Bail()
        if o in ("iudiv", "iurem"):
            a, b = self.ev(x.args[0]), self.ev(x.args[1])
            if b[1] == b[2] and b[1] > 0:
                return self.modq(a[0], a[1], a[2], b[1])[0 if o == "iudiv" else 1]
            key = ("d", x.args[0].id, x.args[1].id)
            if key not in self.divs:
                q = self.var("d%d" % len(self.divs), 0, a[2])
                r = self.padd(a[0], self.pmul(q[0], b[0]), -1)
                self.cons.append((r, 0, a[2]))
                self.side.append(lambda: self.z(r) < self.z(b[0]))
                self.side.append(lambda: self.z(b[0]) > 0)          # divisions by zero are separate obligations
                self.divs[key] = (q, (r, 0, b[2]))
            return self.divs[key][0 if o == "iudiv" else 1]
        raise Bail()

    def mod2(self, a, c):
        # split off the low part exactly where coefficients allow it
        M = 1 << c
        hi_p = {m: k for m, k in a[0].items() if k % M == 0}
        lo_p = {m: k for m, k in a[0].items() if k % M}
        if hi_p and self.bounds(lo_p)[0] >= 0 and self.bounds(lo_p)[1] < M:
            b = self.bounds(lo_p)
            return lo_p, b[0], b[1]
        return self.modq(a[0], a[1], a[2], M)[1]

    def div2(self, a, c):
        M = 1 << c
        hi_p = {m: k // M for m, k in a[0].items() if k % M == 0}
        lo_p = {m: k for m, k in a[0].items() if k % M}
        if hi_p and self.bounds(lo_p)[0] >= 0 and self.bounds(lo_p)[1] < M:
            b = self.bounds(hi_p)
            return hi_p, b[0], b[1]
        return self.modq(a[0], a[1], a[2], M)[0]

    def mbounds(self, m):
        lo = hi = 1
        for v in m:
            l, h = self.names[v]
            c = [lo * l, lo * h, hi * l, hi * h]
            lo, hi = min(c), max(c)
        return lo, hi

    def bounds(self, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = self.mbounds(m)
            lo += min(c * l, c * h)
            hi += max(c * l, c * h)
        return lo, hi

    def z(self, p):
        t = []
        for m, c in p.items():
            if m == ():
                t.append(z3.IntVal(c))
                continue
            v = self.zm.get(m)
            if v is None:
                v = self.zm[m] = z3.Int("*".join(m))
            t.append(c * v if c != 1 else v)
        return z3.Sum(t) if t else z3.IntVal(0)

    def evb(self, x):
        o = x.op
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "not":
            return z3.Not(self.evb(x.args[0]))
        if o == "and":
            return z3.And(*[self.evb(a) for a in x.args])
        if o in ("ieq", "iult"):
            a, b = self.ev(x.args[0]), self.ev(x.args[1])
            return self.z(a[0]) == self.z(b[0]) if o == "ieq" else self.z(a[0]) < self.z(b[0])
        if o == "islt":
            a, b = self.ev(x.args[0]), self.ev(x.args[1])
            h = 1 << (x.args[0].sort - 1)
            if a[2] < h and b[2] < h:
                return self.z(a[0]) < self.z(b[0])
        raise Bail()


def int_unsat(conj, ms):
    """True if the conjunction is certainly unsatisfiable"""
    try:
        B = IntBlast(conj)
        fs = []
        for c in conj:
            try:
                fs.append(B.evb(c))
            except Bail:
                if c is conj[-1]:
                    raise
        for p, lo, hi in B.cons:
            e = B.z(p)
            fs += [e >= lo, e <= hi]
        fs += [f() for f in B.side]
        for m, v in list(B.zm.items()):
            lo, hi = B.mbounds(m)
            fs += [v >= lo, v <= hi]
    except (Bail, RecursionError):
        return False
    s = z3.Solver()
    s.set("timeout", int(ms))
    s.add(*fs)
    return s.check() == z3.unsat
