"""Loops without a bound.

In contracts marked UNBOUNDED() a loop whose exit depends on a symbolic size is replaced by its exact effect after T iterations (T
symbolic): the state at the head of iteration k is found by executing one arbitrary iteration of the real loop body on an arbitrary state
and solving the recurrences of the loop-carried values (counters: closed form; x += g(k): a sum; x *= g(k): a product; anything else: a fold,
i.e. an uninterpreted iterate named by its update).  Sums are kept in a normal form (prefix sums of monomials over absolute indices), so that
two loops with the same value have the same term.  The obligations of the body are then discharged for an arbitrary iteration 0 <= k < T."""
from fractions import Fraction

from .terms import *
from . import terms as T
from .solve import fingerprint, _same


class NoSummary(Exception):
    pass


# ---------------------------------------------------------------- linear integer forms
class Lin:
    __slots__ = ("c", "k")      # c: {base node id: (node, Fraction)}, k: constant

    def __init__(self, c=None, k=0):
        self.c = c or {}
        self.k = Fraction(k)

    def add(self, o, m=1):
        r = dict(self.c)
        for i, (n, v) in o.c.items():
            w = r[i][1] + m * v if i in r else m * v
            if w:
                r[i] = (n, w)
            else:
                r.pop(i, None)
        return Lin(r, self.k + m * o.k)

    def mul(self, m):
        return Lin({i: (n, v * m) for i, (n, v) in self.c.items()} if m else {}, self.k * m)

    def coef(self, n):
        return self.c[n.id][1] if n.id in self.c else Fraction(0)

    def drop(self, n):
        return Lin({i: x for i, x in self.c.items() if i != n.id}, self.k)

    def key(self):
        return (tuple(sorted((i, v) for i, (n, v) in self.c.items())), self.k)

    def term(self):
        """as a real term"""
        t = None
        for i in sorted(self.c):
            n, v = self.c[i]
            x = rmul(rc(v), base_real(n))
            t = x if t is None else radd(t, x)
        if t is None:
            return rc(self.k)
        return radd(t, rc(self.k)) if self.k else t

    def bits(self):
        """as a 64 bit term (the value is known not to be negative)"""
        t = None
        for i in sorted(self.c):
            n, v = self.c[i]
            if v.denominator != 1:
                raise NoSummary("fractional count")
            x = n if n.sort == 64 else mk("izext", (n,), 64)
            x = iop("mul", x, ic(int(v), 64), 64)
            t = x if t is None else iop("add", t, x, 64)
        if self.k.denominator != 1:
            raise NoSummary("fractional count")
        return ic(int(self.k), 64) if t is None else iop("add", t, ic(int(self.k), 64), 64)


def base_real(n):
    return mk("i2r", (n,), "R", "u")


class Ints:
    """linear facts about the integers of a path"""

    def __init__(self, E):
        self.E = E
        self.memo = {}
        self.given = {}        # node id -> Lin, verified by the summary which registered it
        self.q = {}
        self.fact_memo = {}
        self.divs = {}         # quotient node id -> form of its dividend

    def facts(self):
        key = tuple(c.id for c in self.E.pc)
        r = self.fact_memo.get(key)
        if r is None:
            r = []
            pre = ()
            # longest known prefix
            start = 0
            for i in range(len(key) - 1, 0, -1):
                p = self.fact_memo.get(key[:i])
                if p is not None:
                    r, start = list(p), i
                    break
            for i in range(start, len(key)):
                c = self.cond(self.E.pc[i], list(r), key[:i])
                if c is not None:
                    r.append(c)
            self.fact_memo[key] = r
        return r

    def lin(self, n, facts=None, key=None):
        """the integer n (unsigned value) as a linear form, None if it may wrap around or is not linear"""
        if facts is None:
            facts, key = self.facts(), tuple(c.id for c in self.E.pc)
        if not isinstance(n, Node):
            return Lin(k=n)
        if n.op == "ic":
            return Lin(k=n.val)
        if n.id in self.given:
            return self.given[n.id]
        k = (n.id, key)
        if k in self.memo:
            return self.memo[k]
        r = self.lin1(n, facts, key)
        self.memo[k] = r
        return r

    def lin1(self, n, facts, key):
        o, w = n.op, n.sort
        if not isinstance(w, int):
            return None
        if o == "iv":
            return Lin({n.id: (n, Fraction(1))})
        if o == "izext":
            return self.lin(n.args[0], facts, key)
        if o == "isext":
            L = self.lin(n.args[0], facts, key)
            return L if L is not None and self.within(L, 0, (1 << (n.args[0].sort - 1)) - 1, facts) else None
        if o == "itrunc":
            L = self.lin(n.args[0], facts, key)
            return L if L is not None and self.within(L, 0, (1 << w) - 1, facts) else None
        if o in ("iadd", "isub", "imul", "ishl"):
            a, b = n.args
            A, B = self.lin(a, facts, key), self.lin(b, facts, key)
            if A is None or B is None:
                return None
            if b.op == "ic" and b.val >> (w - 1) and o == "iadd":
                B = Lin(k=b.val - (1 << w))
            if o == "iadd":
                L = A.add(B)
            elif o == "isub":
                L = A.add(B, -1)
            elif o == "ishl":
                if B.c:
                    return None
                L = A.mul(1 << int(B.k))
            elif not B.c:
                m = B.k if b.op != "ic" or not b.val >> (w - 1) else Fraction(b.val - (1 << w))
                L = A.mul(m)
            elif not A.c:
                L = B.mul(A.k)
            else:
                return None
            return L if self.within(L, 0, (1 << w) - 1, facts) else None
        if o in ("iudiv", "ilshr") and n.args[1].op == "ic" and n.args[1].val:
            L = self.lin(n.args[0], facts, key)
            if L is None:
                return None
            if not L.c:
                return Lin(k=int(L.k) // n.args[1].val if o == "iudiv" else int(L.k) >> n.args[1].val)
            self.divs.setdefault(n.id, L)
            return Lin({n.id: (n, Fraction(1))})
        if o == "iurem" and n.args[1].op == "ic" and n.args[1].val:
            L = self.lin(n.args[0], facts, key)
            if L is None:
                return None
            q = mk("iudiv", n.args, w)
            Q = self.lin(q, facts, key)
            return None if Q is None else L.add(Q, -n.args[1].val)
        return None

    def real(self, t, facts=None, key=None):
        """a real term which is linear in integers, as a form; None otherwise"""
        if facts is None:
            facts, key = self.facts(), tuple(c.id for c in self.E.pc)
        o = t.op
        if o == "rc":
            return Lin(k=t.val)
        if o == "i2r":
            L = self.lin(t.args[0], facts, key)
            if t.val == "s" and L is not None and not self.within(L, 0, (1 << (t.args[0].sort - 1)) - 1, facts):
                return None
            return L
        if o in ("add", "sub"):
            A, B = self.real(t.args[0], facts, key), self.real(t.args[1], facts, key)
            return None if A is None or B is None else A.add(B, 1 if o == "add" else -1)
        if o == "neg":
            A = self.real(t.args[0], facts, key)
            return None if A is None else A.mul(-1)
        if o == "mul":
            A, B = self.real(t.args[0], facts, key), self.real(t.args[1], facts, key)
            if A is None or B is None:
                return None
            return A.mul(B.k) if not B.c else B.mul(A.k) if not A.c else None
        if o == "div" and t.args[1].op == "rc" and t.args[1].val:
            A = self.real(t.args[0], facts, key)
            return None if A is None else A.mul(1 / t.args[1].val)
        return None

    def cond(self, c, facts=None, key=None):
        """("ge"|"eq"|"ne", form), None if not linear"""
        if facts is None:
            facts, key = self.facts(), tuple(x.id for x in self.E.pc)
        neg = False
        while c.op == "not":
            c, neg = c.args[0], not neg
        if c.op in ("ieq", "iult", "islt"):
            A, B = self.lin(c.args[0], facts, key), self.lin(c.args[1], facts, key)
            if A is None or B is None:
                return None
            if c.op == "islt":
                m = (1 << (c.args[0].sort - 1)) - 1
                for i, X in ((0, A), (1, B)):
                    if c.args[i].op == "ic" and c.args[i].val > m:
                        X = Lin(k=c.args[i].val - 2 * m - 2)
                        if i:
                            B = X
                        else:
                            A = X
                    elif not self.within(X, 0, m, facts):
                        return None
        elif c.op in ("req", "rlt"):
            A, B = self.real(c.args[0], facts, key), self.real(c.args[1], facts, key)
            if A is None or B is None or not (A.c or B.c):
                return None
        else:
            return None
        D = B.add(A, -1)
        den = 1
        for n, v in D.c.values():
            den = den * v.denominator
        den *= D.k.denominator
        D = D.mul(den)
        if c.op in ("ieq", "req"):
            return ("ne" if neg else "eq", D)
        if neg:                 # not a < b: a - b >= 0
            return ("ge", D.mul(-1))
        return ("ge", D.add(Lin(k=-1)))

    # -------------------------------------------------------------- decision of linear integer facts
    def implied(self, c, facts=None):
        facts = self.facts() if facts is None else facts
        kind, L = c
        if not L.c:
            return {"ge": L.k >= 0, "eq": L.k == 0, "ne": L.k != 0}[kind]
        q = (kind, L.key(), tuple((k, f.key()) for k, f in facts))
        r = self.q.get(q)
        if r is None:
            r = self.q[q] = self.unsat(facts, c)
        return r

    def unsat(self, facts, c):
        import z3
        s = z3.Solver()
        s.set("timeout", 3000)
        vs = {}

        def ex(L):
            t = z3.IntVal(int(L.k)) if L.k.denominator == 1 else None
            if t is None:
                raise NoSummary("fraction")
            for i, (n, v) in L.c.items():
                if i not in vs:
                    x = vs[i] = z3.Int("x%d" % i)
                    s.add(x >= 0, x < (1 << n.sort))
                    if n.op in ("iudiv", "ilshr"):
                        A = self.divs.get(n.id)
                        d = n.args[1].val if n.op == "iudiv" else 1 << n.args[1].val
                        if A is not None:
                            a = ex(A)
                            s.add(d * x <= a, a < d * x + d)
                t = t + int(v) * vs[i]
            return t

        def fm(kind, L):
            e = ex(L)
            return e >= 0 if kind == "ge" else e == 0 if kind == "eq" else e != 0
        try:
            for k, L in facts:
                s.add(fm(k, L))
            if c is not None:
                s.add(z3.Not(fm(*c)))
        except NoSummary:
            return False
        return s.check() == z3.unsat

    def within(self, L, lo, hi, facts):
        return self.implied(("ge", L.add(Lin(k=-lo))), facts) and self.implied(("ge", Lin(k=hi).add(L, -1)), facts)

    def pins(self, nodes):
        """{i2r node id: constant} of the integers among the atoms which the path fixes to one small value"""
        out = {}
        fs = self.facts()
        if not any(k == "eq" or k == "ge" for k, _ in fs):
            return out
        for x in nodes:
            if x.op == "iv" and not x.val.startswith("!"):
                L = Lin({x.id: (x, Fraction(1))})
                for v in range(0, 5):
                    if self.implied(("eq", L.add(Lin(k=-v))), fs):
                        out[x.id] = v
                        break
                else:
                    for k, f in fs:
                        if k == "eq" and len(f.c) == 1 and x.id in f.c:
                            v = -f.k / f.c[x.id][1]
                            if v.denominator == 1 and 0 <= v < 4096:
                                out[x.id] = int(v)
        return out


# ---------------------------------------------------------------- canonical pieces
def pos(d):
    """max(d, 0)"""
    d = canon(d)
    if d.op == "rc":
        return rc(max(d.val, 0))
    if first_sign(d):
        return app("pos", d)
    return radd(app("pos", rneg(d)), d)


WILD_R, WILD_I = rv("!w"), base_real(iv("!w", 64))


def first_sign(d):
    """chooses one of d and -d, whatever the names of the bound variables"""
    m = {}
    for x in atoms_of([d]):
        if is_bound(x):
            m[x.id] = WILD_I
        elif x.op == "rv" and x.val.startswith("!"):
            m[x.id] = WILD_R
    w = subst(d, m)
    f, g = fingerprint(w), fingerprint(rneg(w))
    if f != g:
        return f < g
    return fingerprint(d) <= fingerprint(rneg(d))


def resub(t, m):
    """substitution, with the conditional pieces in their normal form again"""
    t = subst(t, m)
    if not any(x.op == "app" and x.val in ("pos", "ite_eq") for x in atoms_of([t])):
        return t
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "app":
            a = [go(y) for y in x.args]
            r = pos(a[0]) if x.val == "pos" else app(x.val, *a)
        elif x.args and x.sort == "R" and x.op != "i2r":
            r = rebuild(x, [go(a) for a in x.args])
        else:
            r = x
        memo[x.id] = r
        return r
    return go(t)


def contains(t, ids, memo):
    r = memo.get(t.id)
    if r is None:
        st = [t]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            if x.id in ids:
                memo[x.id] = True
                st.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x.id] = any(memo[a.id] for a in x.args)
            st.pop()
        r = memo[t.id]
    return r


LIMIT = 3000


def expand(t, ids):
    """{monomial in the terms depending on ids: coefficient}; a monomial is a sorted tuple of (node id, power)"""
    dm = {}
    nodes = {}
    memo = {}

    def mul(A, B):
        R = {}
        if len(A) * len(B) > LIMIT * 4:
            raise NoSummary("expression too large")
        for m, a in A.items():
            for n, b in B.items():
                d = dict(m)
                for i, p in n:
                    d[i] = d.get(i, 0) + p
                k = tuple(sorted((i, p) for i, p in d.items() if p))
                x = rmul(a, b)
                R[k] = radd(R[k], x) if k in R else x
        return R

    def atom(x, p=1):
        x = canon(x)
        nodes[x.id] = x
        return {((x.id, p),): R1}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if not contains(x, ids, dm):
            r = {(): x} if not (x.op == "rc" and x.val == 0) else {}
        elif x.op in ("add", "sub"):
            r = dict(go(x.args[0]))
            for m, c in go(x.args[1]).items():
                if x.op == "sub":
                    c = rneg(c)
                r[m] = radd(r[m], c) if m in r else c
        elif x.op == "neg":
            r = {m: rneg(c) for m, c in go(x.args[0]).items()}
        elif x.op == "mul":
            r = mul(go(x.args[0]), go(x.args[1]))
        elif x.op == "div":
            b = x.args[1]
            if not contains(b, ids, dm):
                r = {m: rdiv(c, b) for m, c in go(x.args[0]).items()}
            else:
                B = go(b)
                if len(B) == 1:
                    (m, c), = B.items()
                    inv = {tuple((i, -p) for i, p in m): rdiv(R1, c)}
                else:
                    inv = atom(b, -1)
                r = mul(go(x.args[0]), inv)
        else:
            r = atom(x)
        if len(r) > LIMIT:
            raise NoSummary("expression too large")
        memo[x.id] = r
        return r
    R = go(t)
    return {m: c for m, c in R.items() if not (c.op == "rc" and c.val == 0)}, nodes


def monomial(m, nodes):
    t = None
    for i, p in m:
        x = nodes[i]
        y = x
        for _ in range(abs(p) - 1):
            y = rmul(y, x)
        if p < 0:
            y = rdiv(R1, y)
        t = y if t is None else rmul(t, y)
    return R1 if t is None else t


REG = {}        # name of a prefix sum / product / fold -> (kind, body, bound node, parameter nodes)


def is_bound(x):
    return x.op == "i2r" and x.args[0].op == "iv" and x.args[0].val.startswith("!")


def params(t, kR):
    """bound integers of enclosing loops the term depends on"""
    return sorted({x for x in atoms_of([t]) if is_bound(x) and x is not kR}, key=lambda x: x.id)


def hole(i):
    return base_real(iv("!p%d" % i, 64))


def generic(t, kR):
    """the term with its free bound integers and its own index replaced by placeholders"""
    ps = params(t, kR)
    return resub(t, dict([(p.id, hole(i)) for i, p in enumerate(ps)] + [(kR.id, KK)])), ps


KK = None


def kk():
    global KK
    KK = base_real(iv("!K", 64))


kk()


def at(body, ps, args, i):
    """instance of a registered body at index i"""
    return resub(body, dict([(hole(j).id, a) for j, a in enumerate(args)] + [(KK.id, i)]))


def linform(E, t):
    L = E.ints.real(t)
    if L is None:
        raise NoSummary("bound of a sum is not linear: %s" % show(t)[:80])
    return L


def settled(E, L):
    """the same bound as one met before, if the path says that they are equal"""
    if all(n.op == "iv" and not n.val.startswith("!q") for n, _ in L.c.values()):
        return L
    B = Lin(L.c)
    for S in E.bounds:
        if S.key() == B.key():
            return L
        D = L.add(S, -1)
        for j in (0, -1, 1, -2, 2):
            if E.ints.implied(("eq", D.add(Lin(k=-j)))):
                return S.add(Lin(k=j))
    E.bounds.append(B)
    return L


def prefix(E, kind, name, u, args):
    """sum (or product) of the registered body over 0 <= k < u, in normal form"""
    _, body, _ = REG[name]
    L = linform(E, u)
    if L.k.denominator != 1:
        raise NoSummary("fractional bound")
    L = settled(E, L)
    c = int(L.k)
    if abs(c) > 4096:
        raise NoSummary("large constant bound")
    B = Lin(L.c)
    base = B.term()
    comb = radd if kind == "sum" else rmul
    t = (R0 if kind == "sum" else R1) if not B.c else app(name, base, *args)
    if B.c:
        signs(E, kind, name, body, t, B, args)
    for j in range(min(c, 0), max(c, 0)):
        x = at(body, None, args, radd(base, rc(j)) if B.c else rc(j))
        if kind == "sum":
            t = radd(t, x) if c > 0 else rsub(t, x)
        else:
            t = rmul(t, x) if c > 0 else rdiv(t, x)
    return t


SIGN = {}


def signs(E, kind, name, body, t, B, args):
    """sums and products of nonnegative (positive) values are nonnegative (positive)"""
    if E.known.get(rlt(t, R0).id) is False:
        return
    ctx = []
    names = {x.val for x in atoms_of([body]) if x.op == "app" and x.val.startswith("el_")}
    body = at(body, None, args, KK)
    Lk = Lin({KK.args[0].id: (KK.args[0], Fraction(1))})
    for k, bound, c, trs in E.foralls:
        if any(nm in names for nm, _, _ in trs) and E.ints.implied(("ge", bound.add(B, -1))):
            for nm, sl, off in trs:
                if nm in names and not off.c and not off.k and sl == 1:
                    ctx.append(subst(c, {base_real(k).id: KK}))
                    break
    key = (kind, body.id, tuple(c.id for c in ctx))
    r = SIGN.get(key)
    if r is None:
        ctx = ctx + [bnot(rlt(KK, R0))]
        if not E.solver.feasible(ctx, bnot(rlt(R0, body)), 1500):
            r = 2
        elif not E.solver.feasible(ctx, rlt(body, R0), 1500):
            r = 1
        else:
            r = 0
        SIGN[key] = r
    if r and not E.ints.implied(("ge", B)):
        return
    if r == 2 and (kind == "prod" or E.ints.implied(("ge", B.add(Lin(k=-1))))):
        learnt(E, rlt(R0, t))
    if r:
        learnt(E, bnot(rlt(t, R0)))


def learnt(E, x):
    if E.known.get(x.id) is not True:
        E.known[x.id] = True
        E.known[bnot(x).id] = False
        E.instd.add(x.id)
        E.pc.append(x)


def register(kind, m, kR):
    body, ps = generic(m, kR)
    name = "%s#%x" % (kind, fingerprint(body))
    if name not in REG:
        REG[name] = (kind, body, None)
    return name, ps


def elements(E, m, kR):
    """[(slope, offset form)] of the indices of the dataset elements in a term"""
    out = []
    for x in atoms_of([m]):
        if x.op == "app" and x.val.startswith("el_") and not contains(x, set(), {}):
            for a in x.args:
                L = E.ints.real(a)
                if L is not None and L.coef(kR.args[0]) != 0:
                    out.append((L.coef(kR.args[0]), L.drop(kR.args[0])))
    return out


def faulhaber(p, t):
    """sum of k^p over 0 <= k < t"""
    # polynomial through its values
    xs = list(range(p + 2))
    ys = [sum(Fraction(k) ** p for k in range(x)) for x in xs]
    coef = [Fraction(0)] * (p + 2)
    for i in xs:
        num = [Fraction(1)]
        den = Fraction(1)
        for j in xs:
            if j != i:
                num = [(num[a - 1] if a else 0) - (j * num[a] if a < len(num) else 0) for a in range(len(num) + 1)]
                den *= i - j
        for a, v in enumerate(num):
            coef[a] += ys[i] * v / den
    r = R0
    for c in reversed(coef):
        r = radd(rmul(r, t), rc(c))
    return r


def total(E, kind, g, kR, t):
    """sum or product of g over 0 <= k < t"""
    if kind == "prod":
        g = canon(g)
        A, nodes = expand(g, {kR.id})
        if len(A) == 1 and list(A)[0]:
            (m, c), = A.items()
            out = R1
            if not (c.op == "rc" and c.val == 1):
                nm, ps = register("prod", c, kR)
                out = shifted(E, "prod", c, kR, t)
            for i, p in m:
                x = shifted(E, "prod", nodes[i], kR, t)
                for _ in range(abs(p)):
                    out = rmul(out, x) if p > 0 else rdiv(out, x)
            return out
        return shifted(E, "prod", g, kR, t)
    A, nodes = expand(g, {kR.id})
    A, nodes = rational(E, A, nodes, kR)
    out = R0
    for m, c in A.items():
        w = [nodes[i] for i, p in m if p == 1 and nodes[i].op == "app" and nodes[i].val in ("ite_ge", "ite_eq")]
        if not m:
            s = t
        elif len(w) == 1 and (conditional(E, w[0], monomial(tuple(x for x in m if nodes[x[0]] is not w[0]), nodes), kR, t)) is not None:
            s = conditional(E, w[0], monomial(tuple(x for x in m if nodes[x[0]] is not w[0]), nodes), kR, t)
        elif len(m) == 1 and nodes[m[0][0]] is kR and m[0][1] > 0:
            s = faulhaber(m[0][1], t)
        else:
            s = shifted(E, "sum", monomial(m, nodes), kR, t)
        out = radd(out, rmul(c, s))
    if len(A) > 1:
        sgn(E, g, kR, t, out)
    return out


PF = {}


def fractions(a, dens):
    """k^a / prod (k + b)^p as {(power, 0, 0) or (0, b, p): coefficient}"""
    key = (a, tuple(sorted(dens.items())))
    r = PF.get(key)
    if r is not None:
        return r
    r = {}

    def put(f, m):
        for k, v in f.items():
            r[k] = r.get(k, 0) + m * v

    def less(b):
        d = dict(dens)
        d[b] -= 1
        if not d[b]:
            del d[b]
        return d
    if a and dens:
        b = min(dens)
        put(fractions(a - 1, less(b)), 1)
        put(fractions(a - 1, dens), -b)
    elif len(dens) > 1:
        b, c = sorted(dens)[:2]
        put(fractions(0, less(c)), 1 / Fraction(c - b))
        put(fractions(0, less(b)), -1 / Fraction(c - b))
    elif dens:
        (b, p), = dens.items()
        r[(0, b, p)] = Fraction(1)
    else:
        r[(a, 0, 0)] = Fraction(1)
    r = {k: v for k, v in r.items() if v}
    PF[key] = r
    return r


def rational(E, A, nodes, kR):
    """the monomials with their dependence on k through rational functions in partial fractions"""
    k = kR.args[0]
    if not any(p < 0 for m in A for _, p in m):
        return A, nodes
    out = {}
    nodes = dict(nodes)
    for m, c in A.items():
        a, dens, rest, f = 0, {}, [], Fraction(1)
        for i, p in m:
            x = nodes[i]
            L = E.ints.real(x) if x.op != "app" else None
            if x is kR and p > 0:
                a += p
            elif p < 0 and L is not None and L.coef(k) and not L.drop(k).c:
                al = L.coef(k)
                b = L.k / al
                dens[b] = dens.get(b, 0) - p
                f *= Fraction(1) / al ** (-p)
            else:
                rest.append((i, p))
        for (pw, b, p), v in (fractions(a, dens).items() if dens else [((a, 0, 0), Fraction(1))]):
            r = list(rest)
            if pw:
                nodes[kR.id] = kR
                r.append((kR.id, pw))
            if p:
                x = Lin({k.id: (k, Fraction(1))}, b).term()
                nodes[x.id] = x
                r.append((x.id, -p))
            key = tuple(sorted(r))
            w = rmul(rc(v * f), c)
            out[key] = radd(out[key], w) if key in out else w
    return {m: c for m, c in out.items() if not (c.op == "rc" and c.val == 0) and not _same(c, R0)}, nodes


def sgn(E, g, kR, t, out):
    """a sum of squares is not negative, whatever its normal form"""
    key = ("sgn", g.id)
    r = SIGN.get(key)
    if r is None:
        r = SIGN[key] = not E.solver.feasible([bnot(rlt(kR, R0))], rlt(g, R0), 1500)
    if r and E.ints.implied(("ge", linform(E, t))):
        learnt(E, bnot(rlt(out, R0)))


def conditional(E, w, rest, kR, t):
    """sum of terms which are present from (or only at) some index"""
    if not (w.args[2].op == "rc" and w.args[2].val == 0):
        return None
    L = E.ints.real(w.args[0])
    if L is None:
        return None
    s, off = L.coef(kR.args[0]), L.drop(kR.args[0])
    g = rmul(w.args[1], rest)
    T_ = linform(E, t)
    if w.val == "ite_eq" and abs(s) == 1:
        at0 = off.mul(-s)
        if E.ints.implied(("ge", at0)) and E.ints.implied(("ge", T_.add(at0, -1).add(Lin(k=-1)))):
            return relin(E, subst(g, {kR.id: at0.term()}))
    if w.val == "ite_ge" and s == 1:
        lo = off.mul(-1)
        if E.ints.implied(("ge", lo)) and E.ints.implied(("ge", T_.add(lo, -1))):
            return total(E, "sum", relin(E, subst(g, {kR.id: radd(kR, lo.term())})), kR, T_.add(lo, -1).term())
    if w.val == "ite_ge" and s == -1:
        hi = off.add(Lin(k=1))      # k <= off
        if E.ints.implied(("ge", hi)) and E.ints.implied(("ge", T_.add(hi, -1))):
            return total(E, "sum", g, kR, hi.term())
    return None


def shifted(E, kind, m, kR, t):
    el = elements(E, m, kR)
    sl = {s for s, _ in el}
    if el and sl == {Fraction(-1)}:
        m = subst(m, {kR.id: rsub(rsub(t, R1), kR)})
        m = relin(E, m)
        el = elements(E, m, kR)
        sl = {s for s, _ in el}
    if el and sl == {Fraction(1)}:
        # offsets equal up to a constant: shift the least to zero
        o0 = el[0][1]
        if all(not o.add(o0, -1).c for _, o in el):
            off = min((o for _, o in el), key=lambda o: o.k)
            if off.c or off.k:
                mm = relin(E, subst(m, {kR.id: rsub(kR, off.term())}))
                name, ps = register(kind, mm, kR)
                hi = prefix(E, kind, name, radd(t, off.term()), ps)
                lo = prefix(E, kind, name, off.term(), ps)
                return rsub(hi, lo) if kind == "sum" else rdiv(hi, lo)
    name, ps = register(kind, m, kR)
    return prefix(E, kind, name, t, ps)


def relin(E, t, memo=None):
    """linear index terms in their normal form"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.sort == "R" and x.op in ("add", "sub", "neg", "mul", "div"):
            L = E.ints.real(x)
            if L is not None:
                r = L.term()
                memo[x.id] = r
                return r
        if x.op == "app":
            r = app(x.val, *[go(a) for a in x.args])
        elif x.args and x.sort == "R" and x.op != "i2r":
            r = rebuild(x, [go(a) for a in x.args])
        else:
            r = x
        memo[x.id] = r
        return r
    return go(t)


def refold(E, t):
    """prefix sums whose bound became constant (or has a constant part), unrolled"""
    for _ in range(6):
        mp = {}
        for x in atoms_of([t]):
            if x.op == "app" and x.val in REG and REG[x.val][0] in ("sum", "prod"):
                L = E.ints.real(x.args[0])
                if L is not None and (not L.c or L.k):
                    mp[x.id] = prefix(E, REG[x.val][0], x.val, L.term(), x.args[1:])
            elif x.op == "app" and x.val in REG and REG[x.val][0] == "fold":
                L = E.ints.real(x.args[0])
                if L is not None and not L.c and 0 <= L.k <= 16:
                    mp[x.id] = unfold(x, int(L.k))
        if not mp:
            return t
        t = subst(t, mp)
    return t


def unfold(x, n):
    _, body, m = REG[x.val]
    hs, idx = m
    st = list(x.args[1:1 + len(hs)])
    ps = x.args[1 + len(hs):]
    for k in range(n):
        sub = dict([(h.id, s) for h, s in zip(hs, st)] + [(hole(j).id, a) for j, a in enumerate(ps)] + [(KK.id, rc(k))])
        st = [resub(b, sub) for b in body]
    return st[idx]


def repin(E):
    """the path has just fixed a size: what it says about sums of that length, unrolled"""
    ats = atoms_of(list(E.pc))
    pins = E.ints.pins(ats)
    new = False
    for x in ats if pins else []:
        if x.op == "app" and x.val in REG and REG[x.val][0] in ("sum", "prod"):
            L = E.ints.real(x.args[0])
            if L is not None and L.c and all(i in pins for i in L.c):
                n = L.k + sum(v * pins[i] for i, (_, v) in L.c.items())
                if 0 <= n <= 64:
                    learnt(E, req(x, prefix(E, REG[x.val][0], x.val, rc(n), x.args[1:])))
                    new = True
    return new


def inductive(E, c):
    """an equation between sums, by induction on the size"""
    if c.op != "req":
        return False
    D = rsub(*c.args)
    sums = [x for x in atoms_of([D]) if x.op == "app" and x.val in REG and REG[x.val][0] == "sum"]
    ns = {y for x in sums for y in atoms_of([x]) if y.op == "iv"}
    if not sums or len(ns) != 1:
        return False
    n, = ns
    nR = base_real(n)
    fs = E.ints.facts()
    Ln = Lin({n.id: (n, Fraction(1))})
    n0 = None
    for v in range(8, -1, -1):
        if E.ints.implied(("ge", Ln.add(Lin(k=-v))), fs):
            n0 = v
            break
    if n0 is None:
        return False
    facts = [("ge", Ln.add(Lin(k=-n0)))]

    def defined(t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "div":
                L = E.ints.real(x.args[1])
                if L is None or not E.ints.implied(("ne", scaled(L)), facts):
                    return False
            st.extend(x.args)
        return True
    try:
        Dn = refold(E, D)
        D1 = refold(E, relin(E, subst(Dn, {nR.id: radd(nR, R1)})))
        D0 = refold(E, relin(E, subst(Dn, {nR.id: rc(n0)})))
    except NoSummary:
        return False
    bodies = []
    return defined(Dn) and defined(D1) and _same(D0, R0) and _same(D1, Dn)


def scaled(L):
    d = 1
    for _, v in L.c.values():
        d *= v.denominator
    return L.mul(d * L.k.denominator)


# ---------------------------------------------------------------- control flow
def natural_loops(F):
    n = len(F.blocks)
    succ = [[] for _ in range(n)]
    for b in F.blocks:
        if not b.insts:
            continue
        I = b.insts[-1]
        if I.op == "br":
            succ[b.id] = list(I.x)
        elif I.op == "switch":
            succ[b.id] = [I.x[0]] + [c[1] for c in I.x[1]]
        elif I.op == "invoke":
            succ[b.id] = [x for x in (I.x[2], I.x[3]) if x is not None]
    pred = [[] for _ in range(n)]
    for i, s in enumerate(succ):
        for j in s:
            pred[j].append(i)
    dom = [None] * n
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for i in range(1, n):
            ps = [dom[p] for p in pred[i] if dom[p] is not None]
            if not ps:
                continue
            d = set.intersection(*ps) | {i}
            if d != dom[i]:
                dom[i] = d
                ch = True
    loops = {}
    for i in range(n):
        if dom[i] is None:
            continue
        for h in succ[i]:
            if h in dom[i]:
                body = loops.setdefault(h, {h})
                st = [i]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
    return loops


class Region:
    def __init__(self, header, blocks, main, collect):
        self.header = header
        self.blocks = blocks
        self.main = main            # branch instruction taken as staying in the loop
        self.collect = collect      # list of (instruction, condition of staying)


def increment(a, b):
    """a - b if it does not depend on loop-carried values"""
    d = rsub(a, b)
    hs = {x.id: R0 for x in atoms_of([d]) if x.op == "rv" and x.val.startswith("!h")}
    e = subst(d, hs)
    return e if _same(d, e) else None


def rite(E, c, a, b):
    """a where c holds, b elsewhere"""
    if a is b or _same(a, b):
        return a
    if a.op == "special" or b.op == "special":
        raise NoSummary("conditional special value")
    if not (c.op == "rlt" or c.op == "not" and c.args[0].op == "rlt") or E.ints.cond(c) is not None:
        d = increment(a, b)
        if d is not None and not (b.op == "rc" and b.val == 0) and not (a.op == "rc" and a.val == 0):
            return radd(b, rite(E, c, d, R0))
    lc = E.ints.cond(c)
    if lc is not None:
        kind, L = lc
        if kind == "ne":
            kind, a, b = "eq", b, a
        if kind == "eq":
            d = L.term()
            if not first_sign(d):
                d = rneg(d)
            return app("ite_eq", d, a, b)
        return app("ite_ge", L.term(), a, b)
    while c.op == "not":
        c, a, b = c.args[0], b, a
    if c.op == "rlt":
        d = rsub(c.args[1], c.args[0])
        for r in (1, -1, 2, -2):
            if _same(rsub(a, b), rmul(rc(r), d)):
                return radd(b, rmul(rc(r), pos(d)))
        e = increment(a, b)
        if not (b.op == "rc" and b.val == 0) and e is not None:
            return radd(b, app("ite_lt", d, e, R0))
        return app("ite_lt", d, a, b)
    if c.op == "req":
        d = rsub(*c.args)
        if not first_sign(d):
            d = rneg(d)
        return app("ite_eq", d, a, b)
    raise NoSummary("branch in a loop on %s" % show(c)[:60])


def merge(E, rs, get, i=0):
    if len(rs) == 1:
        return get(rs[0])
    vs = [get(r) for r in rs]
    if all(v is vs[0] for v in vs):
        return vs[0]
    if i >= len(rs[0]["pc"]):
        raise NoSummary("paths of a loop body cannot be told apart")
    c = rs[0]["pc"][i]
    A = [r for r in rs if i < len(r["pc"]) and r["pc"][i] is c]
    B = [r for r in rs if i < len(r["pc"]) and r["pc"][i] is bnot(c)]
    if len(A) + len(B) != len(rs):
        raise NoSummary("paths of a loop body cannot be told apart")
    if not B:
        return merge(E, A, get, i + 1)
    return ritev(E, c, merge(E, A, get, i + 1), merge(E, B, get, i + 1))


def ritev(E, c, a, b):
    if isinstance(a, Node) and isinstance(b, Node) and a.sort == "R" and b.sort == "R":
        return rite(E, c, a, b)
    if isinstance(a, (int, Node)) and isinstance(b, (int, Node)) and (isinstance(a, int) or isinstance(a.sort, int)):
        w = a.sort if isinstance(a, Node) else b.sort if isinstance(b, Node) else 64
        if isinstance(a, int) and a == b:
            return a
        return ite(c, inode(a, w), inode(b, w))
    if same_value(a, b):
        return a
    raise NoSummary("branches of a loop body leave different values")


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Node) and isinstance(b, Node):
        return a.sort == "R" and b.sort == "R" and a.op != "special" and b.op != "special" and _same(a, b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if hasattr(a, "obj") and hasattr(b, "obj"):
        return a.obj is b.obj and (a.off is b.off or isinstance(a.off, int) and a.off == b.off)
    if hasattr(a, "v") and hasattr(b, "v"):
        return a.v is b.v
    return False


def sandbox(E, F, regs, fr, H, blocks, phis, cells, extra, quiet, main):
    """execute one iteration from the given state, on every local path, and undo it"""
    X = E.X
    out = []
    base_pc, base_known, base_kc = E.pc, E.known, E.known_cmp
    sv = (E.prefix, E.work, E.di, E.quiet, E.zsign, list(E.heap), list(fr[2]), fr[1], E.inputs, E.ninput)
    fa = E.foralls
    work = [[]]
    E.quiet = quiet
    npaths = 0
    while work:
        npaths += 1
        if npaths > 48:
            raise NoSummary("too many paths in a loop body")
        E.prefix, E.work, E.di = work.pop(), work, 0
        E.pc, E.known, E.known_cmp = list(base_pc) + list(extra), dict(base_known), dict(base_kc)
        E.zsign = dict(sv[4])
        E.foralls = list(fa)
        for c in extra:
            E.known[c.id] = True
            E.known[bnot(c).id] = False
        E.journals.append({})
        r = list(regs)
        for res, v in phis.items():
            r[res] = v
        for (o, off), (sz, v) in cells.items():
            E.touch(o)
            if v is None:
                o.cells.pop(off, None)
            else:
                o.cells[off] = (sz, v)
        w0 = E.written
        E.written = set()
        collect = []
        depth = len(E.stack)
        try:
            res = E.exec_from(F, r, fr, H, -2, Region(H, blocks, main, collect), None, True)
        except X.Stop:
            res = None
        except (X.Fail, X.Unsupported, X.Limit, X.Thrown) as e:
            if quiet:
                res = ("bad", str(e))
            else:
                raise
        n0 = len(base_pc) + len(extra)
        if res is not None:
            d = {"pc": E.pc[n0:], "out": res, "exits": collect, "phis": {}, "cells": {}}
            if res[0] == "edge" and res[2] == H:
                for I in F.blocks[H].phis:
                    for b, o in I.ops:
                        if b == res[1]:
                            d["phis"][I.res] = r[o[1]] if o[0] == "r" else E.const(o)
                            break
            for (o, off) in E.written:
                if o.serial < E.mark and o.alive:
                    d["cells"][(o, off)] = o.cells.get(off)
            out.append(d)
        wr = E.written
        E.written = w0
        if w0 is not None:
            w0 |= wr
        for o, c in E.journals.pop().items():
            o.cells = c[0]
            o.alive = c[1]
        E.heap[:] = sv[5]
        fr[2][:] = sv[6]
    E.pc, E.known, E.known_cmp = base_pc, base_known, base_kc
    E.prefix, E.work, E.di, E.quiet, E.zsign = sv[0], sv[1], sv[2], sv[3], sv[4]
    fr[1] = sv[7]
    E.inputs, E.ninput = sv[8], sv[9]
    E.foralls = fa
    return out


def triggers(E, c, kR):
    """[(dataset, slope, offset)] of the elements in a condition whose index moves with k"""
    out = []
    for x in atoms_of([c]):
        if x.op == "app" and x.val.startswith("el_") and len(x.args) == 1:
            L = E.ints.real(x.args[0])
            if L is not None and abs(L.coef(kR.args[0])) == 1:
                t = (x.val, L.coef(kR.args[0]), L.drop(kR.args[0]))
                if not any(y[0] == t[0] and y[1] == t[1] and y[2].key() == t[2].key() for y in out):
                    out.append(t)
    return out


def instantiate(E, name, L, split=False):
    """what earlier loops established for every index, at the index of this element"""
    for k, bound, c, trs in list(E.foralls):
        for nm, s, off in trs:
            if nm != name:
                continue
            K = L.add(off, -1).mul(s)
            fs = E.ints.facts()
            if split and not E.quiet:
                if not E.ints.implied(("ge", K), fs) and not E.decide(bnot(rlt(K.term(), R0))):
                    continue
                if not E.decide(rlt(K.term(), bound.term())):
                    continue
                fs = E.ints.facts()
            if not (E.ints.implied(("ge", K), fs) and E.ints.implied(("ge", bound.add(K, -1).add(Lin(k=-1))), fs)):
                continue
            x = subst(c, {base_real(k).id: K.term()})
            E.instd.add(x.id)
            if E.known.get(x.id) is not True:
                E.assume(x)
                E.nassume -= 1


def summarise(E, F, regs, fr, H, prev):
    """None: the loop is executed as usual.  Otherwise the state at the head of the last iteration is in place, and the result says which
    way the exit branches go"""
    X = E.X
    blocks = F.loops[H]
    init = {}
    I_of = {}
    for I in F.blocks[H].phis:
        for b, o in I.ops:
            if b == prev:
                init[I.res] = regs[o[1]] if o[0] == "r" else E.const(o)
                I_of[I.res] = I
                break
    E.mark_up()
    # a first iteration as it is: does the exit depend on symbolic values?
    first = sandbox(E, F, regs, fr, H, blocks, init, {}, [], True, None)
    if not any(r["exits"] for r in first):
        return None
    depth = E.udepth
    E.udepth += 1
    try:
        return solve_loop(E, F, regs, fr, H, blocks, init, I_of, first)
    finally:
        E.udepth -= 1


def offset(x):
    """x = a + constant, modulo the width"""
    if x.op == "iadd" and x.args[1].op == "ic":
        return x.args[0], x.args[1].val
    if x.op == "iadd" and x.args[0].op == "ic":
        return x.args[1], x.args[0].val
    return x, 0


def solve_loop(E, F, regs, fr, H, blocks, init, I_of, first):
    X = E.X
    depth = E.udepth - 1
    k = iv("!k%d" % depth, 64)
    kR = base_real(k)
    mark = E.mark_up()
    # ---- which values change from one iteration to the next
    cells = {}
    state = {}          # key -> (initial value, width or None for reals, havoc node)

    def havoc():
        ph, ce = {}, {}
        for key, (v, w, h) in state.items():
            if key[0] == "p":
                ph[key[1]] = h
            else:
                ce[key[1]] = (key[2], h)
        for res, v in init.items():
            ph.setdefault(res, v)
        return ph, ce
    idx = 0
    Lk = Lin({k.id: (k, Fraction(1))})
    first = [r for r in first if r["out"][0] == "edge" and r["out"][2] == H]
    guess = {}

    def start(key, v, w, get):
        """the value of an integer at the head of iteration k: a counter, if the first iteration suggests so, else anything"""
        steps = set()
        Lv = E.ints.lin(v)
        for r in first:
            x = get(r)
            d = None
            if isinstance(x, int) and isinstance(v, int):
                d = sx((x - v) & ((1 << w) - 1), w)
            elif isinstance(x, Node) and x.op == "iadd" and x.args[0] is v and x.args[1].op == "ic":
                d = sx(x.args[1].val, w)
            elif x is v:
                d = 0
            elif isinstance(x, (int, Node)) and Lv is not None:
                Lx = E.ints.lin(x)
                if Lx is not None and not Lx.add(Lv, -1).c:
                    d = int(Lx.add(Lv, -1).k)
            steps.add(d)
        if len(steps) != 1 or None in steps:
            return iv("!i%d_%d" % (depth, idx), w)
        c = steps.pop()
        guess[key] = c
        if c == 0:
            return v
        b = k if w == 64 else mk("itrunc", (k,), w)
        n = iop("add", inode(v, w), iop("mul", b, ic(c, w), w), w)
        if Lv is not None:
            E.ints.given[n.id] = Lv.add(Lk, c)
        return n
    for res, v in init.items():
        t = I_of[res].ty
        if t.kind == "int" and t.width > 1 and isinstance(v, (int, Node)) and not (isinstance(v, Node) and not isinstance(v.sort, int)):
            state[("p", res)] = (v, t.width, start(("p", res), v, t.width, lambda r: r["phis"].get(res)))
        elif isinstance(v, Node) and v.sort == "R" and v.op != "special":
            state[("p", res)] = (v, None, rv("!h%d_%d" % (depth, idx)))
        idx += 1
    lim = rlt(kR, rc(1 << 31))
    for rnd in range(8):
        ph, ce = havoc()
        rs = sandbox(E, F, regs, fr, H, blocks, ph, ce, [lim], True, None)
        back = [r for r in rs if r["out"][0] == "edge" and r["out"][2] == H]
        new = {}
        for r in rs:
            if r["out"][0] == "bad" and rnd == 7:
                raise NoSummary(r["out"][1])
            for (o, off), c in r["cells"].items():
                if not any(key[0] == "c" and key[1] == (o, off) for key in state):
                    new[(o, off)] = c
        if not new:
            break
        for (o, off), c in new.items():
            old = o.cells.get(off)
            if c is None or (old is not None and old[0] != c[0]):
                raise NoSummary("memory cell changes its size in a loop")
            sz = c[0]
            key = ("c", (o, off), sz)
            if old is None or old[1] is X.UNDEF:
                state[key] = (None, "u", None)
            elif isinstance(old[1], Node) and old[1].sort == "R" and old[1].op != "special":
                state[key] = (old[1], None, rv("!h%d_%d" % (depth, idx)))
            elif isinstance(old[1], int) and isinstance(c[1], Node) and c[1].sort == "R":
                if old[1] != 0:
                    raise NoSummary("representation of a double")
                state[key] = (R0, None, rv("!h%d_%d" % (depth, idx)))
            elif isinstance(old[1], int) or isinstance(old[1], Node) and isinstance(old[1].sort, int):
                state[key] = (old[1], 8 * sz, start(key, old[1], 8 * sz, lambda r: r["cells"].get((o, off), (0, old[1]))[1]))
            else:
                state[key] = (old[1], "same", old[1])
            idx += 1
    bad = [r for r in rs if r["out"][0] == "bad"]
    if not back and not bad and E.pc and not E.solver.feasible(E.pc[:-1], E.pc[-1], 4000):
        raise X.Stop()
    if not back:
        raise NoSummary("no way back to the head of the loop" + (": " + bad[0]["out"][1] if bad else ""))

    def got(r, key):
        if key[0] == "p":
            return r["phis"][key[1]]
        c = r["cells"].get(key[1])
        return state[key][2] if c is None else c[1]
    # ---- counters
    def follows(x, key):
        v, w, h = state[key]
        c = guess[key]
        if c == 0:
            return x is v or same_value(x, v) or x is h
        if isinstance(x, Node) and x.op == "iadd" and x.args[0] is h and x.args[1].op == "ic" and sx(x.args[1].val, w) == c:
            return True
        if isinstance(x, Node) and isinstance(h, Node):
            (a, ca), (b, cb) = offset(x), offset(h)
            if a is b and sx((ca - cb) & ((1 << w) - 1), w) == c:
                return True
        if h.id not in E.ints.given:
            if h is not k:
                return False
            E.ints.given[h.id] = Lk
        pc0 = E.pc
        E.pc = pc0 + [lim]
        try:
            L = E.ints.lin(x)
        finally:
            E.pc = pc0
        return L is not None and L.key() == E.ints.given[h.id].add(Lin(k=c)).key()
    counters = {}
    for key, (v, w, h) in list(state.items()):
        if not isinstance(w, int):
            continue
        step = set()
        for r in back:
            x = got(r, key)
            if key in guess:
                step.add(guess[key] if follows(x, key) else None)
            elif x is h:
                step.add(0)
            elif isinstance(x, Node) and x.op == "iadd" and x.args[0] is h and x.args[1].op == "ic":
                step.add(sx(x.args[1].val, w))
            elif same_value(x, v) and isinstance(x, int):
                step.add("init")
            else:
                step.add(None)
        if step == {0} or step == {"init"} or step == {0, "init"}:
            counters[key] = 0
        elif len(step) == 1 and None not in step and "init" not in step:
            counters[key] = step.pop()
        else:
            raise NoSummary("integer of a loop is not a counter (%s)" % ", ".join(show(got(r, key))[:60] for r in back[:2]))
    for key, (v, w, h) in state.items():
        if w == "same" and not all(same_value(got(r, key), v) for r in back):
            raise NoSummary("pointer changed in a loop")
    for res, v in init.items():
        if ("p", res) not in state and not all(same_value(r["phis"][res], v) for r in back):
            raise NoSummary("loop-carried value of another type")
    lins = {}

    def counter(key, L):
        """value of the counter at iteration L (a linear form)"""
        v, w, h = state[key]
        c = counters[key]
        if c == 0:
            return v
        base = L.bits()
        b = base if w == 64 else mk("itrunc", (base,), w) if base.op != "ic" else ic(base.val, w)
        n = iop("add", inode(v, w), iop("mul", b, ic(c, w), w), w)
        if key in lins:
            E.ints.given[n.id] = lins[key].add(L, c)
        return n
    for key, c in counters.items():
        L = E.ints.lin(state[key][0])
        if L is not None:
            lins[key] = L

    def at_int(L):
        for key in counters:
            v, w, h = state[key]
            state2[key] = counter(key, L)
    state2 = {}
    at_int(Lk)

    def st(vals):
        ph, ce = {}, {}
        for key, (v, w, h) in state.items():
            x = vals[key] if key in vals else h
            if key[0] == "p":
                ph[key[1]] = x
            else:
                ce[key[1]] = (key[2], x)
        for res, v in init.items():
            ph.setdefault(res, v)
        return ph, ce
    ph, ce = st(state2)
    rs = sandbox(E, F, regs, fr, H, blocks, ph, ce, [lim], True, None)
    # ---- the number of iterations
    conds = {}
    for r in rs:
        for I, c in r["exits"]:
            conds.setdefault(id(I), (I, set()))[1].add(c)
    main = None
    for i, (I, cs) in conds.items():
        if len(cs) != 1:
            continue
        c, = cs
        pc0 = E.pc
        E.pc = pc0 + [lim]
        try:
            lc = E.ints.cond(c)
        finally:
            E.pc = pc0
        if lc is None:
            continue
        kind, L = lc
        s = L.coef(k)
        L0 = L.drop(k)
        if kind == "ge" and s < 0:
            if s != -1:
                q = iv("!q%d" % E.fresh_id(), 64)
                Q = Lin({q.id: (q, Fraction(1))})
                main = (I, c, Q, ("ge", L0), [bnot(rlt(L0.term(), Q.add(Lin(k=-1)).mul(-s).term())), rlt(L0.term(), Q.mul(-s).term())])
            else:
                main = (I, c, L0.add(Lin(k=1)), ("ge", L0), [])
            break
        if kind == "ne" and abs(s) == 1:
            main = (I, c, L0.mul(-1 / s), ("ne", L0), [])
            break
    if main is None:
        raise NoSummary("the number of iterations is not a linear expression")
    I, c, LT, (kind, L0), side = main
    c0 = bnot(rlt(L0.term(), R0)) if kind == "ge" else bnot(req(L0.term(), R0))
    if not E.decide(c0):
        if repin(E) and not E.solver.feasible(E.pc[:-1], E.pc[-1], 4000):
            raise X.Stop()
        return None
    for x in side:
        E.pc.append(x)
    fs = E.ints.facts()
    if not E.ints.implied(("ge", LT), fs) or not E.ints.implied(("ge", Lin(k=1 << 31).add(LT, -1)), fs):
        raise NoSummary("the number of iterations may be negative or too large")
    TR = LT.term()
    # counters stay in the range of their type
    for key, c in list(counters.items()):
        if c == 0 or key not in lins:
            continue
        w = state[key][1]
        a, b = lins[key], lins[key].add(LT, c)
        if not (E.ints.within(a, 0, (1 << w) - 1, fs) and E.ints.within(b, 0, (1 << w) - 1, fs)):
            raise NoSummary("a counter may wrap around")
    inloop = rlt(kR, TR)
    # ---- one arbitrary iteration
    rs = sandbox(E, F, regs, fr, H, blocks, ph, ce, [inloop], True, I)
    for r in rs:
        if r["out"][0] == "bad":
            raise NoSummary(r["out"][1])
    back = [r for r in rs if r["out"][0] == "edge" and r["out"][2] == H]
    if len(back) != len(rs):
        raise NoSummary("the loop is left by an unexpected way")
    reals = [key for key, (v, w, h) in state.items() if w is None]
    pc0 = E.pc
    E.pc = pc0 + [inloop]
    upd = {}
    for key in reals:
        for r in back:
            x = got(r, key)
            if not (isinstance(x, Node) and x.sort == "R" and x.op != "special"):
                E.pc = pc0
                raise NoSummary("loop-carried real becomes %r" % (x,))
        upd[key] = relin(E, merge(E, back, lambda r: got(r, key)))
    closed = {}

    def solved(key, f):
        closed[key] = f
        h = state[key][2]
        x = f(kR)
        for o in upd:
            if o not in closed:
                upd[o] = subst(upd[o], {h.id: x})
    todo = list(reals)
    while todo:
        done = None
        un = {state[q][2].id for q in todo}
        for key in todo:
            v, w, h = state[key]
            u = upd[key]
            if u is h or _same(u, h):
                solved(key, lambda t, v=v: v)
                done = key
                break
            A, nodes = expand(u, un)
            hm = ((h.id, 1),)
            if all(m in ((), hm) for m in A) and hm in A and not contains(A[hm], un, {}) and not contains(A.get((), R0), un, {}):
                if _same(A[hm], R1):
                    g = A.get((), R0)
                    solved(key, lambda t, g=g, v=v: radd(v, total(E, "sum", g, kR, t)))
                    done = key
                    break
                if () not in A:
                    g = A[hm]
                    solved(key, lambda t, g=g, v=v: rmul(v, total(E, "prod", g, kR, t)))
                    done = key
                    break
                for c in (1, 2, 3):     # h (k + c + 1) = h (k + c) + ...
                    if _same(rmul(A[hm], radd(kR, rc(c + 1))), radd(kR, rc(c))):
                        g = rmul(radd(kR, rc(c + 1)), A[()])
                        solved(key, lambda t, g=g, v=v, c=c: rdiv(radd(rmul(rc(c), v), total(E, "sum", canon(g), kR, t)), radd(t, rc(c))))
                        done = key
                        break
                if done is not None:
                    break
        if done is None:
            # the smallest closed group
            best = None
            for key in todo:
                grp = {key}
                ch = True
                while ch:
                    ch = False
                    for g in list(grp):
                        for q in todo:
                            if q not in grp and contains(upd[g], {state[q][2].id}, {}):
                                grp.add(q)
                                ch = True
                if best is None or len(grp) < len(best):
                    best = grp
            grp = [q for q in todo if q in best]
            hs = [state[q][2] for q in grp]
            sub = {h.id: rv("!s%d" % i) for i, h in enumerate(hs)}
            bodies = [resub(upd[q], sub) for q in grp]
            ps = sorted({x for b in bodies for x in params(b, kR)}, key=lambda x: x.id)
            gsub = dict([(p.id, hole(i)) for i, p in enumerate(ps)] + [(kR.id, KK)])
            bodies = [resub(b, gsub) for b in bodies]
            nm = "fold#%x" % (hash(tuple(fingerprint(b) for b in bodies)) & ((1 << 62) - 1))
            ins = [state[q][0] for q in grp]
            for i, q in enumerate(grp):
                REG.setdefault("%s#%d" % (nm, i), ("fold", bodies, ([rv("!s%d" % j) for j in range(len(hs))], i)))
                solved(q, lambda t, i=i, nm=nm, ins=ins, ps=ps: app("%s#%d" % (nm, i), t, *(ins + ps)))
                todo.remove(q)
            continue
        todo.remove(done)
    E.pc = pc0

    def full(L):
        t = L.term()
        vals = {}
        for key in counters:
            vals[key] = counter(key, L)
        for key in reals:
            vals[key] = closed[key](t)
        return vals
    # ---- the obligations of the body at an arbitrary iteration
    E.pc = pc0 + [inloop]
    ph, ce = st(full(Lk))
    E.pc = pc0
    na = E.nassume
    rs = sandbox(E, F, regs, fr, H, blocks, ph, ce, [inloop], E.quiet, I)
    early = []
    for r in rs:
        for J, c in r["exits"]:
            if J is not I and J not in early:
                early.append(J)
    which = E.choose(1 + len(early)) if early else 0
    if not E.quiet and (early or E.nassume > na):
        learn = bor(*[band(*[c for c in r["pc"] if c.id not in E.instd]) for r in rs])
    else:
        learn = TRUE

    def direction(J, leave):
        out = J.x[0] not in blocks
        return out if leave else not out
    if which == 0:
        L = LT
        force = {id(I): direction(I, True)}
        bound = LT
    else:
        j = iv("!j%d" % E.fresh_id(), 64)
        L = Lin({j.id: (j, Fraction(1))})
        E.pc.append(rlt(base_real(j), TR))
        bound = L
        force = {id(I): direction(I, False), id(early[which - 1]): (direction(early[which - 1], True), "assume")}
    if learn is not TRUE:
        E.foralls.append((k, bound, learn, triggers(E, learn, kR)))
        for nm, Lx in list(E.accessed.values()):
            instantiate(E, nm, Lx, True)
    vals = full(L)
    ph, ce = st(vals)
    for res, v in ph.items():
        regs[res] = v
    for (o, off), (sz, v) in ce.items():
        E.touch(o)
        if v is None:
            o.cells.pop(off, None)
        else:
            o.cells[off] = (sz, v)
        if E.written is not None:
            E.written.add((o, off))
    E.summarised += 1
    return force
