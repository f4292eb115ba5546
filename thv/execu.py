"""Symbolic executor / obligation generator over the LLVM IR of the real code.

Every path of a contract function is executed; each thv_ensure* produces an obligation that has to hold for all
values of the symbolic inputs under the path condition.  Loads/stores, divisions, shifts and assertion calls
produce safety obligations."""
import math
import struct
import sys
import time

from .terms import *
from . import terms as T
from .solve import Solver, Stats, const_num, fingerprint, _same
from . import tm
from . import builtins as BI
from . import loops as LP


class Stop(Exception):
    pass


class Fail(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class Thrown(Exception):
    """a C++ exception in flight"""
    def __init__(self, obj, ti, dtor):
        self.obj, self.ti, self.dtor = obj, ti, dtor


class Unsupported(Exception):
    pass


class Limit(Exception):
    pass


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class RawBits:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Obj:
    __slots__ = ("size", "name", "cells", "alive", "kind", "ro", "serial")
    count = 0

    def __init__(self, size, name, kind):
        self.size = size
        self.name = name
        self.cells = {}
        self.alive = True
        self.kind = kind
        Obj.count += 1
        self.serial = 0 if kind in ("global", "extern", "const", "func") else Obj.count


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "&%s+%s" % (self.obj.name if self.obj is not None else "null", self.off)


NULL = Ptr(None, 0)
M64 = (1 << 64) - 1


class Path:
    __slots__ = ("prefix",)


class Exec:
    """explores all paths of one contract"""

    def __init__(self, mod, opts=None):
        self.mod = mod
        self.stats = Stats()
        self.solver = Solver(self.stats)
        self.opts = {"maxpaths": 4000, "maxinst": 6000000, "maxdec": 4000, "deadline": None}
        if opts:
            self.opts.update(opts)
        self.gobjs = None
        self.results = {}      # obligation name -> list of dict(verdict,...)
        self.failures = []     # failed/unknown obligations
        self.proved_cache = {}
        self.assumptions = set()
        self.summaries = {}
        self.funcs_seen = set()
        self.loop_rec = {}
        self.bounded = set()
        self.unbounded = False
        self.summarised = 0
        self.X = sys.modules[__name__]
        self.ieee = False
        self.fixed = self.opts.get("fixed")       # concrete inputs: exact evaluation of one run
        if self.fixed is not None:
            from .solve import mpeval, native_uf
            uf = native_uf(self.opts.get("ufseed", 0), self.opts.get("uftabs", {}))
            self.solver.exact = lambda c: bool(mpeval([c], lambda x: 0, uf)[0])

    # ---------------------------------------------------------------- exploration
    def run(self, fname):
        work = [[]]
        self.paths = 0
        self.completed = 0
        self.ensured = 0
        self.incomplete = []
        while work:
            if self.paths >= self.opts["maxpaths"]:
                self.incomplete.append("path limit %d" % self.opts["maxpaths"])
                break
            if self.opts["deadline"] and time.time() > self.opts["deadline"]:
                self.incomplete.append("time limit")
                break
            prefix = work.pop()
            self.paths += 1
            self.start_path(prefix, work)
            try:
                self.call_function(fname, [])
                self.completed += 1
                self.check_leaks()
            except Stop:
                pass
            except (Fail, Thrown) as e:
                if isinstance(e, Thrown):
                    at = e.at
                    e = Fail("exception", "an exception leaves the contract (%s)" % e.ti)
                    e.at = at
                self.exc = e
                m = self.model()
                if m != "unsat":
                    self.report(e.kind, self.where_name(), "failed", "exec", m if isinstance(m, dict) else None, e.msg)
            except Unsupported as e:
                self.exc = e
                self.report("unsupported", self.where_name(), "unknown", "exec", None, str(e))
                if len([f for f in self.failures if f["kind"] == "unsupported"]) > 5:
                    self.incomplete.append("unsupported: %s" % e)
                    break
            except Limit as e:
                self.exc = e
                self.report("unwinding", self.where_name(), "unknown", "exec", None, str(e))
                self.incomplete.append(str(e))
            except RecursionError:
                self.report("unwinding", self.where_name(), "unknown", "exec", None, "recursion depth")
                self.incomplete.append("recursion depth")
            self.exc = None
            if len([f for f in self.failures]) > 40:
                self.incomplete.append("too many failures")
                break
        return self

    def start_path(self, prefix, work):
        self.prefix = prefix
        self.work = work
        self.di = 0
        self.pc = []
        self.known = {}
        self.known_cmp = {}
        self.ninst = 0
        self.objs = {}
        self.gobj = {}
        self.ninput = 0
        self.inputs = []
        self.fp = False
        self.nodiv0 = False
        self.errno = None
        self.stack = []
        self.heap = []
        self.fresh = 0
        self.leakcheck = True
        self.inline = set()
        self.abstract = set()
        self.abstract1 = set()
        self.ctr = 0
        self.written = None
        self.tainted = False
        self.zsign = {}
        self.exns = {}
        self.flying = None
        self.caught = []
        self.unb = False
        self.quiet = False
        self.journals = []
        self.udepth = 0
        self.nfresh = 0
        self.mark = 0
        self.specs = {}
        self.foralls = []
        self.bounds = []
        self.accessed = {}
        self.nassume = 0
        self.instd = set()
        self.ints = LP.Ints(self)

    def where_name(self):
        return self.where()

    def where(self):
        if not self.stack and getattr(self, "exc", None) is not None and hasattr(self.exc, "at"):
            return self.exc.at[0]
        for fr in reversed(self.stack):
            I = fr[1]
            if I is not None and I.file and "/contracts/" not in I.file and "/usr/" not in I.file:
                return "%s:%d" % (I.file.split("/src/")[-1].replace("../", "").replace("./", ""), I.line)
        for fr in reversed(self.stack):
            I = fr[1]
            if I is not None and I.file:
                return "%s:%d" % (I.file.split("/")[-1], I.line)
        return "?"

    def contract_line(self):
        for fr in self.stack:
            I = fr[1]
            if I is not None and I.file and "/contracts/" in I.file:
                return I.line
        return 0

    def check_leaks(self):
        self.stats.inc("obl")
        self.stats.inc("discharged")
        if self.leakcheck:
            lost = [o for o in self.heap if o.alive]
            if lost:
                raise Fail("memory-leak", "%d heap objects not freed" % len(lost))

    def report(self, kind, name, verdict, backend, model, msg=""):
        self.stats.inc("obl")
        if verdict == "proved":
            self.stats.inc("discharged")
            self.stats.inc("be_" + backend)
            return
        self.failures.append({"kind": kind, "name": name, "verdict": verdict, "backend": backend, "model": model,
                              "msg": msg, "where": self.where(), "inputs": list(self.inputs),
                              "path": [show(c) for c in self.pc][:40], "line": self.contract_line(), "pick": dict(self.picks())})

    def picks(self):
        return [(k, v) for (k, kind, v) in self.inputs if kind == "pick"]

    def oblige(self, name, cond, kind="ensures"):
        """cond must hold here"""
        if self.quiet:
            return True
        self.ensured += 1
        if self.unb and isinstance(cond, Node) and self.fixed is None:
            cond = self.normal(cond)
            if isinstance(cond, Node) and cond.op == "req" and not _same(*cond.args) and LP.inductive(self, cond):
                self.report(kind, name, "proved", "induction", None)
                return True
        if cond is TRUE or cond is True or (not isinstance(cond, Node) and cond):
            self.report(kind, name, "proved", "eval", None)
            return True
        if not isinstance(cond, Node):
            cond = FALSE
        if cond is FALSE:
            # fails on every input of this path: the path condition's model is the counterexample
            m = self.model()
            if m == "unsat":
                self.report(kind, name, "proved", "z3", None)
                raise Stop()
            self.report(kind, name, "failed" if isinstance(m, dict) else "unknown", "eval", m if isinstance(m, dict) else None)
            return False
        key = (tuple(c.id for c in self.pc), cond.id)
        r = self.proved_cache.get(key)
        if r is None:
            r = self.proved_cache[key] = self.solver.prove(self.pc, cond)
        v, be, m = r
        if v == "proved":
            self.report(kind, name, "proved", be, None)
            return True
        self.report(kind, name, "failed" if v == "refuted" else "unknown", be, m if isinstance(m, dict) else None,
                    "goal: " + show(cond)[:600])
        return False

    def model(self):
        if self.fixed is not None:
            return {}
        from .solve import run_z3, int_unsat, atoms_of
        s = self.solver.sample(self.pc, FALSE, 200)
        if s is not None:
            return s
        if any(x.op in ("imul", "iudiv", "iurem") for x in atoms_of(self.pc)) and int_unsat(self.pc, 5000):
            return "unsat"
        r, m = run_z3(self.pc, 5000, want_model=True)
        if r == "unsat":
            return "unsat"
        return m

    # ---------------------------------------------------------------- decisions
    def decide(self, c):
        if not isinstance(c, Node):
            if isinstance(c, Undef):
                raise Fail("uninitialised", "branch depends on an uninitialised value")
            return bool(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        k = self.known.get(c.id)
        if k is not None:
            return k
        alias = None
        if not self.fp:
            b, sg = c, True
            while b.op == "not":
                b, sg = b.args[0], not sg
            if b.op in ("rlt", "req"):      # the same comparison of two numbers, written in another way
                f = fingerprint(rsub(*b.args))
                alias = (b.op, min(f, T.FIELD - f) if b.op == "req" else f), sg
                k = self.known_cmp.get(alias[0])
                if k is not None and _same(rsub(*k[0].args), rsub(*b.args)) or k is not None and b.op == "req" and _same(rsub(*k[0].args), rsub(b.args[1], b.args[0])):
                    self.known[c.id] = k[1] == sg
                    self.known[bnot(c).id] = k[1] != sg
                    return k[1] == sg
        i = self.di
        self.di += 1
        if i < len(self.prefix):
            v, forced = self.prefix[i]
        else:
            if i > self.opts["maxdec"]:
                raise Limit("decision limit %d reached (loop not unwound completely)" % self.opts["maxdec"])
            if self.opts["deadline"] and time.time() > self.opts["deadline"]:
                raise Limit("time limit")
            lc = self.ints.cond(c) if self.unb and self.fixed is None else None
            if lc is not None:
                t = not self.ints.implied(self.ints.cond(bnot(c)))
                f = not self.ints.implied(lc) if t else True
            else:
                t = self.solver.feasible(self.pc, c)
                f = self.solver.feasible(self.pc, bnot(c)) if t else True
            if t and f:
                self.work.append(self.prefix + [(False, False)])
                v, forced = True, False
            elif t:
                v, forced = True, True
            else:
                v, forced = False, True
            self.prefix = self.prefix + [(v, forced)]
        self.known[c.id] = v
        self.known[bnot(c).id] = not v
        if alias:
            self.known_cmp[alias[0]] = (b, v == alias[1])
        if not forced:
            self.pc.append(c if v else bnot(c))
        return v

    def fresh_id(self):
        self.nfresh += 1
        return self.nfresh

    def mark_up(self):
        Obj.count += 1
        self.mark = Obj.count
        BI.do_errno(self, [])
        return self.mark

    def touch(self, o):
        for j in self.journals:
            if o not in j:
                j[o] = (dict(o.cells), o.alive)

    def normal(self, c):
        """a goal over sums: integers fixed by the path are replaced, sums of known length unrolled"""
        lc = self.ints.cond(c)
        if lc is not None:
            return TRUE if self.ints.implied(lc) else c
        pins = self.ints.pins(atoms_of([c]))
        if pins:
            mp = {}
            for x in atoms_of([c]):
                if x.op == "i2r" and x.args[0].id in pins:
                    mp[x.id] = rc(pins[x.args[0].id])
            c = subst(c, mp)
        try:
            return LP.refold(self, c)
        except LP.NoSummary:
            return c

    def choose(self, n):
        """unconstrained n-way choice"""
        if n <= 1:
            return 0
        i = self.di
        self.di += 1
        if i < len(self.prefix):
            return self.prefix[i][0]
        for k in range(n - 1, 0, -1):
            self.work.append(self.prefix + [(k, True)])
        self.prefix = self.prefix + [(0, True)]
        return 0

    def assume(self, c):
        if not isinstance(c, Node):
            if isinstance(c, Undef):
                raise Fail("uninitialised", "assumption on an uninitialised value")
            if not c:
                raise Stop()
            return
        if c is TRUE:
            return
        if c is FALSE:
            raise Stop()
        self.nassume += 1
        if self.known.get(c.id) is True:
            return
        lc = self.ints.cond(c) if self.unb and self.fixed is None else None
        if lc is not None:
            if self.ints.implied(self.ints.cond(bnot(c))):
                raise Stop()
        elif not self.solver.feasible(self.pc, c):
            raise Stop()
        self.pc.append(c)
        self.known[c.id] = True
        self.known[bnot(c).id] = False
        if c.op == "and":
            for a in c.args:
                self.known[a.id] = True
                self.known[bnot(a).id] = False

    # ---------------------------------------------------------------- doubles (real mode)
    def fconst(self, d):
        if self.fp:
            return T.fcn(d)
        if d != d:
            return T.NAN
        if d == math.inf:
            return T.PINF
        if d == -math.inf:
            return T.NINF
        c = T.named_const(d)
        if c is not None:
            self.assumptions.add("literals within 2 ulp of pi, sqrt(2), ... are read as those constants")
            return c
        return rc(simplest_rational(d))

    def farith(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if self.fp:
            return mk(op, (a, b), "F")
        sa, sb = a.op == "special", b.op == "special"
        if not sa and not sb:
            if op == "fadd":
                return radd(a, b)
            if op == "fsub":
                return rsub(a, b)
            if op == "fmul":
                return rmul(a, b)
            if op == "fdiv":
                return self.fdiv(a, b)
            if op == "frem":
                return app("fmod", a, b)
        if a is T.NAN or b is T.NAN:
            return T.NAN
        if op in ("fadd", "fsub"):
            if sb and op == "fsub":
                b = T.NINF if b is T.PINF else T.PINF
            if sa and sb:
                return a if a is b else T.NAN
            return a if sa else b
        if op == "fmul":
            if sa and sb:
                return T.PINF if a is b else T.NINF
            i, x = (a, b) if sa else (b, a)
            if self.decide(req(x, R0)):
                return T.NAN
            pos = self.decide(rlt(R0, x))
            return i if pos else (T.NINF if i is T.PINF else T.PINF)
        if op == "fdiv":
            if sa and sb:
                return T.NAN
            if sb:
                return R0
            if self.decide(req(b, R0)):
                return a if self.choose(2) == 0 else (T.NINF if a is T.PINF else T.PINF)
            pos = self.decide(rlt(R0, b))
            return a if pos else (T.NINF if a is T.PINF else T.PINF)
        raise Unsupported(op + " on special values")

    def fdiv(self, a, b):
        if b.op == "rc" and b.val != 0:
            return rdiv(a, b)
        if self.nodiv0:
            self.assumptions.add("contract assumes the divisors met on the way are nonzero")
            self.assume(bnot(req(b, R0)))
            return rdiv(a, b)
        if self.decide(req(b, R0)):
            if self.decide(req(a, R0)):
                return T.NAN
            if b.op == "app" and b.val == "sqrt":       # the root of zero is +0
                return T.PINF if self.decide(rlt(R0, a)) else T.NINF
            k = (a.id, b.id)          # the sign of a zero divisor is not tracked, but it is one value
            if k not in self.zsign:
                self.zsign[k] = T.PINF if self.choose(2) == 0 else T.NINF
            return self.zsign[k]
        return rdiv(a, b)

    def fneg(self, a):
        if a is UNDEF:
            return a
        if self.fp:
            return mk("fneg", (a,), "F")
        if a.op == "special":
            return {"nan": T.NAN, "+inf": T.NINF, "-inf": T.PINF}[a.val]
        return rneg(a)

    def fabs(self, a):
        if a is UNDEF:
            return a
        if self.fp:
            return mk("fabs", (a,), "F")
        if a.op == "special":
            return T.NAN if a is T.NAN else T.PINF
        if a.op == "rc":
            return rc(abs(a.val))
        return rneg(a) if self.decide(rlt(a, R0)) else a

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred in ("true", "false"):
            return 1 if pred == "true" else 0
        if self.fp:
            return self.fcmp_fp(pred, a, b)
        if a.op == "special" or b.op == "special":
            if a is T.NAN or b is T.NAN:
                return 1 if pred[0] == "u" and pred != "uno" or pred == "uno" else 0
            if pred == "ord":
                return 1
            if pred == "uno":
                return 0
            ka = {"+inf": 1, "-inf": -1}[a.val] if a.op == "special" else 0
            kb = {"+inf": 1, "-inf": -1}[b.val] if b.op == "special" else 0
            p = pred[1:]
            return int({"eq": ka == kb, "gt": ka > kb, "ge": ka >= kb, "lt": ka < kb, "le": ka <= kb, "ne": ka != kb}[p])
        p = pred[1:]
        if pred == "ord":
            return 1
        if pred == "uno":
            return 0
        if p == "eq":
            return req(a, b)
        if p == "ne":
            return bnot(req(a, b))
        if p == "lt":
            return rlt(a, b)
        if p == "gt":
            return rlt(b, a)
        if p == "le":
            return bnot(rlt(b, a))
        return bnot(rlt(a, b))

    def fcmp_fp(self, pred, a, b):
        nan = bnot(band(bnot(mk("fnan", (a,), "B")), bnot(mk("fnan", (b,), "B"))))
        if pred == "uno":
            return nan
        if pred == "ord":
            return bnot(nan)
        p = pred[1:]
        # ordered versions are false on NaN by construction of fp.eq/lt/leq
        base = {"eq": lambda: mk("feq", (a, b), "B"), "lt": lambda: mk("flt", (a, b), "B"), "le": lambda: mk("fle", (a, b), "B"),
                "gt": lambda: mk("flt", (b, a), "B"), "ge": lambda: mk("fle", (b, a), "B")}
        if pred[0] == "o":
            if p == "ne":
                return band(bnot(nan), bnot(base["eq"]()))
            return base[p]()
        if p == "ne":
            return bnot(base["eq"]())
        inv = {"eq": None, "lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}
        if p == "eq":
            return bnot(band(bnot(nan), bnot(base["eq"]())))
        return bnot(base[inv[p]]())

    # ---------------------------------------------------------------- memory
    def new_obj(self, size, name, kind):
        o = Obj(size, name, kind)
        if kind == "heap":
            self.heap.append(o)
        return o

    def access(self, p, size, what):
        """-> concrete offset"""
        self.stats.inc("mem_obl")
        if not isinstance(p, Ptr):
            if p is UNDEF or p is None:
                raise Fail("memory-safety", "%s through an uninitialised pointer" % what)
            if isinstance(p, int):
                raise Fail("memory-safety", "%s through a null/invalid pointer" % what)
            raise Unsupported("%s through %r" % (what, p))
        o = p.obj
        if o is None:
            raise Fail("memory-safety", "%s through a null pointer" % what)
        if not o.alive:
            raise Fail("memory-safety", "%s of freed or out-of-scope object %s" % (what, o.name))
        off = p.off
        if isinstance(off, Node):
            lim = o.size - size
            ok = bnot(icmp("ult", ic(lim, 64), off, 64)) if lim >= 0 else FALSE
            if not self.oblige("in bounds (%s %s)" % (what, o.name), ok, "memory-safety"):
                raise Stop()
            offs = sorted(k for k in o.cells if k + size <= o.size)
            if len(offs) > 4096:
                raise Unsupported("symbolic offset in large object")
            for k in offs:
                if self.decide(icmp("eq", off, ic(k, 64), 64)):
                    return k
            for k in range(0, lim + 1, size):
                if k not in o.cells and self.decide(icmp("eq", off, ic(k, 64), 64)):
                    return k
            raise Stop()
        if off < 0 or off + size > o.size:
            raise Fail("memory-safety", "%s out of bounds: offset %d size %d in object %s of %d bytes" % (what, off, size, o.name, o.size))
        return off

    def load(self, p, ty):
        k = ty.kind
        if k in ("struct",):
            return tuple(self.load(Ptr(p.obj, self.padd(p.off, o)), e) for e, o in zip(ty.elems, ty.offs))
        if k in ("array", "vector"):
            e = ty.elems[0]
            return tuple(self.load(Ptr(p.obj, self.padd(p.off, i * e.size)), e) for i in range(ty.n))
        sz = ty.store
        off = self.access(p, sz, "read")
        o = p.obj
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return self.conv(c[1], ty)
        # assemble
        return self.assemble(o, off, sz, ty)

    def assemble(self, o, off, sz, ty):
        bs = []
        for b in range(off, off + sz):
            for s in range(b, b - 17, -1):
                c = o.cells.get(s)
                if c is not None:
                    if s + c[0] > b:
                        v = c[1]
                        if isinstance(v, int):
                            bs.append((v >> (8 * (b - s))) & 255)
                        elif isinstance(v, Node) and v.op == "rc" and v.val == 0:
                            bs.append(0)
                        elif isinstance(v, Ptr) and v.obj is None:
                            bs.append(0)
                        elif isinstance(v, Node) and isinstance(v.sort, int):
                            sh = mk("ilshr", (v, ic(8 * (b - s), v.sort)), v.sort) if b > s else v
                            bs.append(mk("itrunc", (sh,), 8) if v.sort > 8 else sh)
                        elif v is UNDEF:
                            bs.append(UNDEF)
                        else:
                            raise Unsupported("partial read of a symbolic cell")
                        break
                    break
            else:
                bs.append(UNDEF)
                continue
            if len(bs) != b - off + 1:
                bs.append(UNDEF)
        if all(isinstance(b, int) for b in bs):
            v = 0
            for i, b in enumerate(bs):
                v |= b << (8 * i)
            return self.conv(v, ty)
        if any(b is UNDEF for b in bs):
            return UNDEF
        w = 8 * sz
        acc = None
        for i, b in enumerate(bs):
            n = inode(b, 8)
            z = mk("izext", (n,), w) if w > 8 else n
            if i:
                z = mk("ishl", (z, ic(8 * i, w)), w)
            acc = z if acc is None else mk("ior", (acc, z), w)
        return self.conv(acc, ty)

    def conv(self, v, ty):
        k = ty.kind
        if v is UNDEF:
            return v
        if k == "int":
            if isinstance(v, (int, Ptr, RawBits)):
                if isinstance(v, int) and ty.width < 64 and v >> ty.width:
                    return v & ((1 << ty.width) - 1)
                return v
            if isinstance(v, Node):
                if v.sort == "R":
                    if v.op == "rc" and v.val == 0:
                        return 0
                    return RawBits(v)
                if v.sort == "F":
                    return mk("f2bits", (v,), 64)
                if v.sort == "B":
                    return v if ty.width == 1 else mk("ite", (v, ic(1, ty.width), ic(0, ty.width)), ty.width)
                if ty.width == 1:
                    return bnot(icmp("eq", v, ic(0, v.sort), v.sort))
                if v.sort > ty.width:
                    return mk("itrunc", (v,), ty.width)
                return v
            return v
        if k in ("double", "float", "x86_fp80"):
            if isinstance(v, RawBits):
                return v.v
            if isinstance(v, int):
                if k == "double":
                    return self.fconst(struct.unpack("<d", struct.pack("<Q", v))[0])
                if v == 0:
                    return self.fconst(0.0)
                if k == "float":
                    return self.fconst(struct.unpack("<f", struct.pack("<I", v))[0])
                raise Unsupported("bits to fp80")
            if isinstance(v, Node):
                if v.sort in ("R", "F"):
                    return v
                if self.fp and v.sort == 64:
                    return mk("fbits", (v,), "F")
            raise Unsupported("reading %r as %s" % (v, k))
        if k == "ptr":
            if isinstance(v, Ptr):
                return v
            if v == 0:
                return NULL
            if isinstance(v, int):
                return v
            raise Unsupported("reading %r as pointer" % (v,))
        return v

    def padd(self, off, k):
        if isinstance(off, Node) or isinstance(k, Node):
            return iop("add", inode(off & M64 if isinstance(off, int) else off, 64), inode(k & M64 if isinstance(k, int) else k, 64), 64)
        return off + k

    def store(self, p, v, ty):
        k = ty.kind
        if k == "struct":
            if v is UNDEF:
                v = [UNDEF] * len(ty.elems)
            for x, e, o in zip(v, ty.elems, ty.offs):
                self.store(Ptr(p.obj, self.padd(p.off, o)), x, e)
            return
        if k in ("array", "vector"):
            e = ty.elems[0]
            if v is UNDEF:
                v = [UNDEF] * ty.n
            for i in range(ty.n):
                self.store(Ptr(p.obj, self.padd(p.off, i * e.size)), v[i], e)
            return
        sz = ty.store
        off = self.access(p, sz, "write")
        self.put(p.obj, off, sz, v)

    def put(self, o, off, sz, v):
        if o.kind == "const":
            raise Fail("memory-safety", "write to constant object %s" % o.name)
        if self.journals:
            self.touch(o)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != sz:
            # remove overlaps
            for s in range(off - 15, off + sz):
                c = cells.get(s)
                if c is not None and s + c[0] > off and s < off + sz:
                    if s >= off and s + c[0] <= off + sz:
                        del cells[s]
                    else:
                        self.split(o, s)
                        for q in range(s, s + c[0]):
                            if off <= q < off + sz:
                                cells.pop(q, None)
        if self.written is not None:
            self.written.add((o, off))
        cells[off] = (sz, v)

    def split(self, o, s):
        if self.journals:
            self.touch(o)
        sz, v = o.cells.pop(s)
        if isinstance(v, Node) and v.op == "rc" and v.val == 0:
            v = 0
        if isinstance(v, Ptr) and v.obj is None:
            v = 0
        if isinstance(v, int):
            for i in range(sz):
                o.cells[s + i] = (1, (v >> (8 * i)) & 255)
        elif v is UNDEF:
            pass
        elif isinstance(v, Node) and isinstance(v.sort, int):
            for i in range(sz):
                sh = mk("ilshr", (v, ic(8 * i, v.sort)), v.sort) if i else v
                o.cells[s + i] = (1, mk("itrunc", (sh,), 8))
        else:
            raise Unsupported("partial overwrite of a symbolic cell")

    def memcpy(self, d, s, n):
        if isinstance(n, Node):
            raise Unsupported("memcpy with symbolic size")
        if n == 0:
            return
        so = self.access(s, n, "read")
        do = self.access(d, n, "write")
        src = [(k, c) for k, c in s.obj.cells.items() if k < so + n and k + c[0] > so]
        for k, c in src:
            if k < so or k + c[0] > so + n:
                self.split(s.obj, k)
                src = [(k, c) for k, c in s.obj.cells.items() if k < so + n and k + c[0] > so]
                break
        # drop destination
        if self.journals:
            self.touch(d.obj)
        dst = d.obj.cells
        if d.obj.kind == "const":
            raise Fail("memory-safety", "write to constant object")
        for k in [k for k, c in dst.items() if k < do + n and k + c[0] > do]:
            c = dst[k]
            if k >= do and k + c[0] <= do + n:
                del dst[k]
            else:
                self.split(d.obj, k)
        for k in [k for k in dst if do <= k < do + n]:
            del dst[k]
        for k, c in src:
            if so <= k and k + c[0] <= so + n:
                dst[do + k - so] = c
                if self.written is not None:
                    self.written.add((d.obj, do + k - so))

    def memset(self, d, v, n):
        if isinstance(n, Node) or isinstance(v, Node):
            raise Unsupported("symbolic memset")
        if n == 0:
            return
        do = self.access(d, n, "write")
        b = v & 255
        i = 0
        while i < n:
            st = 8 if n - i >= 8 and (do + i) % 8 == 0 else 4 if n - i >= 4 and (do + i) % 4 == 0 else 1
            x = 0
            for _ in range(st):
                x = (x << 8) | b
            self.put(d.obj, do + i, st, x)
            i += st

    # ---------------------------------------------------------------- constants & globals
    def global_ptr(self, name):
        r = self.gobj.get(name)
        if r is not None:
            return r
        if name in self.mod.funcs:
            o = Obj(1, name, "func")
            r = Ptr(o, 0)
        elif name in self.mod.globals:
            h = self.mod.globals[name]
            L = self.mod.L
            ty = self.mod.ty(L.LLVMGlobalGetValueType(h))
            o = Obj(ty.size, name, "global")
            r = Ptr(o, 0)
            self.gobj[name] = r
            init = L.LLVMGetInitializer(h)
            if init:
                self.init_mem(o, 0, self.mod.const(init), ty)
            elif not name.startswith("_ZT"):
                o.kind = "extern"
                self.memset(r, 0, ty.size)
        else:
            raise Unsupported("global " + name)
        self.gobj[name] = r
        return r

    def init_mem(self, o, off, c, ty):
        t = c[0]
        if t == "agg":
            ty = c[1]
            if ty.kind == "struct":
                for e, et, eo in zip(c[2], ty.elems, ty.offs):
                    self.init_mem(o, off + eo, e, et)
            else:
                et = ty.elems[0]
                for i, e in enumerate(c[2]):
                    self.init_mem(o, off + i * et.size, e, et)
            return
        if t == "z":
            self.memset(Ptr(o, off), 0, c[1].size)
            return
        if t == "u":
            return
        self.put(o, off, ty.store, self.const(c))

    def const(self, c):
        t = c[0]
        if t == "k":
            return c[1]
        if t == "f":
            return self.fconst(c[1])
        if t == "null":
            return NULL
        if t == "g":
            return self.global_ptr(c[1])
        if t == "u":
            return self.undef(c[1])
        if t == "z":
            return self.zero(c[1])
        if t == "agg":
            return tuple(self.const(x) for x in c[2])
        if t == "xgep":
            base, off, dyn = c[1]
            p = self.const(base)
            return Ptr(p.obj, p.off + off)
        if t == "xop":
            if c[1] in ("bitcast", "addrspacecast", "ptrtoint", "inttoptr"):
                return self.const(c[3][0])
            if c[1] in ("add", "sub"):
                a, b = self.const(c[3][0]), self.const(c[3][1])
                return self.int_arith(c[1], a, b, c[2].width)
        if t in ("meta", "none"):
            return None
        if t == "asm":
            return c
        raise Unsupported("constant %r" % (c,))

    def undef(self, ty):
        if ty.kind == "struct":
            return tuple(self.undef(e) for e in ty.elems)
        if ty.kind in ("array", "vector"):
            return tuple(self.undef(ty.elems[0]) for _ in range(ty.n))
        return UNDEF

    def zero(self, ty):
        k = ty.kind
        if k == "int":
            return 0
        if k in ("double", "float", "x86_fp80"):
            return self.fconst(0.0)
        if k == "ptr":
            return NULL
        if k == "struct":
            return tuple(self.zero(e) for e in ty.elems)
        if k in ("array", "vector"):
            return tuple(self.zero(ty.elems[0]) for _ in range(ty.n))
        raise Unsupported("zero of " + k)

    # ---------------------------------------------------------------- ints
    def int_arith(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
                raise Fail("undefined-behaviour", "integer division by zero")
            r = int_eval(op, a, b, w)
            if r is None:
                raise Fail("undefined-behaviour", "shift amount %d >= width %d" % (b, w))
            return r
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b, w)
        if isinstance(a, RawBits) or isinstance(b, RawBits):
            raise Unsupported("integer arithmetic on double bits")
        if w == 1:
            A, B = self.asbool(a), self.asbool(b)
            if op == "and":
                return band(A, B)
            if op == "or":
                return bor(A, B)
            if op in ("xor", "add", "sub"):
                return bnot(band(bnot(band(A, bnot(B))), bnot(band(bnot(A), B))))
            raise Unsupported("i1 " + op)
        a, b = inode(a, w), inode(b, w)
        if op in ("udiv", "urem", "sdiv", "srem"):
            if b.op != "ic":
                if not self.oblige("divisor nonzero", bnot(icmp("eq", b, ic(0, w), w)), "undefined-behaviour"):
                    raise Stop()
            elif b.val == 0:
                raise Fail("undefined-behaviour", "integer division by zero")
        if op in ("shl", "lshr", "ashr"):
            if b.op != "ic":
                if not self.oblige("shift amount below width", icmp("ult", b, ic(w, w), w), "undefined-behaviour"):
                    raise Stop()
            elif b.val >= w:
                raise Fail("undefined-behaviour", "shift amount >= width")
        r = iop(op, a, b, w)
        return r.val if r.op == "ic" else r

    def asbool(self, x):
        if isinstance(x, Node):
            return x
        return TRUE if x else FALSE

    def ptr_arith(self, op, a, b, w):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int):
                    return (a.off - b.off) & M64
                return iop("sub", inode(a.off, 64), inode(b.off, 64), 64)
            raise Unsupported("difference of pointers to different objects")
        if op == "add":
            if isinstance(b, Ptr):
                a, b = b, a
            return Ptr(a.obj, self.padd(a.off, sx(b, 64) if isinstance(b, int) else b))
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, int):
            return Ptr(a.obj, self.padd(a.off, -sx(b, 64)))
        if op == "sub" and isinstance(b, Ptr) and b.obj is None and a == 0:
            return 0
        if op == "and" and isinstance(a, Ptr) and isinstance(b, int) and b < 16:
            return (a.off if isinstance(a.off, int) else 0) & b
        if isinstance(a, Ptr) and a.obj is None:
            return self.int_arith(op, 0, b, w)
        if isinstance(b, Ptr) and b.obj is None:
            return self.int_arith(op, a, 0, w)
        raise Unsupported("pointer arithmetic " + op)

    def icmp(self, pred, a, b, ty):
        if isinstance(a, int) and isinstance(b, int):
            return int(int_cmp(pred, a, b, ty.width or 64))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int):
                a = Ptr(None, a)
            if isinstance(b, int):
                b = Ptr(None, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is b.obj:
                    if isinstance(a.off, int) and isinstance(b.off, int):
                        return int(int_cmp(pred, a.off & M64, b.off & M64, 64))
                    return icmp(pred, inode(a.off, 64), inode(b.off, 64), 64)
                if pred == "eq":
                    return 0
                if pred == "ne":
                    return 1
                ka = id(a.obj) if a.obj is not None else 0
                kb = id(b.obj) if b.obj is not None else 0
                # order of distinct objects: fixed by allocation order
                la = self.heap.index(a.obj) if a.obj in self.heap else ka
                lb = self.heap.index(b.obj) if b.obj in self.heap else kb
                return int(int_cmp(pred, la & M64, lb & M64, 64))
            raise Unsupported("pointer comparison")
        if isinstance(a, RawBits) or isinstance(b, RawBits):
            if isinstance(a, RawBits) and isinstance(b, RawBits) and pred in ("eq", "ne") and a.v is b.v:
                return int(pred == "eq")
            raise Unsupported("comparison of double bits")
        w = ty.width
        if w == 1:
            A, B = self.asbool(a), self.asbool(b)
            x = bnot(band(bnot(band(A, bnot(B))), bnot(band(bnot(A), B))))
            if pred == "ne":
                return x
            if pred == "eq":
                return bnot(x)
            raise Unsupported("i1 icmp")
        return icmp(pred, inode(a, w), inode(b, w), w)

    def force_ites(self, v):
        """decide every condition a small integer term depends on"""
        for _ in range(20):
            if v.op == "ic":
                break
            c = [x for x in atoms_of([v]) if x.op == "ite"]
            if not c:
                break
            x = min(c, key=lambda n: n.id)
            v = subst(v, {x.id: x.args[1] if self.decide(x.args[0]) else x.args[2]})
        return v

    def on_reals(self, c):
        """a comparison of reals: decided like a branch, not kept as a value"""
        while c.op == "not":
            c = c.args[0]
        return not self.fp and not self.unb and c.op in ("rlt", "req")

    def cast(self, op, v, fr, to):
        if v is UNDEF:
            return v
        if op == "zext":
            if isinstance(v, int):
                return v
            if isinstance(v, (Ptr, RawBits)):
                return v
            if v.sort == "B":
                if to.width >= 32 and self.on_reals(v):
                    return 1 if self.decide(v) else 0
                return mk("ite", (v, ic(1, to.width), ic(0, to.width)), to.width)
            return mk("izext", (v,), to.width)
        if op == "sext":
            if isinstance(v, int):
                return sx(v, fr.width) & ((1 << to.width) - 1)
            if isinstance(v, Ptr):
                return v
            if v.sort == "B":
                return mk("ite", (v, ic(-1, to.width), ic(0, to.width)), to.width)
            return mk("isext", (v,), to.width)
        if op == "trunc":
            if isinstance(v, int):
                return v & ((1 << to.width) - 1)
            if isinstance(v, Ptr):
                raise Unsupported("truncated pointer")
            if isinstance(v, RawBits):
                raise Unsupported("truncated double bits")
            if to.width == 1:
                b = mk("iand", (v, ic(1, v.sort)), v.sort)
                if v.op == "ite" and v.args[1].op == "ic" and v.args[2].op == "ic":
                    return v.args[0] if (v.args[1].val & 1, v.args[2].val & 1) == (1, 0) else bnot(icmp("eq", b, ic(0, v.sort), v.sort))
                return bnot(icmp("eq", b, ic(0, v.sort), v.sort))
            if v.op in ("izext", "isext") and v.args[0].sort == to.width:
                return v.args[0]
            if v.op == "ite" and v.args[1].op == "ic" and v.args[2].op == "ic":
                return ite(v.args[0], ic(v.args[1].val, to.width), ic(v.args[2].val, to.width))
            if v.op in ("izext", "isext") and v.args[0].sort < to.width:
                return mk(v.op, (v.args[0],), to.width)
            return mk("itrunc", (v,), to.width)
        if op in ("ptrtoint", "inttoptr", "addrspacecast"):
            if op == "inttoptr" and v == 0 and isinstance(v, int):
                return NULL
            if op == "ptrtoint" and isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int):
                return v.off & M64
            return v
        if op == "bitcast":
            if fr.kind == "double" and to.kind == "int":
                if self.fp:
                    return mk("f2bits", (v,), 64)
                return RawBits(v)
            if fr.kind == "int" and to.kind in ("double", "float"):
                return self.conv(v, to)
            return v
        if op in ("fptrunc", "fpext"):
            if self.fp and not (fr.kind == "double" and to.kind == "double"):
                raise Unsupported(op + " in IEEE mode")
            if op == "fptrunc":
                self.assumptions.add("narrowing floating conversions treated as exact")
            return v
        if op in ("uitofp", "sitofp"):
            sg = op[0]
            if isinstance(v, int):
                x = sx(v, fr.width) if sg == "s" else v
                if self.fp:
                    return self.fconst(float(x))
                return rc(x)
            if v.sort == "B":
                v = mk("ite", (v, ic(1, 8) if sg == "u" else ic(-1, 8), ic(0, 8)), 8)
            if self.fp:
                return mk("i2f", (v,), "F", sg)
            if self.unb and self.fixed is None:
                L = self.ints.lin(v)
                if L is not None and (sg == "u" or self.ints.within(L, 0, (1 << (v.sort - 1)) - 1, self.ints.facts())):
                    return L.term()
            v = self.force_ites(v)
            if v.op == "ic":
                return self.cast(op, v.val, fr, to)
            # look through widenings
            while v.op == "izext" or (v.op == "isext" and sg == "s"):
                if v.op == "izext":
                    sg = "u"
                v = v.args[0]
            return mk("i2r", (v,), "R", sg)
        if op in ("fptosi", "fptoui"):
            w = to.width
            if self.fp:
                sg = op[4] == "s"
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1))) if sg else (0, 1 << w)
                if v.op == "fc":
                    d = T._flt(v)
                    if d != d or math.isinf(d) or not lo <= int(d) < hi:
                        raise Fail("undefined-behaviour", "conversion of %s to a %d-bit integer out of range" % (d, w))
                    return int(d) & ((1 << w) - 1)
                low = self.fcmp("ogt", v, T.fcn(float(lo - 1))) if float(lo - 1) != float(lo) else self.fcmp("oge", v, T.fcn(float(lo)))
                if not self.oblige("conversion to a %d-bit integer in range" % w, band(low, self.fcmp("olt", v, T.fcn(float(hi)))), "undefined-behaviour"):
                    raise Stop()
                return mk("f2i", (v,), w, op[4])
            if v.op == "rc":
                q = v.val
                n = abs(q.numerator) // q.denominator
                n = -n if q < 0 else n
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, (1 << w) - 1)
                if not lo <= n <= hi:
                    raise Fail("undefined-behaviour", "conversion of %s to a %d-bit integer out of range" % (q, w))
                return n & ((1 << w) - 1)
            if v.op == "special":
                raise Fail("undefined-behaviour", "conversion of %s to an integer" % v.val)
            d = const_num(v)
            if d is not None:
                n = int(d)
                if min(abs(d - n), abs(d - n - 1), abs(d - n + 1)) > 1e-30 and abs(n) < 1 << (w - 1):
                    return n & ((1 << w) - 1)
            if v.op == "i2r" and v.args[0].sort <= w:
                x = v.args[0]
                if x.sort == w:
                    return x
                return mk("izext" if v.val == "u" else "isext", (x,), w)
            if op == "fptosi":
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            else:
                lo, hi = 0, (1 << w) - 1
            n = self.pinned(v)
            if n is not None and lo <= n <= hi:
                return n & ((1 << w) - 1)
            if not self.oblige("conversion in range", band(rlt(rc(lo - 1), v), rlt(v, rc(hi + 1))), "undefined-behaviour"):
                raise Stop()
            return mk("r2i", (v,), w)
        raise Unsupported("cast " + op)

    def pinned(self, v):
        """the integer part of v if the path condition determines it, else None"""
        if self.solver.exact is not None:
            return None
        vs = [x for x in T.atoms_of([v]) if x.op == "rv" and x.val != "!pi"]
        n = None
        if len(vs) == 1:
            k = tm.affine(v, vs[0])
            L, U = tm.bounds(self.pc, vs[0]) if k is not None else (None, None)
            if L is not None and U is not None and k[0] != 0:
                a, b = sorted((k[0] * L + k[1], k[0] * U + k[1]))
                if b - a > 2:
                    return None
                n = math.trunc((a + b) / 2)
        if n is None:
            x = self.solver.witness(self.pc, v)
            if x is None or abs(x) > 1e6:
                return None
            n = math.trunc(x)
            for m in (round(x), n):
                try:
                    if self.solver.nf().is_zero(T.rsub(v, rc(m))):
                        return m
                except Exception:
                    pass
        low = rlt(v, rc(n)) if n > 0 else bnot(rlt(rc(n - 1), v))
        high = bnot(rlt(v, rc(n + 1))) if n >= 0 else rlt(rc(n), v)
        if len(vs) == 1:
            if not self.solver.feasible(self.pc, bor(low, high)):
                return n
        elif all(self.solver.prove(self.pc, bnot(c), 4000)[0] == "proved" for c in (low, high)):
            return n
        return None

    # ---------------------------------------------------------------- functions
    def call_function(self, name, args, F=None):
        F = F or self.mod.funcs.get(name)
        if F is None:
            raise Unsupported("call to unknown " + name)
        self.call_args = args
        s = BI.lookup(self, name)
        if s is not None:
            return s(self, args)
        if F.decl:
            raise Unsupported("call to external function %s" % name)
        if not F._loaded:
            self.mod.load_function(F)
        self.funcs_seen.add(name)
        if len(self.stack) > 900:
            raise Limit("call depth in %s" % name)
        fr = [F, None, [], args]
        self.stack.append(fr)
        try:
            return self.run_body(F, args, fr)
        except (Fail, Unsupported, Limit, Thrown) as e:
            if not hasattr(e, "at"):
                e.at = (self.where(), self.contract_line())
            raise
        finally:
            for o in fr[2]:
                o.alive = False
            self.stack.pop()

    def run_body(self, F, args, fr):
        regs = [None] * F.nregs
        for (i, _), a in zip(F.params, args):
            regs[i] = a
        return self.exec_from(F, regs, fr, 0, -1, None, None, False)

    def exec_from(self, F, regs, fr, cur, prev, region, force, skip):
        """region: stop at the head of this loop and at its exits; force: directions of exit branches; skip: the phis are already set"""
        blocks = F.blocks
        const = self.const
        loops = None
        if self.unb:
            if F.loops is None:
                F.loops = LP.natural_loops(F)
            loops = F.loops
        floop = None
        first = skip

        def val(o):
            if o[0] == "r":
                return regs[o[1]]
            return const(o)
        maxinst = self.opts["maxinst"]
        while True:
            B = blocks[cur]
            if region is not None and not first and (cur == region.header or cur not in region.blocks):
                return ("edge", prev, cur)
            skip = first
            first = False
            if loops is None and self.unb:
                if F.loops is None:
                    F.loops = LP.natural_loops(F)
                loops = F.loops
            if force and cur not in floop:
                force = None
            if loops and not skip and cur in loops and prev not in loops[cur] and self.fixed is None:
                try:
                    g = LP.summarise(self, F, regs, fr, cur, prev)
                except LP.NoSummary as e:
                    raise Unsupported("loop without a bound: %s" % e)
                if g is not None:
                    force, floop = g, loops[cur]
                    skip = True
            if B.phis and not skip:
                new = []
                for I in B.phis:
                    for b, o in I.ops:
                        if b == prev:
                            new.append((I.res, val(o)))
                            break
                for r, v in new:
                    regs[r] = v
            for I in B.insts:
                self.ninst += 1
                if self.ninst > maxinst:
                    raise Limit("instruction limit")
                if self.ninst % 20000 == 0 and self.opts["deadline"] and time.time() > self.opts["deadline"]:
                    raise Limit("time limit")
                fr[1] = I
                op = I.op
                if op == "load":
                    regs[I.res] = self.load(val(I.ops[0]), I.ty)
                elif op == "store":
                    self.store(val(I.ops[1]), val(I.ops[0]), I.x)
                elif op == "gep":
                    base, off, dyn = I.x
                    p = val(base)
                    if p is UNDEF:
                        regs[I.res] = UNDEF
                        continue
                    if isinstance(p, int):
                        p = Ptr(None, p)
                    for o, sc, w in dyn:
                        iv_ = val(o)
                        if isinstance(iv_, int):
                            if iv_ >> (w - 1):
                                iv_ -= 1 << w
                            off += iv_ * sc
                        elif iv_ is UNDEF:
                            raise Fail("uninitialised", "address computed from an uninitialised value")
                        else:
                            n = iv_ if w == 64 else mk("isext", (iv_,), 64)
                            off = self.padd(off, iop("mul", n, ic(sc, 64), 64))
                    regs[I.res] = Ptr(p.obj, self.padd(p.off, off)) if (off != 0 or isinstance(off, Node)) else p
                elif op == "br":
                    prev = cur
                    if I.ops:
                        c = val(I.ops[0])
                        if force and id(I) in force:
                            d = force[id(I)]
                            if isinstance(d, tuple):
                                d = d[0]
                                self.assume(c if d else bnot(c)) if isinstance(c, Node) else self.assume(bool(c) == d)
                            cur = I.x[0] if d else I.x[1]
                        elif region is not None and isinstance(c, Node) and c is not TRUE and c is not FALSE and (I.x[0] in region.blocks) != (I.x[1] in region.blocks):
                            s = I.x[0] in region.blocks
                            stay = c if s else bnot(c)
                            region.collect.append((I, stay))
                            if I is not region.main:
                                self.assume(stay)
                            cur = I.x[0] if s else I.x[1]
                        else:
                            cur = I.x[0] if self.decide(c) else I.x[1]
                    else:
                        cur = I.x[0]
                    break
                elif op == "call" or op == "invoke":
                    callee, argtys, nd, ud = I.x
                    try:
                        if callee[0] == "g":
                            nm = callee[1]
                            if nm.startswith("llvm.dbg") or nm.startswith("llvm.lifetime"):
                                continue
                            r = self.call_function(nm, [val(a) for a in I.ops])
                        elif callee[0] == "asm":
                            r = BI.asm(self, callee[1], callee[2], [val(a) for a in I.ops])
                        else:
                            p = val(callee)
                            if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != "func":
                                raise Fail("memory-safety", "indirect call through invalid pointer %r" % (p,))
                            r = self.call_function(p.obj.name, [val(a) for a in I.ops])
                    except Thrown as e:
                        if not hasattr(e, "at"):
                            e.at = (self.where(), self.contract_line())
                        lp = next((J for J in blocks[ud].insts if J.op == "landingpad"), None) if ud is not None else None
                        sel = None
                        if lp is not None:
                            sel = 0 if lp.x else None
                            for c in lp.ops:
                                if c[0] == "agg" or c[0] == "z":
                                    raise Unsupported("exception specification")
                                k = val(c)
                                if k.obj is None or BI.catches(self, k.obj.name, e):
                                    sel = BI.typeid(self, k.obj.name if k.obj is not None else "")
                                    break
                        if sel is None:
                            raise
                        self.flying = (e, sel)
                        fr[1] = I
                        prev = cur
                        cur = ud
                        break
                    regs[I.res] = r
                    fr[1] = I
                    if nd is not None:
                        prev = cur
                        cur = nd
                        break
                elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
                    a, b = val(I.ops[0]), val(I.ops[1])
                    if isinstance(a, tuple):
                        regs[I.res] = tuple(self.farith(op, x, y) for x, y in zip(a, b))
                    else:
                        regs[I.res] = self.farith(op, a, b)
                elif op == "fcmp":
                    regs[I.res] = self.fcmp(I.x[0], val(I.ops[0]), val(I.ops[1]))
                elif op == "icmp":
                    regs[I.res] = self.icmp(I.x[0], val(I.ops[0]), val(I.ops[1]), I.x[1])
                elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
                    regs[I.res] = self.int_arith(op, val(I.ops[0]), val(I.ops[1]), I.ty.width)
                elif op == "ret":
                    return val(I.ops[0]) if I.ops else None
                elif op == "alloca":
                    n = val(I.ops[0])
                    if isinstance(n, Node):
                        raise Unsupported("alloca of symbolic size")
                    o = Obj(I.x.size * n, "local@%s" % (I.line or "?"), "stack")
                    fr[2].append(o)
                    regs[I.res] = Ptr(o, 0)
                elif op == "select":
                    c = val(I.ops[0])
                    a, b = val(I.ops[1]), val(I.ops[2])
                    if isinstance(c, Node):
                        if I.ty.kind == "int" and I.ty.width > 8 and isinstance(a, int) and isinstance(b, int) and self.on_reals(c):
                            regs[I.res] = a if self.decide(c) else b
                        elif I.ty.kind == "int" and I.ty.width > 1 and isinstance(a, (int, Node)) and isinstance(b, (int, Node)):
                            regs[I.res] = ite(c, inode(a, I.ty.width), inode(b, I.ty.width))
                        else:
                            regs[I.res] = a if self.decide(c) else b
                    else:
                        regs[I.res] = a if self.decide(c) else b
                elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptosi", "fptoui", "sitofp", "uitofp",
                            "fptrunc", "fpext", "addrspacecast"):
                    regs[I.res] = self.cast(op, val(I.ops[0]), I.x, I.ty)
                elif op == "fneg":
                    regs[I.res] = self.fneg(val(I.ops[0]))
                elif op == "extractvalue":
                    v = val(I.ops[0])
                    for k in I.x:
                        v = v[k]
                    regs[I.res] = v
                elif op == "insertvalue":
                    regs[I.res] = self.insertv(val(I.ops[0]), val(I.ops[1]), I.x)
                elif op == "switch":
                    v = val(I.ops[0])
                    dest, cases, w = I.x
                    prev = cur
                    nxt = None
                    if isinstance(v, int):
                        for cv, b in cases:
                            if cv == v:
                                nxt = b
                                break
                    else:
                        for cv, b in cases:
                            if self.decide(self.icmp("eq", v, cv, _W(w))):
                                nxt = b
                                break
                    cur = dest if nxt is None else nxt
                    break
                elif op == "freeze":
                    regs[I.res] = val(I.ops[0])
                elif op == "extractelement":
                    regs[I.res] = val(I.ops[0])[val(I.ops[1])]
                elif op == "insertelement":
                    v = list(val(I.ops[0]))
                    v[val(I.ops[2])] = val(I.ops[1])
                    regs[I.res] = tuple(v)
                elif op == "unreachable":
                    raise Fail("unreachable", "control reaches an unreachable point (undefined behaviour)")
                elif op == "landingpad":
                    e, sel = self.flying
                    self.exns[e.obj.obj] = e
                    regs[I.res] = (e.obj, sel)
                elif op == "resume":
                    raise self.exns[val(I.ops[0])[0].obj]
                elif op == "fence":
                    pass
                elif op == "atomicrmw":
                    p = val(I.ops[0])
                    old = self.load(p, I.ty)
                    v = val(I.ops[1])
                    o2 = {0: v, 1: self.int_arith("add", old, v, I.ty.width), 2: self.int_arith("sub", old, v, I.ty.width)}.get(I.x)
                    if o2 is None:
                        raise Unsupported("atomicrmw")
                    self.store(p, o2, I.ty)
                    regs[I.res] = old
                else:
                    raise Unsupported("instruction " + op)

    def insertv(self, agg, v, idx):
        a = list(agg)
        if len(idx) == 1:
            a[idx[0]] = v
        else:
            a[idx[0]] = self.insertv(a[idx[0]], v, idx[1:])
        return tuple(a)


class _W:
    __slots__ = ("width",)

    def __init__(self, w):
        self.width = w
