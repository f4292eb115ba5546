"""Loader: LLVM bitcode -> plain Python structures, through the LLVM-C API (ctypes).

Only reads what clang emitted for the real code; nothing is rewritten here."""
import ctypes as C

_LIBS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so", "libLLVM-18.so"]
_L = None


def lib():
    global _L
    if _L is None:
        for p in _LIBS:
            try:
                _L = C.CDLL(p)
                break
            except OSError:
                pass
        if _L is None:
            raise RuntimeError("libLLVM-18 not found")
        P = C.c_void_p
        sig = {
            "LLVMContextCreate": (P, []),
            "LLVMCreateMemoryBufferWithContentsOfFile": (C.c_int, [C.c_char_p, P, P]),
            "LLVMParseIRInContext": (C.c_int, [P, P, P, P]),
            "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
            "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
            "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
            "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
            "LLVMGetInstructionOpcode": (C.c_int, [P]),
            "LLVMGetNumOperands": (C.c_int, [P]), "LLVMGetOperand": (P, [P, C.c_uint]),
            "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (C.c_int, [P]),
            "LLVMGetIntTypeWidth": (C.c_uint, [P]),
            "LLVMConstIntGetZExtValue": (C.c_uint64, [P]),
            "LLVMConstRealGetDouble": (C.c_double, [P, P]),
            "LLVMGetValueKind": (C.c_int, [P]),
            "LLVMGetICmpPredicate": (C.c_int, [P]), "LLVMGetFCmpPredicate": (C.c_int, [P]),
            "LLVMCountIncoming": (C.c_uint, [P]), "LLVMGetIncomingValue": (P, [P, C.c_uint]),
            "LLVMGetIncomingBlock": (P, [P, C.c_uint]),
            "LLVMGetNumSuccessors": (C.c_uint, [P]), "LLVMGetSuccessor": (P, [P, C.c_uint]),
            "LLVMIsConditional": (C.c_int, [P]), "LLVMGetCondition": (P, [P]),
            "LLVMGetNumArgOperands": (C.c_uint, [P]), "LLVMGetCalledValue": (P, [P]),
            "LLVMGetNumIndices": (C.c_uint, [P]), "LLVMGetIndices": (C.POINTER(C.c_uint), [P]),
            "LLVMGetConstOpcode": (C.c_int, [P]), "LLVMGetGEPSourceElementType": (P, [P]),
            "LLVMGetAllocatedType": (P, [P]), "LLVMGetElementType": (P, [P]),
            "LLVMGetInlineAsmAsmString": (P, [P, P]),
            "LLVMGetInlineAsmConstraintString": (P, [P, P]),
            "LLVMGetModuleDataLayout": (P, [P]), "LLVMABISizeOfType": (C.c_uint64, [P, P]),
            "LLVMStoreSizeOfType": (C.c_uint64, [P, P]),
            "LLVMOffsetOfElement": (C.c_uint64, [P, P, C.c_uint]),
            "LLVMCountStructElementTypes": (C.c_uint, [P]),
            "LLVMStructGetTypeAtIndex": (P, [P, C.c_uint]),
            "LLVMGetArrayLength2": (C.c_uint64, [P]), "LLVMGetVectorSize": (C.c_uint, [P]),
            "LLVMGetValueName2": (P, [P, P]), "LLVMIsDeclaration": (C.c_int, [P]),
            "LLVMGetInitializer": (P, [P]), "LLVMGlobalGetValueType": (P, [P]),
            "LLVMGetAsString": (P, [P, P]), "LLVMIsConstantString": (C.c_int, [P]),
            "LLVMGetElementAsConstant": (P, [P, C.c_uint]),
            "LLVMGetAggregateElement": (P, [P, C.c_uint]),
            "LLVMGetDebugLocLine": (C.c_uint, [P]), "LLVMGetDebugLocFilename": (P, [P, P]),
            "LLVMGetFirstParam": (P, [P]), "LLVMGetNextParam": (P, [P]),
            "LLVMPrintValueToString": (P, [P]), "LLVMPrintTypeToString": (P, [P]),
            "LLVMGetNSW": (C.c_int, [P]),
            "LLVMGetReturnType": (P, [P]), "LLVMGetCalledFunctionType": (P, [P]),
            "LLVMGetCmpXchgSuccessOrdering": (C.c_int, [P]),
            "LLVMAliasGetAliasee": (P, [P]), "LLVMGetFirstGlobalAlias": (P, [P]),
            "LLVMGetNextGlobalAlias": (P, [P]),
            "LLVMGetNormalDest": (P, [P]), "LLVMGetUnwindDest": (P, [P]), "LLVMGetNumClauses": (C.c_uint, [P]),
            "LLVMGetClause": (P, [P, C.c_uint]), "LLVMIsCleanup": (C.c_int, [P]), "LLVMGetAtomicRMWBinOp": (C.c_int, [P]),
        }
        for n, (r, a) in sig.items():
            f = getattr(_L, n)
            f.restype = r
            f.argtypes = a
    return _L


# LLVMOpcode numbers (llvm-c/Core.h)
OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable",
       66: "fneg", 8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul",
       14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext",
       33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext",
       39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp",
       44: "phi", 45: "call", 46: "select", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 61: "cleanupret"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule",
        38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord",
        8: "uno", 9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# type kinds
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 7: "label", 8: "int",
      9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 16: "token", 14: "metadata"}


class Ty:
    __slots__ = ("kind", "width", "elems", "offs", "n", "size", "store", "_h")

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.width
        if self.kind in ("array", "vector"):
            return "[%d x %r]" % (self.n, self.elems[0])
        if self.kind == "struct":
            return "{%s}" % ",".join(map(repr, self.elems))
        return self.kind


class Inst:
    __slots__ = ("op", "res", "ty", "ops", "x", "line", "file")

    def __repr__(self):
        return "%%%s=%s %r %r" % (self.res, self.op, self.ops, self.x)


class Block:
    __slots__ = ("id", "phis", "insts", "name")


class Function:
    __slots__ = ("name", "h", "mod", "params", "blocks", "entry", "decl", "_loaded", "retty", "nregs", "loops")


# operand encodings: ('r', id) local; ('k', python const value); ('g', name); ('u',) undef; ('x', ...) constexpr
class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        self.ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read %s: %s" % (path, msg.value))
        mod = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError("parse: %s" % msg.value)
        self.m = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            F = Function()
            F.name = self.vname(f)
            F.h = f
            F.mod = self
            F.decl = bool(L.LLVMIsDeclaration(f))
            F._loaded = False
            F.loops = None
            self.funcs[F.name] = F
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            self.globals[self.vname(g)] = g
            g = L.LLVMGetNextGlobal(g)
        g = L.LLVMGetFirstGlobalAlias(mod)
        while g:
            self.aliases[self.vname(g)] = self.vname(L.LLVMAliasGetAliasee(g))
            g = L.LLVMGetNextGlobalAlias(g)

    def vname(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def ty(self, h):
        t = self.types.get(h)
        if t is not None:
            return t
        L = self.L
        t = Ty()
        t._h = h
        k = TK.get(L.LLVMGetTypeKind(h), "other")
        t.kind = k
        t.width = t.elems = t.offs = t.n = None
        t.size = t.store = 0
        self.types[h] = t
        if k == "int":
            t.width = L.LLVMGetIntTypeWidth(h)
        if k == "struct":
            n = L.LLVMCountStructElementTypes(h)
            t.elems = [self.ty(L.LLVMStructGetTypeAtIndex(h, i)) for i in range(n)]
            try:
                t.offs = [L.LLVMOffsetOfElement(self.dl, h, i) for i in range(n)]
            except Exception:
                t.offs = None
        elif k == "array":
            t.n = L.LLVMGetArrayLength2(h)
            t.elems = [self.ty(L.LLVMGetElementType(h))]
        elif k == "vector":
            t.n = L.LLVMGetVectorSize(h)
            t.elems = [self.ty(L.LLVMGetElementType(h))]
        if k in ("int", "struct", "array", "ptr", "double", "float", "vector", "x86_fp80"):
            t.size = L.LLVMABISizeOfType(self.dl, h)
            t.store = L.LLVMStoreSizeOfType(self.dl, h)
        return t

    def const(self, v):
        """constant -> operand encoding"""
        L = self.L
        k = L.LLVMGetValueKind(v)
        # kinds: 0 Argument,1 BB,5 Function,6 GlobalAlias,8 GlobalVariable,9 BlockAddress,10 ConstantExpr
        # 11 ConstantArray,12 ConstantStruct,13 ConstantVector,14 Undef,15 CAggregateZero,16 CDataArray
        # 17 CDataVector,18 CInt,19 CFP,20 CPointerNull,21 CTokenNone,22 MetadataAsValue,23 InlineAsm,24 Inst,25 Poison
        if k == 18:
            t = self.ty(L.LLVMTypeOf(v))
            if t.width <= 64:
                return ("k", L.LLVMConstIntGetZExtValue(v))
            s = C.string_at(L.LLVMPrintValueToString(v)).decode()
            n = int(s.split()[-1]) if s.split()[-1] not in ("true", "false") else int(s.split()[-1] == "true")
            return ("k", n & ((1 << t.width) - 1))
        if k == 19:
            t = self.ty(L.LLVMTypeOf(v))
            lost = C.c_int()
            return ("f", L.LLVMConstRealGetDouble(v, C.byref(lost)))
        if k == 20:
            return ("null",)
        if k in (14, 25):
            return ("u", self.ty(L.LLVMTypeOf(v)))
        if k == 5:
            return ("g", self.vname(v))
        if k == 6:
            return ("g", self.aliases.get(self.vname(v), self.vname(v)))
        if k == 8:
            return ("g", self.vname(v))
        if k == 15:
            return ("z", self.ty(L.LLVMTypeOf(v)))
        if k in (11, 12, 13):
            t = self.ty(L.LLVMTypeOf(v))
            n = t.n if t.kind in ("array", "vector") else len(t.elems)
            return ("agg", t, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        if k in (16, 17):
            t = self.ty(L.LLVMTypeOf(v))
            return ("agg", t, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(t.n)])
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == "gep":
                return ("xgep", self.gep(v))
            n = L.LLVMGetNumOperands(v)
            return ("xop", op, self.ty(L.LLVMTypeOf(v)), [self.const(L.LLVMGetOperand(v, i)) for i in range(n)])
        if k == 23:
            n = C.c_size_t()
            q = L.LLVMGetInlineAsmAsmString(v, C.byref(n))
            s = C.string_at(q, n.value).decode()
            q = L.LLVMGetInlineAsmConstraintString(v, C.byref(n))
            c = C.string_at(q, n.value).decode()
            return ("asm", s, c)
        if k == 22:
            return ("meta",)
        if k == 21:
            return ("none",)
        raise NotImplementedError("const kind %d" % k)

    def gep(self, v, opf=None):
        """-> (base operand, const offset, [(operand, scale, width)])"""
        L = self.L
        opf = opf or self.const
        n = L.LLVMGetNumOperands(v)
        t = self.ty(L.LLVMGetGEPSourceElementType(v))
        base = opf(L.LLVMGetOperand(v, 0))
        off = 0
        dyn = []
        cur = t
        for i in range(1, n):
            o = L.LLVMGetOperand(v, i)
            w = self.ty(L.LLVMTypeOf(o)).width
            e = opf(o)
            if i == 1:
                sc = cur.size
                nxt = cur
            elif cur.kind == "struct":
                off += cur.offs[e[1]]
                cur = cur.elems[e[1]]
                continue
            else:
                nxt = cur.elems[0]
                sc = nxt.size
            if e[0] == "k":
                iv = e[1]
                if iv >> (w - 1):
                    iv -= 1 << w
                off += iv * sc
            else:
                dyn.append((e, sc, w))
            cur = nxt
        return (base, off, dyn)

    def load_function(self, F):
        if F._loaded:
            return F
        L = self.L
        F._loaded = True
        ids = {}
        cnt = 0
        F.params = []
        p = L.LLVMGetFirstParam(F.h)
        while p:
            ids[p] = cnt
            F.params.append((cnt, self.ty(L.LLVMTypeOf(p))))
            cnt += 1
            p = L.LLVMGetNextParam(p)
        bbs = []
        b = L.LLVMGetFirstBasicBlock(F.h)
        bid = {}
        while b:
            bid[b] = len(bbs)
            bbs.append(b)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ids[i] = cnt
                cnt += 1
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        F.nregs = cnt

        def opf(v):
            r = ids.get(v)
            if r is not None:
                return ("r", r)
            return self.const(v)
        F.blocks = []
        for b in bbs:
            B = Block()
            B.id = bid[b]
            B.phis = []
            B.insts = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Inst()
                I.op = op = OPC.get(L.LLVMGetInstructionOpcode(i), "?%d" % L.LLVMGetInstructionOpcode(i))
                I.res = ids[i]
                I.ty = self.ty(L.LLVMTypeOf(i))
                I.x = None
                I.line = L.LLVMGetDebugLocLine(i)
                n = C.c_uint()
                fp = L.LLVMGetDebugLocFilename(i, C.byref(n))
                I.file = C.string_at(fp, n.value).decode() if fp else None
                if op == "phi":
                    I.ops = [(bid[L.LLVMGetIncomingBlock(i, k)], opf(L.LLVMGetIncomingValue(i, k)))
                             for k in range(L.LLVMCountIncoming(i))]
                    B.phis.append(I)
                    i = L.LLVMGetNextInstruction(i)
                    continue
                if op == "br":
                    I.x = [bid[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
                    I.ops = [opf(L.LLVMGetCondition(i))] if L.LLVMIsConditional(i) else []
                elif op == "switch":
                    no = L.LLVMGetNumOperands(i)
                    I.ops = [opf(L.LLVMGetOperand(i, 0))]
                    dest = bid[L.LLVMGetSuccessor(i, 0)]
                    w = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))).width
                    cases = []
                    for k in range(2, no, 2):
                        cases.append((opf(L.LLVMGetOperand(i, k))[1], bid[L.LLVMGetSuccessor(i, k // 2)]))
                    I.x = (dest, cases, w)
                elif op in ("call", "invoke"):
                    na = L.LLVMGetNumArgOperands(i)
                    args = [opf(L.LLVMGetOperand(i, k)) for k in range(na)]
                    argtys = [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, k))) for k in range(na)]
                    callee = opf(L.LLVMGetCalledValue(i))
                    I.ops = args
                    I.x = (callee, argtys, bid[L.LLVMGetNormalDest(i)] if op == "invoke" else None,
                           bid[L.LLVMGetUnwindDest(i)] if op == "invoke" else None)
                elif op == "gep":
                    I.x = self.gep(i, opf)
                    I.ops = []
                elif op == "alloca":
                    I.x = self.ty(L.LLVMGetAllocatedType(i))
                    I.ops = [opf(L.LLVMGetOperand(i, 0))]
                else:
                    no = L.LLVMGetNumOperands(i)
                    I.ops = [opf(L.LLVMGetOperand(i, k)) for k in range(no)] if op not in ("landingpad", "cleanupret") else []
                    if op == "landingpad":
                        I.ops = [opf(L.LLVMGetClause(i, k)) for k in range(L.LLVMGetNumClauses(i))]
                        I.x = bool(L.LLVMIsCleanup(i))
                    if op == "icmp":
                        I.x = (ICMP[L.LLVMGetICmpPredicate(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif op == "fcmp":
                        I.x = (FCMP[L.LLVMGetFCmpPredicate(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif op in ("extractvalue", "insertvalue"):
                        ni = L.LLVMGetNumIndices(i)
                        pi = L.LLVMGetIndices(i)
                        I.x = [pi[k] for k in range(ni)]
                    elif op == "store":
                        I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    elif op in ("add", "sub", "mul", "shl"):
                        I.x = bool(L.LLVMGetNSW(i))
                    elif op in ("trunc", "zext", "sext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint",
                                "inttoptr", "bitcast", "fptrunc", "fpext"):
                        I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    elif op == "atomicrmw":
                        I.x = L.LLVMGetAtomicRMWBinOp(i)
                B.insts.append(I)
                i = L.LLVMGetNextInstruction(i)
            F.blocks.append(B)
        return F
