"""Reads LLVM bitcode through the LLVM C API and turns it into plain Python data."""
import ctypes as C
import re

_lib = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(_lib, name)
    f.restype = res
    f.argtypes = list(args)
    return f


CreateBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
ContextCreate = _f("LLVMContextCreate", P)
FirstFunction = _f("LLVMGetFirstFunction", P, P)
NextFunction = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetValueName2 = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInstr = _f("LLVMGetFirstInstruction", P, P)
NextInstr = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOperands = _f("LLVMGetNumOperands", C.c_int, P)
Operand = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
GEPSource = _f("LLVMGetGEPSourceElementType", P, P)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
NumSuccessors = _f("LLVMGetNumSuccessors", C.c_uint, P)
Successor = _f("LLVMGetSuccessor", P, P, C.c_uint)
IsConditional = _f("LLVMIsConditional", C.c_int, P)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOperands = _f("LLVMGetNumArgOperands", C.c_uint, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
NumIndices = _f("LLVMGetNumIndices", C.c_uint, P)
Indices = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
NormalDest = _f("LLVMGetNormalDest", P, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
GetLinkage = _f("LLVMGetLinkage", C.c_int, P)
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
SizeOfABI = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
CountStruct = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructAt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
ElementType = _f("LLVMGetElementType", P, P)
ArrayLength = _f("LLVMGetArrayLength2", C.c_uint64, P)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
ConstZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
PrintValue = _f("LLVMPrintValueToString", C.c_void_p, P)
AggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
IsNull = _f("LLVMIsNull", C.c_int, P)
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
IsAtomicSingle = _f("LLVMGetOrdering", C.c_int, P)
IsThreadLocal = _f("LLVMIsThreadLocal", C.c_int, P)

# type kinds
TVOID, TFLOAT, TDOUBLE = 0, 2, 3
TINT, TSTRUCT, TARRAY, TPTR, TVEC = 8, 10, 11, 12, 13

GetWeak = _f("LLVMGetWeak", C.c_int, P)
OPN = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable",
       66: "fneg", 8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv",
       15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi",
       35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 49: "va_arg", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 61: "cleanupret",
       62: "catchret", 63: "catchpad", 64: "cleanuppad", 65: "catchswitch"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge",
        40: "slt", 41: "sle"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min",
       9: "umax", 10: "umin"}


class Ty:
    """kind: int/ptr/void/fp/struct/array; size in bytes; width in bits for ints."""
    __slots__ = ("kind", "width", "size", "elems", "offs", "elem", "n")

    def __init__(self, kind, width=0, size=0):
        self.kind, self.width, self.size = kind, width, size
        self.elems = self.offs = self.elem = None
        self.n = 0

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.width
        if self.kind == "struct":
            return "{%s}" % ",".join(map(repr, self.elems))
        if self.kind == "array":
            return "[%d x %r]" % (self.n, self.elem)
        return self.kind


class Instr:
    __slots__ = ("op", "res", "ty", "a", "x", "fn")

    def __init__(self, op, res, ty, a, x):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x


class Func:
    __slots__ = ("name", "mod", "params", "ptypes", "blocks", "order", "ptr", "built", "decl", "info", "rty")


class Global:
    __slots__ = ("name", "mod", "const", "ty", "init", "ptr")


class Module:
    def __init__(self, path, ctx):
        self.path = path
        buf, msg, m = P(), C.c_char_p(), P()
        if CreateBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read %s: %s" % (path, msg.value))
        if ParseIR(ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError("cannot parse %s: %s" % (path, msg.value))
        self.m = m
        self.dl = DataLayout(m)
        self.tys = {}
        self.funcs, self.globals, self.aliases = {}, {}, {}
        self.gname = {}
        f = FirstFunction(m)
        while f:
            fn = Func()
            fn.name, fn.mod, fn.ptr, fn.built = self.vname(f), self, f, False
            fn.decl = bool(IsDeclaration(f))
            fn.info = None
            self.funcs[fn.name] = fn
            self.gname[f] = fn.name
            f = NextFunction(f)
        g = FirstGlobal(m)
        while g:
            gl = Global()
            gl.name, gl.mod, gl.ptr = self.vname(g), self, g
            gl.const = bool(IsGlobalConstant(g))
            gl.ty = GlobalValueType(g)
            gl.init = None if IsDeclaration(g) else GetInitializer(g)
            self.globals[gl.name] = gl
            self.gname[g] = gl.name
            g = NextGlobal(g)
        a = FirstAlias(m)
        while a:
            t = AliasGetAliasee(a)
            self.aliases[self.vname(a)] = self.vname(t)
            self.gname[a] = self.vname(a)
            a = NextAlias(a)

    @staticmethod
    def vname(v):
        n = C.c_size_t()
        p = GetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def ty(self, t):
        r = self.tys.get(t)
        if r is not None:
            return r
        k = TypeKind(t)
        if k == TINT:
            w = IntWidth(t)
            r = Ty("int", w, (w + 7) // 8)
        elif k == TPTR:
            r = Ty("ptr", 64, 8)
        elif k == TVOID:
            r = Ty("void")
        elif k in (TFLOAT, TDOUBLE):
            r = Ty("fp", 64 if k == TDOUBLE else 32, 8 if k == TDOUBLE else 4)
        elif k == TSTRUCT:
            r = Ty("struct")
            n = CountStruct(t)
            r.elems = [self.ty(StructAt(t, i)) for i in range(n)]
            try:
                r.offs = [OffsetOfElement(self.dl, t, i) for i in range(n)]
                r.size = SizeOfABI(self.dl, t)
            except Exception:
                r.offs = []
        elif k == TARRAY:
            r = Ty("array")
            r.n = ArrayLength(t)
            r.elem = self.ty(ElementType(t))
            r.size = r.n * self._abisize(ElementType(t))
        else:
            r = Ty("other%d" % k)
        self.tys[t] = r
        return r

    def _abisize(self, t):
        return SizeOfABI(self.dl, t)

    def const(self, v):
        """constant operand -> tuple"""
        k = ValueKind(v)
        t = self.ty(TypeOf(v))
        if k in (5, 6, 7, 8) or v in self.gname:      # function/alias/ifunc/global
            return ("g", self.gname.get(v) or self.vname(v))
        if t.kind == "int" and k == 18:
            if t.width <= 64:
                return ("i", ConstZExt(v), t.width)
            s = C.string_at(PrintValue(v)).decode().split()[-1]
            return ("i", int(s) & ((1 << t.width) - 1), t.width)
        if k in (14, 25):
            return ("undef", t)
        if IsNull(v):
            return ("zero", t)
        if k == 10:            # constant expr
            op = OPN[ConstOpcode(v)]
            if op == "getelementptr":
                src = self.ty(GEPSource(v))
                return ("cgep", src, [self.const(Operand(v, i)) for i in range(NumOperands(v))])
            return ("cexpr", op, t, [self.const(Operand(v, i)) for i in range(NumOperands(v))])
        if t.kind == "fp":
            s = C.string_at(PrintValue(v)).decode().split()[-1]
            return ("fp", s, t.width)
        if t.kind in ("struct", "array"):
            n = len(t.elems) if t.kind == "struct" else t.n
            return ("agg", t, [self.const(AggElem(v, i)) for i in range(n)])
        return ("other", C.string_at(PrintValue(v)).decode()[:60])

    def build(self, fn):
        if fn.built:
            return fn
        fn.built = True
        regs = {}
        fn.params, fn.ptypes = [], []
        for i in range(CountParams(fn.ptr)):
            p = GetParam(fn.ptr, i)
            regs[p] = "a%d" % i
            fn.params.append("a%d" % i)
            fn.ptypes.append(self.ty(TypeOf(p)))
        bbs = {}
        b = FirstBB(fn.ptr)
        order = []
        while b:
            bbs[b] = len(order)
            order.append(b)
            b = NextBB(b)
        n = 0
        raw = []
        for b in order:
            i = FirstInstr(b)
            lst = []
            while i:
                regs[i] = "r%d" % n
                n += 1
                lst.append(i)
                i = NextInstr(i)
            raw.append(lst)

        def opnd(v):
            r = regs.get(v)
            if r is not None:
                return ("r", r)
            return self.const(v)
        # basic block references as values: LLVMBasicBlockAsValue pointers
        asval = _f("LLVMBasicBlockAsValue", P, P)
        bbv = {asval(b): bbs[b] for b in order}
        blocks = []
        for lst in raw:
            out = []
            for i in lst:
                op = OPN.get(Opcode(i), "op%d" % Opcode(i))
                t = self.ty(TypeOf(i))
                x = None
                if op == "phi":
                    a = [(opnd(IncomingValue(i, j)), bbs[IncomingBlock(i, j)]) for j in range(CountIncoming(i))]
                elif op in ("call", "invoke"):
                    na = NumArgOperands(i)
                    a = [opnd(Operand(i, j)) for j in range(na)]
                    fnv = CalledValue(i)
                    x = [opnd(fnv) if ValueKind(fnv) != 23 else ("asm",)]
                    at = [self.ty(TypeOf(Operand(i, j))) if not self._meta(Operand(i, j)) else None for j in range(na)]
                    x.append(at)
                    if op == "invoke":
                        x.append(bbs[NormalDest(i)])
                elif op == "br":
                    if IsConditional(i):
                        a = [opnd(Operand(i, 0))]
                    else:
                        a = []
                    x = [bbs[Successor(i, j)] for j in range(NumSuccessors(i))]
                elif op == "switch":
                    a = [opnd(Operand(i, 0))]
                    no = NumOperands(i)
                    x = (bbv[Operand(i, 1)], [(self.const(Operand(i, j)), bbv[Operand(i, j + 1)]) for j in range(2, no, 2)],
                         self.ty(TypeOf(Operand(i, 0))))
                elif op == "alloca":
                    a = []
                    x = self.ty(AllocatedType(i))
                elif op == "getelementptr":
                    a = [opnd(Operand(i, j)) for j in range(NumOperands(i))]
                    x = (self.ty(GEPSource(i)), [self.ty(TypeOf(Operand(i, j))) for j in range(1, NumOperands(i))])
                elif op == "icmp":
                    a = [opnd(Operand(i, 0)), opnd(Operand(i, 1))]
                    x = (ICMP[ICmpPred(i)], self.ty(TypeOf(Operand(i, 0))))
                elif op == "fcmp":
                    a = [opnd(Operand(i, 0)), opnd(Operand(i, 1))]
                    x = FCmpPred(i)
                elif op == "atomicrmw":
                    a = [opnd(Operand(i, 0)), opnd(Operand(i, 1))]
                    x = RMW.get(RMWOp(i), "?")
                elif op in ("extractvalue", "insertvalue"):
                    a = [opnd(Operand(i, j)) for j in range(NumOperands(i))]
                    idx = Indices(i)
                    x = ([idx[j] for j in range(NumIndices(i))], self.ty(TypeOf(Operand(i, 0))))
                elif op in ("landingpad", "resume", "unreachable", "fence", "cleanupret"):
                    a = []
                else:
                    a = [opnd(Operand(i, j)) for j in range(NumOperands(i))]
                    if a:
                        x = self.ty(TypeOf(Operand(i, 0)))
                    if op in ("load", "store", "cmpxchg"):
                        at = IsAtomicSingle(i) if op != "cmpxchg" else 1
                        x = (self.ty(TypeOf(Operand(i, 0))), at != 0, op == "cmpxchg" and bool(GetWeak(i)))
                out.append(Instr(op, regs[i], t, a, x))
            blocks.append(out)
        fn.blocks = blocks
        return fn

    @staticmethod
    def _meta(v):
        return TypeKind(TypeOf(v)) in (9, 14, 15, 16) and False


class Program:
    """Several modules looked at as one program (symbols resolved by name)."""

    def __init__(self, paths):
        self.ctx = ContextCreate()
        self.mods = [Module(p, self.ctx) for p in paths]
        self.defs = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                if not f.decl and n not in self.defs:
                    self.defs[n] = f
        self.gdefs = {}
        for m in self.mods:
            for n, g in m.globals.items():
                if g.init is not None and n not in self.gdefs:
                    self.gdefs[n] = g

    def func(self, name, mod=None):
        if mod is not None:
            if name in mod.aliases:
                name = mod.aliases[name]
            f = mod.funcs.get(name)
            if f is not None and not f.decl:
                return f.mod.build(f)
        f = self.defs.get(name)
        if f is None:
            for m in self.mods:
                if name in m.aliases:
                    return self.func(m.aliases[name], m)
            return None
        return f.mod.build(f)
