"""Loads an LLVM module through the LLVM-C API of libLLVM-18 and mirrors it
into plain python objects (functions, blocks, instructions, constants)."""
import ctypes as C
import ctypes.util
import os

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
          "/usr/lib/llvm-18/lib/libLLVM-18.1.3.so", "libLLVM-18.so"]
_lib = None
for _c in _CANDS:
    try:
        _lib = C.CDLL(_c)
        break
    except OSError:
        continue
if _lib is None:
    raise RuntimeError("libLLVM-18 not found")
L = _lib
P = C.c_void_p


def _sig(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


_sig("LLVMContextCreate", P)
_sig("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
_sig("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
for n in ["LLVMGetFirstFunction", "LLVMGetFirstGlobal", "LLVMGetModuleDataLayout"]:
    _sig(n, P, P)
for n in ["LLVMGetNextFunction", "LLVMGetNextGlobal", "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock",
          "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGetInitializer",
          "LLVMGlobalGetValueType", "LLVMGetFirstParam", "LLVMGetNextParam", "LLVMGetCalledFunctionType",
          "LLVMGetReturnType", "LLVMGetElementType", "LLVMGetGEPSourceElementType", "LLVMGetAllocatedType",
          "LLVMGetNormalDest", "LLVMGetUnwindDest", "LLVMGetCalledValue", "LLVMGetBasicBlockParent",
          "LLVMAliasGetAliasee", "LLVMGetSwitchDefaultDest"]:
    _sig(n, P, P)
_sig("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
_sig("LLVMGetInstructionOpcode", C.c_int, P)
_sig("LLVMGetNumOperands", C.c_int, P)
_sig("LLVMGetOperand", P, P, C.c_uint)
_sig("LLVMGetTypeKind", C.c_int, P)
_sig("LLVMGetIntTypeWidth", C.c_uint, P)
_sig("LLVMGetICmpPredicate", C.c_int, P)
_sig("LLVMGetFCmpPredicate", C.c_int, P)
_sig("LLVMGetValueKind", C.c_int, P)
_sig("LLVMCountParams", C.c_uint, P)
_sig("LLVMIsDeclaration", C.c_int, P)
_sig("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
_sig("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
_sig("LLVMPrintValueToString", C.c_void_p, P)
_sig("LLVMDisposeMessage", None, C.c_void_p)
_sig("LLVMCountIncoming", C.c_uint, P)
_sig("LLVMGetIncomingValue", P, P, C.c_uint)
_sig("LLVMGetIncomingBlock", P, P, C.c_uint)
_sig("LLVMGetNumSuccessors", C.c_uint, P)
_sig("LLVMGetSuccessor", P, P, C.c_uint)
_sig("LLVMIsConditional", C.c_int, P)
_sig("LLVMGetCondition", P, P)
_sig("LLVMGetNumIndices", C.c_uint, P)
_sig("LLVMGetIndices", C.POINTER(C.c_uint), P)
_sig("LLVMABISizeOfType", C.c_ulonglong, P, P)
_sig("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
_sig("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
_sig("LLVMCountStructElementTypes", C.c_uint, P)
_sig("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
_sig("LLVMGetArrayLength2", C.c_uint64, P)
_sig("LLVMGetVectorSize", C.c_uint, P)
_sig("LLVMGetAggregateElement", P, P, C.c_uint)
_sig("LLVMGetNumArgOperands", C.c_uint, P)
_sig("LLVMGetConstOpcode", C.c_int, P)
_sig("LLVMGetNSW", C.c_int, P)
_sig("LLVMGetNUW", C.c_int, P)
_sig("LLVMGetExact", C.c_int, P)
_sig("LLVMValueAsBasicBlock", P, P)
_sig("LLVMBasicBlockAsValue", P, P)
_sig("LLVMIsGlobalConstant", C.c_int, P)
_sig("LLVMPrintTypeToString", C.c_void_p, P)
_sig("LLVMGetInstructionParent", P, P)
_sig("LLVMGetMDString", C.c_char_p, P, C.POINTER(C.c_uint))

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv",
       16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and",
       24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc",
       31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc",
       38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze",
       55: "fence", 56: "atomiccmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# LLVMValueKind
VK = {0: "arg", 1: "bb", 5: "func", 6: "alias", 7: "ifunc", 8: "gvar", 9: "blockaddr", 10: "cexpr", 11: "carray",
      12: "cstruct", 13: "cvector", 14: "undef", 15: "zeroagg", 16: "cdataarray", 17: "cdatavector", 18: "cint",
      19: "cfp", 20: "null", 21: "tokennone", 22: "md", 23: "asm", 24: "inst", 25: "poison"}


class Ty:
    __slots__ = ("kind", "width", "elems", "offs", "n", "size", "store")

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.width
        if self.kind == "struct":
            return "{" + ",".join(map(repr, self.elems)) + "}"
        if self.kind in ("array", "vector"):
            return "[%d x %r]" % (self.n, self.elems[0])
        return self.kind


class Val:
    """kind: inst/arg/func/gvar/cint/cfp/null/undef/poison/zeroagg/agg/cexpr/bb/md"""
    __slots__ = ("kind", "ty", "data", "name")

    def __init__(self, kind, ty, data=None, name=""):
        self.kind, self.ty, self.data, self.name = kind, ty, data, name

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.name or "", self.data if self.kind in ("cint", "cfp") else "")


class Inst:
    __slots__ = ("op", "ty", "ops", "id", "x", "block", "text", "flags")


class Block:
    __slots__ = ("name", "insts", "succs", "preds", "fn", "idx")


class Fn:
    __slots__ = ("name", "blocks", "params", "decl", "retty", "ref", "loops", "rpo", "loaded")


def _str(p):
    s = C.cast(p, C.c_char_p).value.decode("utf-8", "replace")
    L.LLVMDisposeMessage(p)
    return s


class Module:
    def __init__(self, path):
        ctx = L.LLVMContextCreate()
        buf, err = P(), C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.m = m
        self.td = L.LLVMGetModuleDataLayout(m)
        self.types = {}
        self.vals = {}
        self.fns = {}
        self.globals = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            fn = Fn()
            fn.name = self.vname(f)
            fn.decl = bool(L.LLVMIsDeclaration(f))
            fn.ref = f
            fn.loaded = False
            fn.blocks = []
            fn.params = []
            self.fns[fn.name] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[self.vname(g)] = g
            g = L.LLVMGetNextGlobal(g)

    def vname(self, v):
        n = C.c_size_t()
        return (L.LLVMGetValueName2(v, C.byref(n)) or b"").decode("utf-8", "replace")

    def ty(self, t):
        if t in self.types:
            return self.types[t]
        r = Ty()
        self.types[t] = r
        k = L.LLVMGetTypeKind(t)
        r.elems, r.offs, r.n, r.width, r.size, r.store = [], [], 0, 0, 0, 0
        if k == 8:
            r.kind, r.width = "int", L.LLVMGetIntTypeWidth(t)
        elif k == 12:
            r.kind, r.width = "ptr", 64
        elif k == 2:
            r.kind, r.width = "float", 32
        elif k == 3:
            r.kind, r.width = "double", 64
        elif k == 10:
            r.kind = "struct"
            n = L.LLVMCountStructElementTypes(t)
            r.n = n
            for i in range(n):
                r.elems.append(self.ty(L.LLVMStructGetTypeAtIndex(t, i)))
            try:
                r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
            except Exception:
                pass
        elif k == 11:
            r.kind, r.n = "array", L.LLVMGetArrayLength2(t)
            r.elems = [self.ty(L.LLVMGetElementType(t))]
        elif k == 13:
            r.kind, r.n = "vector", L.LLVMGetVectorSize(t)
            r.elems = [self.ty(L.LLVMGetElementType(t))]
        elif k == 0:
            r.kind = "void"
        elif k == 7:
            r.kind = "label"
        elif k == 9:
            r.kind = "func"
        elif k == 14:
            r.kind = "md"
        elif k == 4:
            r.kind, r.width = "x86_fp80", 80
        else:
            r.kind = "other%d" % k
        if r.kind in ("int", "ptr", "float", "double", "struct", "array", "vector", "x86_fp80"):
            r.size = L.LLVMABISizeOfType(self.td, t)
            r.store = L.LLVMStoreSizeOfType(self.td, t)
        return r

    def val(self, v):
        if v is None:
            return None
        got = self.vals.get(v)
        if got is not None:
            return got
        k = VK.get(L.LLVMGetValueKind(v), "other")
        tref = L.LLVMTypeOf(v)
        t = self.ty(tref)
        if k == "cint":
            w = t.width
            if w <= 64:
                r = Val("cint", t, L.LLVMConstIntGetZExtValue(v) & ((1 << w) - 1))
            else:
                s = _str(L.LLVMPrintValueToString(v)).split()[-1]
                r = Val("cint", t, int(s) & ((1 << w) - 1))
        elif k == "cfp":
            lo = C.c_int()
            r = Val("cfp", t, L.LLVMConstRealGetDouble(v, C.byref(lo)))
        elif k in ("carray", "cstruct", "cvector", "cdataarray", "cdatavector"):
            n = t.n
            r = Val("agg", t, None)
            self.vals[v] = r
            r.data = [self.val(L.LLVMGetAggregateElement(v, i)) for i in range(n)]
        elif k == "cexpr":
            r = Val("cexpr", t, None)
            self.vals[v] = r
            op = OPC.get(L.LLVMGetConstOpcode(v), "?")
            ops = [self.val(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            x = self.ty(L.LLVMGetGEPSourceElementType(v)) if op == "getelementptr" else None
            r.data = (op, ops, x)
        elif k in ("func",):
            r = Val("func", t, None, self.vname(v))
        elif k == "alias":
            r = self.val(L.LLVMAliasGetAliasee(v))
        elif k == "gvar":
            r = Val("gvar", t, None, self.vname(v))
        elif k == "bb":
            r = Val("bb", t, None)
        elif k in ("inst", "arg"):
            r = Val(k, t, None, self.vname(v))
            r.data = v
        else:
            r = Val(k, t, None)
            r.data = v if k == "md" else None
        self.vals[v] = r
        return r

    def ginit(self, name):
        """-> (valuetype, initializer Val or None, is_constant)"""
        g = self.globals[name]
        t = self.ty(L.LLVMGlobalGetValueType(g))
        i = L.LLVMGetInitializer(g)
        return t, (self.val(i) if i else None), bool(L.LLVMIsGlobalConstant(g))

    def fn(self, name):
        fn = self.fns[name]
        if fn.loaded or fn.decl:
            return fn
        fn.loaded = True
        f = fn.ref
        p = L.LLVMGetFirstParam(f)
        while p:
            fn.params.append(self.val(p))
            p = L.LLVMGetNextParam(p)
        bmap = {}
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            blk = Block()
            blk.name = self.vname(L.LLVMBasicBlockAsValue(b)) or "b%d" % len(fn.blocks)
            blk.insts, blk.succs, blk.preds, blk.fn = [], [], [], fn
            blk.idx = len(fn.blocks)
            fn.blocks.append(blk)
            bmap[b] = blk
            b = L.LLVMGetNextBasicBlock(b)
        for b, blk in bmap.items():
            i = L.LLVMGetFirstInstruction(b)
            while i:
                blk.insts.append(self.inst(i, bmap, blk))
                i = L.LLVMGetNextInstruction(i)
        for blk in fn.blocks:
            for s in blk.succs:
                if blk not in s.preds:
                    s.preds.append(blk)
        self.analyse(fn)
        return fn

    def inst(self, i, bmap, blk):
        r = Inst()
        oc = L.LLVMGetInstructionOpcode(i)
        r.op = OPC.get(oc, "op%d" % oc)
        r.ty = self.ty(L.LLVMTypeOf(i))
        r.id = self.val(i)
        r.block = blk
        r.x = None
        r.flags = 0
        r.text = None
        op = r.op
        if op == "phi":
            n = L.LLVMCountIncoming(i)
            r.ops = []
            r.x = [(bmap[L.LLVMGetIncomingBlock(i, k)], self.val(L.LLVMGetIncomingValue(i, k))) for k in range(n)]
            return r
        if op == "br":
            r.ops = []
            n = L.LLVMGetNumSuccessors(i)
            s = [bmap[L.LLVMGetSuccessor(i, k)] for k in range(n)]
            if L.LLVMIsConditional(i):
                r.ops = [self.val(L.LLVMGetCondition(i))]
            r.x = s
            blk.succs = list(s)
            return r
        if op == "switch":
            n = L.LLVMGetNumOperands(i)
            cond = self.val(L.LLVMGetOperand(i, 0))
            dflt = bmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, 1))]
            cases = []
            for k in range(2, n, 2):
                cases.append((self.val(L.LLVMGetOperand(i, k)).data,
                              bmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, k + 1))]))
            r.ops, r.x = [cond], (dflt, cases)
            blk.succs = [dflt] + [c[1] for c in cases]
            return r
        if op in ("call", "invoke"):
            na = L.LLVMGetNumArgOperands(i)
            args = [self.val(L.LLVMGetOperand(i, k)) for k in range(na)]
            callee = self.val(L.LLVMGetCalledValue(i))
            r.ops = args
            if op == "invoke":
                nd = bmap[L.LLVMGetNormalDest(i)]
                ud = bmap[L.LLVMGetUnwindDest(i)]
                r.x = (callee, nd, ud)
                blk.succs = [nd, ud]
            else:
                r.x = (callee, None, None)
            return r
        n = L.LLVMGetNumOperands(i)
        r.ops = [self.val(L.LLVMGetOperand(i, k)) for k in range(n)]
        if op == "icmp":
            r.x = ICMP[L.LLVMGetICmpPredicate(i)]
        elif op == "fcmp":
            r.x = FCMP[L.LLVMGetFCmpPredicate(i)]
        elif op == "getelementptr":
            r.x = self.ty(L.LLVMGetGEPSourceElementType(i))
        elif op == "alloca":
            r.x = self.ty(L.LLVMGetAllocatedType(i))
        elif op in ("extractvalue", "insertvalue"):
            k = L.LLVMGetNumIndices(i)
            p = L.LLVMGetIndices(i)
            r.x = [p[j] for j in range(k)]
        elif op in ("lshr", "ashr", "udiv", "sdiv"):
            r.x = bool(L.LLVMGetExact(i))
        elif op == "shufflevector":
            r.text = _str(L.LLVMPrintValueToString(i))
        if op in ("add", "sub", "mul", "shl"):
            r.flags = (1 if L.LLVMGetNSW(i) else 0) | (2 if L.LLVMGetNUW(i) else 0)
        return r

    # -- loops -----------------------------------------------------------
    def analyse(self, fn):
        entry = fn.blocks[0]
        order, seen = [], set()
        stack = [(entry, iter(entry.succs))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        fn.rpo = {b: i for i, b in enumerate(order)}
        # dominators
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in b.preds if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a is not c:
                        while fn.rpo[a] > fn.rpo[c]:
                            a = idom[a]
                        while fn.rpo[c] > fn.rpo[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) is not n:
                    idom[b] = n
                    changed = True

        def dom(a, b):
            while True:
                if a is b:
                    return True
                if b is entry:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in b.succs:
                if s in fn.rpo and fn.rpo[s] <= fn.rpo[b]:
                    if not dom(s, b):
                        raise RuntimeError("irreducible control flow in " + fn.name)
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in x.preds if p in fn.rpo)
        fn.loops = loops


def demangle_many(names):
    import subprocess
    names = list(names)
    out = subprocess.run(["/usr/bin/llvm-cxxfilt"] if os.path.exists("/usr/bin/llvm-cxxfilt") else
                         ["/usr/lib/llvm-18/bin/llvm-cxxfilt"],
                         input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    return dict(zip(names, out))
