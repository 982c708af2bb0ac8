"""Load LLVM bitcode through the LLVM-C API and decode functions into plain Python tuples."""
import ctypes as C
import glob
import os
import struct
import subprocess

P = C.c_void_p
OP = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul",
      14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
      26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
      37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
      50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence", 68: "freeze"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FPRED = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
TK = {0: "void", 2: "float", 3: "double", 7: "label", 8: "int", 9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata"}

_lib = None


def lib(sysroot=None):
    global _lib
    if _lib is not None:
        return _lib
    sysroot = sysroot or subprocess.run(["rustc", "+stable-x86_64-unknown-linux-gnu", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
    fs = [f for f in glob.glob(os.path.join(sysroot, "lib", "libLLVM*")) if not os.path.islink(f)]
    fs.sort(key=os.path.getsize)
    L = C.CDLL(fs[-1])
    sig = {
        "LLVMCreateMemoryBufferWithContentsOfFile": (C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
        "LLVMParseBitcode2": (C.c_int, [P, C.POINTER(P)]),
        "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]), "LLVMIsDeclaration": (C.c_int, [P]),
        "LLVMGetFirstGlobalAlias": (P, [P]), "LLVMGetNextGlobalAlias": (P, [P]), "LLVMAliasGetAliasee": (P, [P]),
        "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]), "LLVMGetInitializer": (P, [P]), "LLVMIsGlobalConstant": (C.c_int, [P]),
        "LLVMGetValueName2": (P, [P, C.POINTER(C.c_size_t)]),
        "LLVMGlobalGetValueType": (P, [P]),
        "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (C.c_int, [P]), "LLVMGetIntTypeWidth": (C.c_uint, [P]),
        "LLVMGetElementType": (P, [P]), "LLVMGetArrayLength2": (C.c_uint64, [P]), "LLVMGetVectorSize": (C.c_uint, [P]),
        "LLVMCountStructElementTypes": (C.c_uint, [P]), "LLVMStructGetTypeAtIndex": (P, [P, C.c_uint]),
        "LLVMGetModuleDataLayout": (P, [P]), "LLVMABISizeOfType": (C.c_ulonglong, [P, P]), "LLVMStoreSizeOfType": (C.c_ulonglong, [P, P]),
        "LLVMABIAlignmentOfType": (C.c_uint, [P, P]), "LLVMOffsetOfElement": (C.c_ulonglong, [P, P, C.c_uint]),
        "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]), "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
        "LLVMGetInstructionOpcode": (C.c_int, [P]), "LLVMGetNumOperands": (C.c_int, [P]), "LLVMGetOperand": (P, [P, C.c_uint]),
        "LLVMGetBasicBlockTerminator": (P, [P]), "LLVMGetNumSuccessors": (C.c_uint, [P]), "LLVMGetSuccessor": (P, [P, C.c_uint]),
        "LLVMIsConstant": (C.c_int, [P]), "LLVMIsUndef": (C.c_int, [P]), "LLVMIsNull": (C.c_int, [P]), "LLVMGetValueKind": (C.c_int, [P]),
        "LLVMConstIntGetZExtValue": (C.c_ulonglong, [P]), "LLVMConstRealGetDouble": (C.c_double, [P, C.POINTER(C.c_int)]),
        "LLVMGetConstOpcode": (C.c_int, [P]), "LLVMGetICmpPredicate": (C.c_int, [P]), "LLVMGetFCmpPredicate": (C.c_int, [P]),
        "LLVMCountIncoming": (C.c_uint, [P]), "LLVMGetIncomingValue": (P, [P, C.c_uint]), "LLVMGetIncomingBlock": (P, [P, C.c_uint]),
        "LLVMGetCalledValue": (P, [P]), "LLVMGetAllocatedType": (P, [P]), "LLVMGetGEPSourceElementType": (P, [P]),
        "LLVMGetNumIndices": (C.c_uint, [P]), "LLVMGetIndices": (C.POINTER(C.c_uint), [P]), "LLVMGetMaskValue": (C.c_int, [P, C.c_uint]),
        "LLVMGetNumMaskElements": (C.c_uint, [P]), "LLVMPrintValueToString": (P, [P]), "LLVMDisposeMessage": (None, [P]),
        "LLVMCountParams": (C.c_uint, [P]), "LLVMGetParam": (P, [P, C.c_uint]), "LLVMIsConditional": (C.c_int, [P]),
        "LLVMIsConstantString": (C.c_int, [P]), "LLVMGetAsString": (P, [P, C.POINTER(C.c_size_t)]), "LLVMGetElementAsConstant": (P, [P, C.c_uint]),
        "LLVMGetAggregateElement": (P, [P, C.c_uint]), "LLVMIsAFunction": (P, [P]), "LLVMIsAGlobalVariable": (P, [P]), "LLVMIsAInstruction": (P, [P]),
        "LLVMIsAArgument": (P, [P]), "LLVMGetNumArgOperands": (C.c_uint, [P]), "LLVMGetEnumAttributeKindForName": (C.c_uint, [C.c_char_p, C.c_size_t]),
        "LLVMGetEnumAttributeAtIndex": (P, [P, C.c_uint, C.c_uint]), "LLVMIsAConstantExpr": (P, [P]), "LLVMGetReturnType": (P, [P]), "LLVMGetCondition": (P, [P]),
    }
    for n in ("LLVMGetSwitchCaseValue",):
        if hasattr(L, n):
            sig[n] = (P, [P, C.c_uint])
    for n, (r, a) in sig.items():
        f = getattr(L, n)
        f.restype = r
        f.argtypes = a
    _lib = L
    return L


class Unsupported(Exception):
    pass


class Ty:
    __slots__ = ("k", "w", "size", "elts", "offs", "n")

    def __init__(self, k, w=0, size=0, elts=None, offs=None, n=0):
        self.k, self.w, self.size, self.elts, self.offs, self.n = k, w, size, elts, offs, n

    def __repr__(self):
        return "%s%d" % (self.k, self.w or self.n)


class Func:
    __slots__ = ("name", "params", "nregs", "blocks", "types", "rpo", "loops", "keyinfo", "live", "doomed", "ninst")


class Block:
    __slots__ = ("i", "phis", "insts", "name", "preds", "succs")


class Module:
    def __init__(self, path, sysroot=None):
        L = self.L = lib(sysroot)
        buf = P()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = P()
        if L.LLVMParseBitcode2(buf, C.byref(m)):
            raise RuntimeError("bitcode")
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.fn = {}
        self.names = {}
        self.decl = {}
        self._ty = {}
        nr = L.LLVMGetEnumAttributeKindForName(b"noreturn", 8)
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self.name(f)
            self.fn[n] = f
            self.names[f] = n
            if L.LLVMIsDeclaration(f):
                self.decl[n] = bool(L.LLVMGetEnumAttributeAtIndex(f, 0xFFFFFFFF, nr))
            f = L.LLVMGetNextFunction(f)
        self.globals = {}
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[g] = self.name(g)
            g = L.LLVMGetNextGlobal(g)
        # address space: one object id per global / function
        self.gaddr = {}
        self.addrfn = {}
        k = 1
        for g in self.globals:
            self.gaddr[g] = k << 32
            k += 1
        for n, f in self.fn.items():
            self.gaddr[f] = k << 32
            self.addrfn[k << 32] = n
            k += 1
        self.nextobj = k
        self.alias = {}
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            t = L.LLVMAliasGetAliasee(a)
            if t in self.gaddr:
                self.gaddr[a] = self.gaddr[t]
                if t in self.names:
                    self.names[a] = self.names[t]
                    self.alias[self.name(a)] = self.names[t]
            a = L.LLVMGetNextGlobalAlias(a)
        self.addrglobal = {a: g for g, a in self.gaddr.items() if g in self.globals}
        self._func = {}

    def name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode() if n.value else ""

    def text(self, v):
        p = self.L.LLVMPrintValueToString(v)
        s = C.string_at(p).decode(errors="replace")
        self.L.LLVMDisposeMessage(p)
        return s

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        L = self.L
        k = TK.get(L.LLVMGetTypeKind(t))
        if k == "int":
            w = L.LLVMGetIntTypeWidth(t)
            r = Ty("int", w, (w + 7) // 8)
        elif k == "float":
            r = Ty("float", 32, 4)
        elif k == "double":
            r = Ty("float", 64, 8)
        elif k == "ptr":
            r = Ty("int", 64, 8)
        elif k == "struct":
            n = L.LLVMCountStructElementTypes(t)
            e = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            o = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            r = Ty("struct", 0, L.LLVMABISizeOfType(self.dl, t), e, o, n)
        elif k == "array":
            n = L.LLVMGetArrayLength2(t)
            et = L.LLVMGetElementType(t)
            e = self.ty(et)
            r = Ty("array", 0, L.LLVMABISizeOfType(self.dl, t), e, L.LLVMABISizeOfType(self.dl, et), n)
        elif k == "vector":
            n = L.LLVMGetVectorSize(t)
            e = self.ty(L.LLVMGetElementType(t))
            r = Ty("vector", 0, L.LLVMABISizeOfType(self.dl, t), e, e.size, n)
        elif k == "void":
            r = Ty("void")
        else:
            r = Ty(k or "?")
        self._ty[t] = r
        return r

    # -------------------------------------------------------------- constants
    def zero(self, ty):
        if ty.k in ("int", "float"):
            return 0
        if ty.k == "struct":
            return tuple(self.zero(e) for e in ty.elts)
        if ty.k in ("array", "vector"):
            return tuple(self.zero(ty.elts) for _ in range(ty.n))
        return 0

    def const(self, v):
        L = self.L
        if v in self.gaddr:
            return self.gaddr[v]
        ty = self.ty(L.LLVMTypeOf(v))
        if L.LLVMIsUndef(v) or L.LLVMIsNull(v):
            return self.zero(ty)
        kind = L.LLVMGetValueKind(v)
        if ty.k == "int" and kind == 18 or (ty.k == "int" and not L.LLVMIsAConstantExpr(v) and kind not in (10,)):
            if ty.w <= 64:
                return L.LLVMConstIntGetZExtValue(v)
            s = self.text(v).split()[-1]
            return int(s) & ((1 << ty.w) - 1)
        if ty.k == "float":
            loses = C.c_int()
            d = L.LLVMConstRealGetDouble(v, C.byref(loses))
            if ty.w == 32:
                try:
                    return struct.unpack("<I", struct.pack("<f", d))[0]
                except OverflowError:
                    return 0x7F800000 if d > 0 else 0xFF800000
            return struct.unpack("<Q", struct.pack("<d", d))[0]
        if L.LLVMIsAConstantExpr(v):
            op = OP.get(L.LLVMGetConstOpcode(v))
            if op == "gep":
                base = self.const(L.LLVMGetOperand(v, 0))
                idx = [self.const(L.LLVMGetOperand(v, i)) for i in range(1, L.LLVMGetNumOperands(v))]
                st = L.LLVMGetGEPSourceElementType(v)
                return (base + self.gep_const(st, idx)) & ((1 << 64) - 1)
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                return self.const(L.LLVMGetOperand(v, 0))
            if op in ("add", "sub"):
                a, b = self.const(L.LLVMGetOperand(v, 0)), self.const(L.LLVMGetOperand(v, 1))
                return (a + b if op == "add" else a - b) & ((1 << ty.w) - 1)
            raise Unsupported("constexpr " + self.text(v))
        if ty.k == "struct":
            return tuple(self.const(L.LLVMGetAggregateElement(v, i)) for i in range(ty.n))
        if ty.k in ("array", "vector"):
            return tuple(self.const(L.LLVMGetAggregateElement(v, i)) for i in range(ty.n))
        raise Unsupported("constant " + self.text(v)[:200])

    def gep_const(self, st, idx):
        off = 0
        t = st
        L = self.L
        for n, i in enumerate(idx):
            s = i - (1 << 64) if i >> 63 else i
            if n == 0:
                off += s * L.LLVMABISizeOfType(self.dl, t)
            else:
                ty = self.ty(t)
                if ty.k == "struct":
                    off += ty.offs[i]
                    t = L.LLVMStructGetTypeAtIndex(t, i)
                else:
                    t = L.LLVMGetElementType(t)
                    off += s * L.LLVMABISizeOfType(self.dl, t)
        return off

    def init_bytes(self, g):
        """initial bytes of a global as a list of ints"""
        init = self.L.LLVMGetInitializer(g)
        vt = self.ty(self.L.LLVMGlobalGetValueType(g))
        out = bytearray(vt.size)
        if init:
            self._put(out, 0, vt, init)
        return out

    def _put(self, out, off, ty, v):
        L = self.L
        if L.LLVMIsUndef(v) or L.LLVMIsNull(v):
            return
        if ty.k in ("int", "float"):
            x = self.const(v)
            n = ty.size
            out[off:off + n] = (x & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
        elif ty.k == "struct":
            for i in range(ty.n):
                self._put(out, off + ty.offs[i], ty.elts[i], L.LLVMGetAggregateElement(v, i))
        elif ty.k in ("array", "vector"):
            for i in range(ty.n):
                self._put(out, off + i * ty.offs, ty.elts, L.LLVMGetAggregateElement(v, i))
        else:
            raise Unsupported("init " + self.text(v)[:100])

    # -------------------------------------------------------------- functions
    def func(self, name):
        name = self.alias.get(name, name)
        f = self._func.get(name)
        if f is None:
            f = self._func[name] = self._decode(name)
        return f

    def _decode(self, name):
        L = self.L
        fv = self.fn[name]
        F = Func()
        F.name = name
        regs = {}
        types = []
        F.params = []
        for i in range(L.LLVMCountParams(fv)):
            p = L.LLVMGetParam(fv, i)
            regs[p] = len(types)
            t = self.ty(L.LLVMTypeOf(p))
            types.append(t)
            F.params.append(regs[p])
        bl = []
        b = L.LLVMGetFirstBasicBlock(fv)
        bidx = {}
        while b:
            bidx[b] = len(bl)
            bl.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        raw = []
        for b in bl:
            lst = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                lst.append(i)
                t = self.ty(L.LLVMTypeOf(i))
                if t.k != "void":
                    regs[i] = len(types)
                    types.append(t)
                i = L.LLVMGetNextInstruction(i)
            raw.append(lst)
        F.nregs = len(types)
        F.types = types

        def opnd(v):
            r = regs.get(v)
            if r is not None:
                return (0, r)
            return (1, self.const(v))

        F.blocks = []
        n = 0
        for bi, lst in enumerate(raw):
            B = Block()
            B.i = bi
            B.phis = []
            B.insts = []
            B.name = "%d" % bi
            for i in lst:
                n += 1
                oc = L.LLVMGetInstructionOpcode(i)
                op = OP.get(oc)
                txt = None
                if op is None:
                    txt = self.text(i).strip()
                    if txt.startswith("br "):
                        op = "br"
                if op is None:
                    raise Unsupported("opcode %d: %s" % (oc, self.text(i)))
                dst = regs.get(i, -1)
                ty = types[dst] if dst >= 0 else None
                if op == "phi":
                    inc = {}
                    for k in range(L.LLVMCountIncoming(i)):
                        inc[bidx[L.LLVMGetIncomingBlock(i, k)]] = opnd(L.LLVMGetIncomingValue(i, k))
                    B.phis.append((dst, inc, ty))
                    continue
                nop = L.LLVMGetNumOperands(i)
                if op == "br":
                    ns = L.LLVMGetNumSuccessors(i)
                    ss = [bidx[L.LLVMGetSuccessor(i, k)] for k in range(ns)]
                    if ns == 1:
                        B.insts.append(("jmp", -1, None, ss[0]))
                    else:
                        B.insts.append(("br", -1, None, opnd(L.LLVMGetCondition(i)), ss[0], ss[1]))
                    B.succs = ss
                    continue
                if op == "switch":
                    ns = L.LLVMGetNumSuccessors(i)
                    ss = [bidx[L.LLVMGetSuccessor(i, k)] for k in range(ns)]
                    cond = L.LLVMGetOperand(i, 0)
                    w = self.ty(L.LLVMTypeOf(cond)).w
                    cases = []
                    for k in range(1, ns):
                        cv = L.LLVMGetSwitchCaseValue(i, k) if hasattr(L, "LLVMGetSwitchCaseValue") else L.LLVMGetOperand(i, 2 * k)
                        cases.append((self.const(cv), ss[k]))
                    B.insts.append(("switch", -1, None, opnd(cond), w, cases, ss[0]))
                    B.succs = ss
                    continue
                if op == "ret":
                    B.insts.append(("ret", -1, None, opnd(L.LLVMGetOperand(i, 0)) if nop else None))
                    B.succs = []
                    continue
                if op == "unreachable":
                    B.insts.append(("unreachable", -1, None))
                    B.succs = []
                    continue
                if op == "invoke":
                    raise Unsupported("invoke")
                if op == "call":
                    cv = L.LLVMGetCalledValue(i)
                    na = L.LLVMGetNumArgOperands(i)
                    cname = self.names.get(cv)
                    args = []
                    atys = []
                    for k in range(na):
                        a = L.LLVMGetOperand(i, k)
                        at = self.ty(L.LLVMTypeOf(a))
                        atys.append(at)
                        args.append((1, 0) if at.k == "metadata" else opnd(a))
                    if cname is not None and (cname.startswith("llvm.lifetime") or cname.startswith("llvm.experimental.noalias") or cname == "llvm.assume"
                                              or cname.startswith("llvm.dbg") or cname == "llvm.x86.sse2.pause" or cname.startswith("llvm.donothing")):
                        continue
                    B.insts.append(("call", dst, ty, cname if cname is not None else opnd(cv), args, atys))
                    continue
                ops = [opnd(L.LLVMGetOperand(i, k)) for k in range(nop)]
                if op == "alloca":
                    at = self.ty(L.LLVMGetAllocatedType(i))
                    B.insts.append(("alloca", dst, ty, at.size, ops[0]))
                elif op == "load":
                    B.insts.append(("load", dst, ty, ops[0]))
                elif op == "store":
                    vt = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    B.insts.append(("store", -1, vt, ops[0], ops[1]))
                elif op == "gep":
                    st = L.LLVMGetGEPSourceElementType(i)
                    off = 0
                    var = []
                    t = st
                    for k in range(1, nop):
                        o = ops[k]
                        ov = L.LLVMGetOperand(i, k)
                        ow = self.ty(L.LLVMTypeOf(ov)).w
                        if k > 1:
                            tt = self.ty(t)
                            if tt.k == "struct":
                                off += tt.offs[o[1]]
                                t = L.LLVMStructGetTypeAtIndex(t, o[1])
                                continue
                            t = L.LLVMGetElementType(t)
                        sc = L.LLVMABISizeOfType(self.dl, t)
                        if o[0] == 1:
                            s = o[1] - (1 << ow) if o[1] >> (ow - 1) else o[1]
                            off += s * sc
                        else:
                            var.append((o, ow, sc))
                    B.insts.append(("gep", dst, ty, ops[0], off & ((1 << 64) - 1), var))
                elif op == "icmp":
                    st = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    B.insts.append(("icmp", dst, ty, IPRED[L.LLVMGetICmpPredicate(i)], ops[0], ops[1], st))
                elif op == "fcmp":
                    st = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    B.insts.append(("fcmp", dst, ty, FPRED[L.LLVMGetFCmpPredicate(i)], ops[0], ops[1], st))
                elif op in ("trunc", "zext", "sext", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext", "ptrtoint", "inttoptr", "bitcast", "freeze"):
                    st = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    B.insts.append((op, dst, ty, ops[0], st))
                elif op in ("extractvalue", "insertvalue"):
                    ni = L.LLVMGetNumIndices(i)
                    p = L.LLVMGetIndices(i)
                    idx = [p[k] for k in range(ni)]
                    B.insts.append((op, dst, ty, ops, idx))
                elif op == "shufflevector":
                    nm = L.LLVMGetNumMaskElements(i)
                    B.insts.append((op, dst, ty, ops, [L.LLVMGetMaskValue(i, k) for k in range(nm)]))
                elif op in ("extractelement", "insertelement", "select"):
                    ct = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    B.insts.append((op, dst, ty, ops, ct))
                else:
                    B.insts.append((op, dst, ty, ops))
            F.blocks.append(B)
        F.ninst = n
        self._analyse(F)
        return F

    def _analyse(self, F):
        nb = len(F.blocks)
        preds = [[] for _ in range(nb)]
        for B in F.blocks:
            for s in B.succs:
                preds[s].append(B.i)
        for B in F.blocks:
            B.preds = preds[B.i]
        # reverse post-order, postponing loop exits is unnecessary (see loops below)
        order = []
        seen = [False] * nb
        stack = [(0, iter(F.blocks[0].succs))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(F.blocks[s].succs)))
                    break
            else:
                stack.pop()
                order.append(b)
        order.reverse()
        rpo = [1 << 30] * nb
        for i, b in enumerate(order):
            rpo[b] = i
        F.rpo = rpo
        # dominators
        idom = [None] * nb
        idom[0] = 0
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                n = None
                for p in preds[b]:
                    if idom[p] is None:
                        continue
                    if n is None:
                        n = p
                    else:
                        x, y = p, n
                        while x != y:
                            while rpo[x] > rpo[y]:
                                x = idom[x]
                            while rpo[y] > rpo[x]:
                                y = idom[y]
                        n = x
                if idom[b] != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while rpo[b] > rpo[a]:
                b = idom[b]
            return a == b
        loops = {}
        for b in order:
            for s in F.blocks[b].succs:
                if rpo[s] <= rpo[b]:
                    if not dom(s, b):
                        raise Unsupported("irreducible loop in " + F.name)
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        F.loops = loops
        # per block: headers of the loops that contain it, outermost first
        F.keyinfo = []
        hs = sorted(loops, key=lambda h: (len(loops[h]) * -1))
        for b in range(nb):
            F.keyinfo.append(tuple(sorted((h for h in hs if b in loops[h]), key=lambda h: rpo[h])))
        # doomed blocks: every path ends in unreachable
        doomed = [False] * nb
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                if doomed[b]:
                    continue
                B = F.blocks[b]
                if B.insts[-1][0] == "unreachable" or (B.succs and all(doomed[s] for s in B.succs)):
                    doomed[b] = True
                    ch = True
        F.doomed = doomed
        # liveness (registers live on entry to each block, after its phis)
        use = []
        deff = []
        for B in F.blocks:
            u, d = set(), set()
            for dst, inc, _ in B.phis:
                d.add(dst)
            for ins in B.insts:
                for r in _regs(ins):
                    if r not in d:
                        u.add(r)
                if ins[1] >= 0:
                    d.add(ins[1])
            use.append(u)
            deff.append(d)
        livein = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for s in F.blocks[b].succs:
                    S = F.blocks[s]
                    out |= livein[s] - {p[0] for p in S.phis}
                    for dst, inc, _ in S.phis:
                        o = inc.get(b)
                        if o is not None and o[0] == 0:
                            out.add(o[1])
                n = use[b] | (out - deff[b]) | {p[0] for p in F.blocks[b].phis if False}
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        F.live = []
        for b in range(nb):
            S = set(livein[b])
            # phi results used later in the block or live out
            out = set()
            for s in F.blocks[b].succs:
                out |= livein[s] - {p[0] for p in F.blocks[s].phis}
                for dst, inc, _ in F.blocks[s].phis:
                    o = inc.get(b)
                    if o is not None and o[0] == 0:
                        out.add(o[1])
            S |= {p[0] for p in F.blocks[b].phis}
            F.live.append((frozenset(S), frozenset(out)))


def _regs(ins):
    """registers read by an instruction"""
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 0 and isinstance(x[1], int) and not isinstance(x[1], bool):
                out.append(x[1])
            elif len(x) == 2 and x[0] == 1:
                return
            else:
                for y in x:
                    go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    op = ins[0]
    if op == "switch":
        go(ins[3])
        return out
    if op in ("extractvalue", "insertvalue", "shufflevector"):
        go(ins[3])
        return out
    for x in ins[3:]:
        go(x)
    return out
