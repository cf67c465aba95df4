"""Reads LLVM IR through the C API of libLLVM-18 (ctypes) into plain Python objects.

Nothing is transformed here: what clang emitted for /repo's source is what the
verifier executes."""
import ctypes as C
import glob
import re

_lib = None


def lib():
    global _lib
    if _lib is None:
        cands = ["libLLVM-18.so", "libLLVM.so.18.1"] + \
            glob.glob("/usr/lib/llvm-18/lib/libLLVM*.so*") + \
            glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM*18*.so*")
        err = None
        for c in cands:
            try:
                _lib = C.CDLL(c)
                break
            except OSError as e:
                err = e
        if _lib is None:
            raise err
        _decl(_lib)
    return _lib


P = C.c_void_p


def _decl(L):
    def f(name, res, *args):
        fn = getattr(L, name)
        fn.restype = res
        fn.argtypes = list(args)
    u, ull, sz, s = C.c_uint, C.c_ulonglong, C.c_size_t, C.c_char_p
    f("LLVMContextCreate", P)
    f("LLVMContextDispose", None, P)
    f("LLVMCreateMemoryBufferWithMemoryRangeCopy", P, C.c_char_p, sz, s)
    f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(s))
    f("LLVMGetDataLayoutStr", s, P)
    f("LLVMGetModuleDataLayout", P, P)
    f("LLVMByteOrder", C.c_int, P)
    f("LLVMPointerSize", u, P)
    f("LLVMABISizeOfType", ull, P, P)
    f("LLVMStoreSizeOfType", ull, P, P)
    f("LLVMABIAlignmentOfType", u, P, P)
    f("LLVMOffsetOfElement", ull, P, P, u)
    for it in ("Function", "Global", "GlobalIFunc", "GlobalAlias"):
        f("LLVMGetFirst" + it, P, P)
        f("LLVMGetNext" + it, P, P)
    f("LLVMGetGlobalIFuncResolver", P, P)
    f("LLVMAliasGetAliasee", P, P)
    f("LLVMGetStringAttributeAtIndex", P, P, C.c_uint, C.c_char_p, C.c_uint)
    f("LLVMGetStringAttributeValue", P, P, C.POINTER(C.c_uint))
    f("LLVMGetModuleInlineAsm", C.c_void_p, P, C.POINTER(sz))
    f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(sz))
    f("LLVMCountParams", u, P)
    f("LLVMGetParam", P, P, u)
    f("LLVMTypeOf", P, P)
    f("LLVMGlobalGetValueType", P, P)
    f("LLVMGetReturnType", P, P)
    f("LLVMIsFunctionVarArg", C.c_int, P)
    f("LLVMCountBasicBlocks", u, P)
    f("LLVMGetFirstBasicBlock", P, P)
    f("LLVMGetNextBasicBlock", P, P)
    f("LLVMGetFirstInstruction", P, P)
    f("LLVMGetNextInstruction", P, P)
    f("LLVMGetInstructionOpcode", C.c_int, P)
    f("LLVMGetICmpPredicate", C.c_int, P)
    f("LLVMGetNumOperands", C.c_int, P)
    f("LLVMGetOperand", P, P, u)
    f("LLVMGetValueKind", C.c_int, P)
    f("LLVMGetTypeKind", C.c_int, P)
    f("LLVMGetIntTypeWidth", u, P)
    f("LLVMGetElementType", P, P)
    f("LLVMGetVectorSize", u, P)
    f("LLVMGetArrayLength2", ull, P)
    f("LLVMCountStructElementTypes", u, P)
    f("LLVMStructGetTypeAtIndex", P, P, u)
    f("LLVMIsPackedStruct", C.c_int, P)
    f("LLVMConstIntGetZExtValue", ull, P)
    f("LLVMPrintValueToString", P, P)
    f("LLVMDisposeMessage", None, P)
    f("LLVMGetConstOpcode", C.c_int, P)
    f("LLVMGetGEPSourceElementType", P, P)
    f("LLVMGetNumMaskElements", u, P)
    f("LLVMGetMaskValue", C.c_int, P, u)
    f("LLVMGetNumIndices", u, P)
    f("LLVMGetIndices", C.POINTER(u), P)
    f("LLVMGetAlignment", u, P)
    f("LLVMGetCalledValue", P, P)
    f("LLVMGetCalledFunctionType", P, P)
    f("LLVMGetNumArgOperands", u, P)
    f("LLVMGetAllocatedType", P, P)
    f("LLVMIsConditional", C.c_int, P)
    f("LLVMGetNumSuccessors", u, P)
    f("LLVMGetSuccessor", P, P, u)
    f("LLVMGetSwitchDefaultDest", P, P)
    f("LLVMCountIncoming", u, P)
    f("LLVMGetIncomingValue", P, P, u)
    f("LLVMGetIncomingBlock", P, P, u)
    f("LLVMGetInitializer", P, P)
    f("LLVMIsGlobalConstant", C.c_int, P)
    f("LLVMIsDeclaration", C.c_int, P)
    f("LLVMGetVolatile", C.c_int, P)
    f("LLVMIsConstantString", C.c_int, P)
    f("LLVMGetAsString", C.c_void_p, P, C.POINTER(sz))
    f("LLVMGetElementAsConstant", P, P, u)
    f("LLVMValueAsBasicBlock", P, P)
    f("LLVMIsAInlineAsm", P, P)
    f("LLVMGetAggregateElement", P, P, u)
    f("LLVMIsThreadLocal", C.c_int, P)
    f("LLVMIsAMemIntrinsic", P, P)


# LLVMTypeKind
TK = {0: "void", 1: "half", 2: "float", 3: "double", 7: "label", 8: "int",
      9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector",
      14: "metadata"}
# LLVMOpcode
OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke",
       7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 12: "mul",
       14: "udiv", 15: "sdiv", 17: "urem", 18: "srem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load",
       28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext",
       39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp",
       44: "phi", 45: "call", 46: "select", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue",
       54: "insertvalue", 55: "fence", 60: "addrspacecast", 68: "freeze",
       56: "cmpxchg", 57: "atomicrmw", 66: "fneg"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule",
        38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
# LLVMValueKind
VK = {0: "arg", 1: "block", 5: "function", 6: "alias", 7: "ifunc", 8: "global",
      9: "blockaddr", 10: "constexpr", 11: "constarray", 12: "conststruct",
      13: "constvector", 14: "undef", 15: "zero", 16: "dataarray",
      17: "datavector", 18: "constint", 19: "constfp", 20: "null",
      22: "metadata", 23: "asm", 24: "inst", 25: "poison"}


class Ty:
    __slots__ = ("k", "bits", "n", "el", "els", "size", "align", "offs")

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.bits
        if self.k == "vector":
            return "<%d x %r>" % (self.n, self.el)
        if self.k == "array":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.els))
        return self.k


class Inst:
    __slots__ = ("op", "ty", "ops", "x", "fn", "idx", "name")

    def __repr__(self):
        return "%s %r" % (self.op, self.ty)


class Func:
    __slots__ = ("features", "name", "args", "ret", "blocks", "decl", "vararg", "loops", "internal")


class Glob:
    __slots__ = ("features", "name", "ty", "const", "decl", "data", "tls")


class Module:
    pass


def _name(L, v):
    n = C.c_size_t()
    p = L.LLVMGetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode() if n.value else ""


def parse(text, want=None):
    """Parses IR text into a Module. Operands are tuples:
    ('c',bits,val) ('undef',ty) ('null',) ('g',name) ('f',name) ('a',i) ('i',inst)
    ('vec',[ops]) ('agg',[ops]) ('gep',base,const offset) ('asm',text)"""
    L = lib()
    if isinstance(text, str):
        text = text.encode()
    ctx = L.LLVMContextCreate()
    mb = L.LLVMCreateMemoryBufferWithMemoryRangeCopy(text, len(text), b"m")
    mod = P()
    err = C.c_char_p()
    if L.LLVMParseIRInContext(ctx, mb, C.byref(mod), C.byref(err)):
        raise ValueError("cannot parse IR: %s" % (err.value,))
    td = L.LLVMGetModuleDataLayout(mod)
    M = Module()
    M.big = L.LLVMByteOrder(td) == 0
    M.psize = L.LLVMPointerSize(td)
    M.W = M.psize * 8
    tcache = {}

    def ty(p):
        if p in tcache:
            return tcache[p]
        t = Ty()
        t.k = TK.get(L.LLVMGetTypeKind(p), "?%d" % L.LLVMGetTypeKind(p))
        t.bits = t.n = t.el = t.els = t.offs = None
        t.size = t.align = None
        if t.k == "int":
            t.bits = L.LLVMGetIntTypeWidth(p)
        elif t.k == "ptr":
            t.bits = M.W
        elif t.k == "vector":
            t.n = L.LLVMGetVectorSize(p)
            t.el = ty(L.LLVMGetElementType(p))
            t.bits = t.n * t.el.bits
        elif t.k == "array":
            t.n = L.LLVMGetArrayLength2(p)
            t.el = ty(L.LLVMGetElementType(p))
        elif t.k == "struct":
            n = L.LLVMCountStructElementTypes(p)
            t.els = [ty(L.LLVMStructGetTypeAtIndex(p, i)) for i in range(n)]
            t.offs = [L.LLVMOffsetOfElement(td, p, i) for i in range(n)]
        if t.k in ("int", "ptr", "vector", "array", "struct"):
            t.size = L.LLVMABISizeOfType(td, p)
            t.align = L.LLVMABIAlignmentOfType(td, p)
        tcache[p] = t
        return t

    instmap = {}

    def gepoff(base_ty, idx):
        """constant gep"""
        off = 0
        t = base_ty
        for i, v in enumerate(idx):
            if i == 0:
                off += v * t.size
            elif t.k == "struct":
                off += t.offs[v]
                t = t.els[v]
            else:
                t = t.el
                off += v * t.size
        return off

    def cint(p):
        t = ty(L.LLVMTypeOf(p))
        b = t.bits
        if b <= 64:
            return L.LLVMConstIntGetZExtValue(p) & ((1 << b) - 1)
        s = L.LLVMPrintValueToString(p)
        txt = C.string_at(s).decode().split()[-1]
        L.LLVMDisposeMessage(s)
        return int(txt) & ((1 << b) - 1)

    def op(p, argmap):
        k = VK.get(L.LLVMGetValueKind(p), "?")
        if k == "inst":
            return ("i", instmap[p])
        if k == "arg":
            return ("a", argmap[p])
        if k == "constint":
            return ("c", ty(L.LLVMTypeOf(p)).bits, cint(p))
        if k == "null":
            return ("null",)
        if k in ("undef", "poison"):
            return ("undef", ty(L.LLVMTypeOf(p)))
        if k == "zero":
            return ("zero", ty(L.LLVMTypeOf(p)))
        if k == "global":
            return ("g", _name(L, p))
        if k in ("function", "ifunc", "alias"):
            return ("f", _name(L, p))
        if k in ("datavector", "dataarray"):
            t = ty(L.LLVMTypeOf(p))
            return ("vec" if t.k == "vector" else "agg",
                    [op(L.LLVMGetElementAsConstant(p, i), argmap) for i in range(t.n)], t)
        if k in ("constvector", "constarray", "conststruct"):
            t = ty(L.LLVMTypeOf(p))
            n = L.LLVMGetNumOperands(p)
            return ("vec" if t.k == "vector" else "agg",
                    [op(L.LLVMGetOperand(p, i), argmap) for i in range(n)], t)
        if k == "constexpr":
            o = OPC.get(L.LLVMGetConstOpcode(p))
            if o == "gep":
                bt = ty(L.LLVMGetGEPSourceElementType(p))
                n = L.LLVMGetNumOperands(p)
                idx = []
                for i in range(1, n):
                    q = L.LLVMGetOperand(p, i)
                    v = cint(q)
                    b = ty(L.LLVMTypeOf(q)).bits
                    idx.append(v - (1 << b) if v >> (b - 1) else v)
                return ("gep", op(L.LLVMGetOperand(p, 0), argmap), gepoff(bt, idx))
            if o in ("ptrtoint", "inttoptr", "bitcast", "trunc"):
                return ("cast", o, op(L.LLVMGetOperand(p, 0), argmap), ty(L.LLVMTypeOf(p)))
            return ("unsupported", "constexpr %s" % o)
        if k == "asm":
            s = L.LLVMPrintValueToString(p)
            t = C.string_at(s).decode()
            L.LLVMDisposeMessage(s)
            return ("asm", t)
        if k == "metadata":
            return ("metadata",)
        return ("unsupported", k)

    def initbytes(o, t):
        """flattens an initializer to {offset: (size, operand)}"""
        out = []

        def go(o, t, off):
            if o[0] in ("zero", "undef"):
                out.append((off, t.size, ("zero",) if o[0] == "zero" else ("undef",)))
            elif o[0] in ("agg", "vec"):
                for i, e in enumerate(o[1]):
                    if t.k == "struct":
                        go(e, t.els[i], off + t.offs[i])
                    else:
                        go(e, t.el, off + i * t.el.size)
            else:
                out.append((off, t.size, o))
        go(o, t, 0)
        return out

    M.globals = {}
    g = L.LLVMGetFirstGlobal(mod)
    while g:
        G = Glob()
        G.name = _name(L, g)
        G.ty = ty(L.LLVMGlobalGetValueType(g))
        G.const = bool(L.LLVMIsGlobalConstant(g))
        G.decl = bool(L.LLVMIsDeclaration(g))
        G.tls = bool(L.LLVMIsThreadLocal(g))
        G.data = None
        if not G.decl:
            G.data = initbytes(op(L.LLVMGetInitializer(g), {}), G.ty)
        M.globals[G.name] = G
        g = L.LLVMGetNextGlobal(g)
    M.ifuncs = {}
    g = L.LLVMGetFirstGlobalIFunc(mod)
    while g:
        M.ifuncs[_name(L, g)] = _name(L, L.LLVMGetGlobalIFuncResolver(g))
        g = L.LLVMGetNextGlobalIFunc(g)
    # file-scope assembly: the one form known is the definition of an indirect function
    n = C.c_size_t()
    q = L.LLVMGetModuleInlineAsm(mod, C.byref(n))
    text = C.string_at(q, n.value).decode() if n.value else ""
    sets, indirect = {}, set()
    for line in text.replace(";", "\n").split("\n"):
        line = " ".join(line.split())
        m = re.match(r"\.set ([\w.$]+) ?, ?([\w.$]+)$", line)
        k = re.match(r"\.type ([\w.$]+) ?, ?[%@]gnu_indirect_function$", line)
        if m:
            sets[m.group(1)] = m.group(2)
        elif k:
            indirect.add(k.group(1))
        elif line and not re.match(r"\.(globl|global) [\w.$]+$", line):
            raise ValueError("assembly at file scope: %s" % line)
    for a, b in sets.items():
        if a not in indirect:
            raise ValueError("assembly at file scope defines %s" % a)
        M.ifuncs[a] = b
    M.aliases = {}
    g = L.LLVMGetFirstGlobalAlias(mod)
    while g:
        M.aliases[_name(L, g)] = _name(L, L.LLVMAliasGetAliasee(g))
        g = L.LLVMGetNextGlobalAlias(g)

    M.funcs = {}
    fp = L.LLVMGetFirstFunction(mod)
    while fp:
        F = Func()
        F.name = _name(L, fp)
        n = C.c_uint()
        a = L.LLVMGetStringAttributeAtIndex(fp, 0xFFFFFFFF, b"target-features", 15)
        q = L.LLVMGetStringAttributeValue(a, C.byref(n)) if a else None
        F.features = {x[1:] for x in C.string_at(q, n.value).decode().split(",") if x[:1] == "+"} if a else set()
        fty = L.LLVMGlobalGetValueType(fp)
        F.ret = ty(L.LLVMGetReturnType(fty))
        F.vararg = bool(L.LLVMIsFunctionVarArg(fty))
        n = L.LLVMCountParams(fp)
        argmap = {}
        F.args = []
        for i in range(n):
            a = L.LLVMGetParam(fp, i)
            argmap[a] = i
            F.args.append(ty(L.LLVMTypeOf(a)))
        F.decl = L.LLVMCountBasicBlocks(fp) == 0
        F.blocks = []
        F.loops = None
        bmap = {}
        bl = []
        b = L.LLVMGetFirstBasicBlock(fp)
        while b:
            bmap[b] = len(bl)
            bl.append(b)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Inst()
                instmap[i] = I
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        cnt = 0
        for b in bl:
            insts = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = instmap[i]
                o = L.LLVMGetInstructionOpcode(i)
                I.op = OPC.get(o, "op%d" % o)
                I.ty = ty(L.LLVMTypeOf(i))
                I.fn = F.name
                I.idx = cnt
                cnt += 1
                I.name = _name(L, i)
                I.x = None
                no = L.LLVMGetNumOperands(i)
                if I.op == "br":
                    if L.LLVMIsConditional(i):
                        I.ops = [op(L.LLVMGetOperand(i, 0), argmap)]
                        I.x = [bmap[L.LLVMGetSuccessor(i, 0)], bmap[L.LLVMGetSuccessor(i, 1)]]
                    else:
                        I.ops = []
                        I.x = [bmap[L.LLVMGetSuccessor(i, 0)]]
                elif I.op == "switch":
                    I.ops = [op(L.LLVMGetOperand(i, 0), argmap)]
                    cases = []
                    for j in range(2, no, 2):
                        cases.append((cint(L.LLVMGetOperand(i, j)),
                                      bmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, j + 1))]))
                    I.x = (bmap[L.LLVMGetSwitchDefaultDest(i)], cases)
                elif I.op == "phi":
                    I.ops = []
                    inc = []
                    for j in range(L.LLVMCountIncoming(i)):
                        inc.append((op(L.LLVMGetIncomingValue(i, j), argmap),
                                    bmap[L.LLVMGetIncomingBlock(i, j)]))
                    I.x = inc
                elif I.op == "call":
                    na = L.LLVMGetNumArgOperands(i)
                    I.ops = [op(L.LLVMGetOperand(i, j), argmap) for j in range(na)]
                    I.x = op(L.LLVMGetCalledValue(i), argmap)
                elif I.op == "alloca":
                    I.ops = [op(L.LLVMGetOperand(i, 0), argmap)]
                    I.x = (ty(L.LLVMGetAllocatedType(i)), L.LLVMGetAlignment(i))
                elif I.op == "gep":
                    I.ops = [op(L.LLVMGetOperand(i, j), argmap) for j in range(no)]
                    I.x = ty(L.LLVMGetGEPSourceElementType(i))
                elif I.op == "icmp":
                    I.ops = [op(L.LLVMGetOperand(i, j), argmap) for j in range(2)]
                    I.x = PRED[L.LLVMGetICmpPredicate(i)]
                elif I.op == "shufflevector":
                    I.ops = [op(L.LLVMGetOperand(i, j), argmap) for j in range(2)]
                    I.x = [L.LLVMGetMaskValue(i, j) for j in range(L.LLVMGetNumMaskElements(i))]
                elif I.op in ("extractvalue", "insertvalue"):
                    I.ops = [op(L.LLVMGetOperand(i, j), argmap) for j in range(no)]
                    ix = L.LLVMGetIndices(i)
                    I.x = [ix[j] for j in range(L.LLVMGetNumIndices(i))]
                else:
                    I.ops = [op(L.LLVMGetOperand(i, j), argmap) for j in range(no)]
                    if I.op in ("load", "store"):
                        I.x = (L.LLVMGetAlignment(i), bool(L.LLVMGetVolatile(i)))
                insts.append(I)
                i = L.LLVMGetNextInstruction(i)
            F.blocks.append(insts)
        M.funcs[F.name] = F
        fp = L.LLVMGetNextFunction(fp)
    L.LLVMContextDispose(ctx) if False else None
    return M


def succs(block):
    t = block[-1]
    if t.op == "br":
        return list(t.x)
    if t.op == "switch":
        return [t.x[0]] + [d for _, d in t.x[1]]
    return []


def loops(F):
    """natural loops: {header block: set of blocks}"""
    if F.loops is not None:
        return F.loops
    n = len(F.blocks)
    if n == 0:
        F.loops = {}
        return F.loops
    pred = [[] for _ in range(n)]
    su = [sorted(set(succs(b))) for b in F.blocks]
    for i, s in enumerate(su):
        for j in s:
            pred[j].append(i)
    full = set(range(n))
    # reachable only
    reach, st = set(), [0]
    while st:
        x = st.pop()
        if x in reach:
            continue
        reach.add(x)
        st += su[x]
    dom = {i: (set([0]) if i == 0 else set(reach)) for i in reach}
    ch = True
    while ch:
        ch = False
        for i in sorted(reach):
            if i == 0:
                continue
            ps = [dom[p] for p in pred[i] if p in reach]
            d = set.intersection(*ps) | {i} if ps else {i}
            if d != dom[i]:
                dom[i] = d
                ch = True
    L = {}
    irreducible = False
    for i in reach:
        for j in su[i]:
            if j in dom[i]:
                body = {j}
                st = [i]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += [p for p in pred[x] if p in reach]
                L.setdefault(j, set()).update(body)
    F.loops = L
    return L


def meeting(F, b):
    """(J, region): the block where all paths from the branch in block b meet again, and the
    blocks between; (None, None) if a path returns, or loops back to b, before that"""
    memo = F.__dict__.setdefault("meet", {}) if hasattr(F, "__dict__") else {}
    if b in memo:
        return memo[b]
    dead = set(i for i, k in enumerate(F.blocks) if k[-1].op == "unreachable")
    start = [j for j in succs(F.blocks[b]) if j not in dead]

    def reach(stop):
        seen, st = set(), list(start)
        while st:
            x = st.pop()
            if x in seen or x == stop:
                continue
            seen.add(x)
            st += [j for j in succs(F.blocks[x]) if j not in dead]
        return seen
    best = (None, None)
    for J in sorted(reach(None)):
        r = reach(J)
        if b in r or any(F.blocks[x][-1].op == "ret" for x in r):
            continue
        # every path passes J unless it stays in a cycle; the nearest such block has the least region
        if best[0] is None or len(r) < len(best[1]):
            best = (J, r)
    if best[0] is not None and len(best[1]) > 60:
        best = (None, None)
    memo[b] = best
    return best
