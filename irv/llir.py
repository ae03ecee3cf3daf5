"""Loads LLVM bitcode into plain Python objects, through the LLVM-C API (ctypes)."""
import ctypes as C, re, subprocess

def _lib():
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
              "libLLVM-18.so", "libLLVM-18.so.1"):
        try:
            return C.CDLL(p)
        except OSError:
            pass
    raise RuntimeError("libLLVM-18 not found")

L = _lib()
P = C.c_void_p
def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
U = C.c_uint
MemBufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcode2", C.c_int, P, C.POINTER(P))
FirstFunction = _f("LLVMGetFirstFunction", P, P); NextFunction = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P); NextGlobal = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P); NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
ValueName2 = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P); NextBB = _f("LLVMGetNextBasicBlock", P, P)
BBName = _f("LLVMGetBasicBlockName", C.c_char_p, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P); NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOperands = _f("LLVMGetNumOperands", C.c_int, P); GetOperand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P); TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
StructNum = _f("LLVMCountStructElementTypes", U, P); StructElt = _f("LLVMStructGetTypeAtIndex", P, P, U)
StructName = _f("LLVMGetStructName", C.c_char_p, P)
ArrayLen = _f("LLVMGetArrayLength2", C.c_uint64, P); EltType = _f("LLVMGetElementType", P, P)
VectorSize = _f("LLVMGetVectorSize", U, P)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
ConstZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GEPSrcTy = _f("LLVMGetGEPSourceElementType", P, P)
DL = _f("LLVMGetModuleDataLayout", P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
AbiSize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
AbiAlign = _f("LLVMABIAlignmentOfType", U, P, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
CountIncoming = _f("LLVMCountIncoming", U, P); IncomingVal = _f("LLVMGetIncomingValue", P, P, U); IncomingBB = _f("LLVMGetIncomingBlock", P, P, U)
NumSucc = _f("LLVMGetNumSuccessors", U, P); GetSucc = _f("LLVMGetSuccessor", P, P, U)
CalledVal = _f("LLVMGetCalledValue", P, P); NumArgOps = _f("LLVMGetNumArgOperands", U, P)
CalledFnTy = _f("LLVMGetCalledFunctionType", P, P)
NormalDest = _f("LLVMGetNormalDest", P, P); UnwindDest = _f("LLVMGetUnwindDest", P, P)
NumIndices = _f("LLVMGetNumIndices", U, P); GetIndices = _f("LLVMGetIndices", C.POINTER(U), P)
NumClauses = _f("LLVMGetNumClauses", U, P); GetClause = _f("LLVMGetClause", P, P, U); IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
Ordering = _f("LLVMGetOrdering", C.c_int, P); RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
CmpXchgOrd = _f("LLVMGetCmpXchgSuccessOrdering", C.c_int, P)
Volatile = _f("LLVMGetVolatile", C.c_int, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
Align_ = _f("LLVMGetAlignment", U, P)
CountParams = _f("LLVMCountParams", U, P); GetParam = _f("LLVMGetParam", P, P, U)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P); GetInit = _f("LLVMGetInitializer", P, P)
IsGlobalConst = _f("LLVMIsGlobalConstant", C.c_int, P)
IsThreadLocal = _f("LLVMIsThreadLocal", C.c_int, P)
ReturnType = _f("LLVMGetReturnType", P, P)
GetAsString = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t)); IsConstString = _f("LLVMIsConstantString", C.c_int, P)
AggElt = _f("LLVMGetAggregateElement", P, P, U)
DebugLine = _f("LLVMGetDebugLocLine", U, P)
DebugFile = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(U))
PrintVal = _f("LLVMPrintValueToString", C.c_void_p, P)
PrintTy = _f("LLVMPrintTypeToString", C.c_void_p, P)
DisposeMsg = _f("LLVMDisposeMessage", None, C.c_void_p)
IsInlineAsm = _f("LLVMIsAInlineAsm", P, P)
ConstRealD = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
GetNUW = _f("LLVMGetNUW", C.c_int, P)
GetSwitchDefault = _f("LLVMGetSwitchDefaultDest", P, P)
VKeys = {}

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",67:"callbr",66:"fneg",8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",
 14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",
 29:"gep",30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",39:"ptrtoint",40:"inttoptr",41:"bitcast",
 60:"addrspacecast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",49:"va_arg",50:"extractelement",51:"insertelement",52:"shufflevector",
 53:"extractvalue",54:"insertvalue",68:"freeze",55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad"}
PRED = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
ORD = {0:"na",1:"unordered",2:"relaxed",4:"acquire",5:"release",6:"acq_rel",7:"seq_cst"}
RMW = {0:"xchg",1:"add",2:"sub",3:"and",4:"nand",5:"or",6:"xor",7:"max",8:"min",9:"umax",10:"umin"}

class Ty:
    """kind: int(width) ptr void struct(elts, offs) array(elt,n) vector float double other"""
    __slots__ = ("kind","width","elts","offs","n","size","align","name")
    def __repr__(self): return self.kind + (str(self.width) if self.kind == "int" else "")

class Inst:
    __slots__ = ("op","id","ty","ops","x","line","file","bb","idx")
    def __repr__(self): return f"<{self.op} {self.id} {self.x}>"

class Block:
    __slots__ = ("name","insts","phis","body","fn","idx")
    def __repr__(self): return f"<bb {self.name}>"

class Fn:
    def __init__(s): s.blocks = None; s.ref = None
    def __repr__(s): return f"<fn {s.dname}>"

class Const:
    """kind: int, null, undef, zero, fn, global, str(bytes), agg(list), expr(op,...), fp, asm"""
    __slots__ = ("kind","v","ty")
    def __init__(s, kind, v, ty): s.kind = kind; s.v = v; s.ty = ty
    def __repr__(s): return f"C({s.kind},{s.v})"

class Reg:
    __slots__ = ("id",)
    def __init__(s, i): s.id = i
    def __repr__(s): return f"%{s.id}"

def _cstr(p):
    s = C.cast(p, C.c_char_p).value.decode(errors="replace"); DisposeMsg(p); return s

class Module:
    def __init__(self, path):
        buf = P(); msg = C.c_char_p()
        if MemBufFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if ParseBC(buf, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m; self.dl = DL(m)
        self.tys = {}; self.fns = {}; self.globals = {}; self.cconst = {}
        self._fnref = {}; self._gref = {}; self.aliases = {}
        names = []
        f = FirstFunction(m)
        while f:
            fn = Fn(); fn.name = self.vname(f); fn.ref = f; fn.decl = bool(IsDecl(f)); fn.mod = self
            self.fns[fn.name] = fn; self._fnref[f] = fn; names.append(fn.name)
            f = NextFunction(f)
        g = FirstGlobal(m)
        while g:
            n = self.vname(g); self._gref[g] = n
            self.globals[n] = g; names.append(n)
            g = NextGlobal(g)
        a = FirstAlias(m)
        while a:
            n = self.vname(a); self.aliases[a] = AliasGetAliasee(a); self._gref[a] = n
            self.globals[n] = a
            a = NextAlias(a)
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.demangled = dict(zip(names, out))
        rest = [n for n, d in self.demangled.items() if d.startswith("_Z")]     # manglings c++filt does not know
        if rest:
            try: self.demangled.update(zip(rest, subprocess.run(["llvm-cxxfilt-18"], input="\n".join(rest), capture_output=True, text=True).stdout.split("\n")))
            except FileNotFoundError: pass
        for n, fn in self.fns.items():
            fn.dname = self.demangled[n]
            fn.ret = self.ty(ReturnType(GlobalValueType(fn.ref)))
            fn.nparams = CountParams(fn.ref)
    def vname(self, v):
        n = C.c_size_t(); return (ValueName2(v, C.byref(n)) or b"").decode()
    def ty(self, t):
        r = self.tys.get(t)
        if r is not None: return r
        k = TypeKind(t); r = Ty(); self.tys[t] = r
        r.width = r.elts = r.offs = r.n = r.size = r.align = r.name = None
        if k == 0: r.kind = "void"; return r
        if k == 8: r.kind = "int"; r.width = IntWidth(t)
        elif k == 12: r.kind = "ptr"
        elif k == 10:
            r.kind = "struct"; n = StructNum(t)
            r.elts = [self.ty(StructElt(t, i)) for i in range(n)]
            r.name = (StructName(t) or b"").decode()
            try: r.offs = [OffsetOf(self.dl, t, i) for i in range(n)]
            except Exception: pass
        elif k == 11: r.kind = "array"; r.n = ArrayLen(t); r.elts = [self.ty(EltType(t))]
        elif k == 13: r.kind = "vector"; r.n = VectorSize(t); r.elts = [self.ty(EltType(t))]
        elif k == 2: r.kind = "float"
        elif k == 3: r.kind = "double"
        elif k == 4: r.kind = "x86_fp80"
        else: r.kind = "other%d" % k; return r
        if r.kind == "struct" and r.name and "opaque" in r.name: return r
        r.size = AbiSize(self.dl, t); r.align = AbiAlign(self.dl, t)
        return r
    def const(self, v):
        c = self.cconst.get(v)
        if c is None: c = self.cconst[v] = self._const(v)
        return c
    def _const(self, v):
        k = ValueKind(v); ty = self.ty(TypeOf(v))
        # kinds: Argument0 BB1 MemUse2 MemDef3 MemPhi4 Function5 Alias6 IFunc7 GlobalVar8 BlockAddr9 ConstExpr10 ConstArray11
        # ConstStruct12 ConstVector13 Undef14 AggZero15 DataArray16 DataVector17 ConstInt18 FP19 NullPtr20 TokenNone21 MetaAsVal22 InlineAsm23 Inst24 Poison25 ConstTarget26
        if k == 5: return Const("fn", self._fnref[v], ty)
        if k == 8: return Const("global", self._gref[v], ty)
        if k == 6: return self.const(self.aliases[v])
        if k == 18:
            w = ty.width
            if w <= 64: return Const("int", ConstZExt(v) & ((1 << w) - 1), ty)
            s = _cstr(PrintVal(v)); return Const("int", int(s.split()[-1]) & ((1 << w) - 1), ty)
        if k == 20: return Const("null", 0, ty)
        if k in (14, 25): return Const("undef", None, ty)
        if k == 15: return Const("zero", None, ty)
        if k == 16 or k == 17:
            if IsConstString(v):
                n = C.c_size_t(); p = GetAsString(v, C.byref(n)); return Const("str", C.string_at(p, n.value), ty)
            return Const("agg", [self.const(AggElt(v, i)) for i in range(ty.n)], ty)
        if k in (11, 12, 13):
            n = NumOperands(v); return Const("agg", [self.const(GetOperand(v, i)) for i in range(n)], ty)
        if k == 10:
            op = OPC.get(ConstOpcode(v)); n = NumOperands(v)
            ops = [self.const(GetOperand(v, i)) for i in range(n)]
            x = None
            if op == "gep": x = self.ty(GEPSrcTy(v))
            if op == "icmp": x = PRED[ICmpPred(v)]
            return Const("expr", (op, ops, x), ty)
        if k == 19:
            l = C.c_int(); return Const("fp", ConstRealD(v, C.byref(l)), ty)
        if k == 23: return Const("asm", _cstr(PrintVal(v)), ty)
        if k == 22: return Const("meta", None, ty)
        return Const("unknown", k, ty)
    def global_init(self, name):
        """(type, Const or None, is_const, tls)"""
        g = self.globals[name]
        ty = self.ty(GlobalValueType(g))
        if g in self.aliases: return ty, None, False, False
        init = GetInit(g)
        return ty, (self.const(init) if init else None), bool(IsGlobalConst(g)), bool(IsThreadLocal(g))
    def body(self, fn):
        if fn.blocks is not None or fn.decl: return fn.blocks
        ids = {}; blocks = []; bbs = {}; cnt = 0
        fn.params = []
        for i in range(CountParams(fn.ref)):
            p = GetParam(fn.ref, i); ids[p] = cnt; fn.params.append((cnt, self.ty(TypeOf(p)))); cnt += 1
        b = FirstBB(fn.ref)
        while b:
            blk = Block(); blk.name = (BBName(b) or b"").decode() + "#%d" % len(blocks); blk.fn = fn; blk.idx = len(blocks)
            bbs[b] = blk; blocks.append((b, blk))
            i = FirstInst(b)
            while i:
                ids[i] = cnt; cnt += 1; i = NextInst(i)
            b = NextBB(b)
        def opnd(v):
            if v in ids: return Reg(ids[v])
            return self.const(v)
        for b, blk in blocks:
            blk.insts = []; i = FirstInst(b)
            while i:
                ins = Inst(); ins.op = OPC.get(Opcode(i), "op%d" % Opcode(i)); ins.id = ids[i]; ins.ty = self.ty(TypeOf(i)); ins.x = None; ins.bb = blk; ins.idx = len(blk.insts)
                ln = DebugLine(i); ins.line = ln; ins.file = None
                if ln:
                    n = U(); p = DebugFile(i, C.byref(n)); ins.file = C.string_at(p, n.value).decode() if p else None
                op = ins.op
                if op == "phi":
                    ins.ops = [(opnd(IncomingVal(i, k)), bbs[IncomingBB(i, k)]) for k in range(CountIncoming(i))]
                elif op in ("call", "invoke"):
                    n = NumArgOps(i); ins.ops = [opnd(GetOperand(i, k)) for k in range(n)]
                    cv = CalledVal(i); x = {"callee": opnd(cv)}
                    if op == "invoke": x["normal"] = bbs[NormalDest(i)]; x["unwind"] = bbs[UnwindDest(i)]
                    ins.x = x
                    ins.x["argtys"] = [self.ty(TypeOf(GetOperand(i, k))) for k in range(n)]
                elif op in ("br", "switch"):
                    ns = NumSucc(i); succ = [bbs[GetSucc(i, k)] for k in range(ns)]
                    if op == "br":
                        ins.ops = [opnd(GetOperand(i, 0))] if ns == 2 else []
                        ins.x = succ
                    else:
                        ins.ops = [opnd(GetOperand(i, 0))]
                        cases = []
                        for k in range(1, ns):
                            cases.append((self.const(GetOperand(i, 2 * k)).v, succ[k]))
                        ins.x = (succ[0], cases)
                else:
                    ins.ops = [opnd(GetOperand(i, k)) for k in range(NumOperands(i))]
                    if op == "icmp": ins.x = PRED[ICmpPred(i)]
                    elif op == "fcmp": ins.x = FCmpPred(i)
                    elif op == "gep": ins.x = self.ty(GEPSrcTy(i))
                    elif op == "alloca": ins.x = (self.ty(AllocTy(i)), Align_(i))
                    elif op == "load": ins.x = (ORD[Ordering(i)], bool(Volatile(i)), Align_(i))
                    elif op == "store": ins.x = (ORD[Ordering(i)], self.ty(TypeOf(GetOperand(i, 0))), bool(Volatile(i)), Align_(i))
                    elif op == "fence":
                        ins.x = next((o for o in ("acq_rel", "seq_cst", "acquire", "release") if o in _cstr(PrintVal(i)).split("!")[0]), "seq_cst")
                    elif op == "atomicrmw": ins.x = (RMW.get(RMWOp(i)), ORD[Ordering(i)])
                    elif op == "cmpxchg": ins.x = ORD[CmpXchgOrd(i)]
                    elif op in ("extractvalue", "insertvalue"):
                        n = NumIndices(i); p = GetIndices(i); ins.x = [p[k] for k in range(n)]
                    elif op == "landingpad":
                        ins.x = (bool(IsCleanup(i)), [self.const(GetClause(i, k)) for k in range(NumClauses(i))])
                    elif op in ("zext","sext","trunc","ptrtoint","inttoptr","bitcast","fptosi","fptoui","sitofp","uitofp"):
                        ins.x = self.ty(TypeOf(GetOperand(i, 0)))
                    elif op in ("add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor"):
                        ins.x = None
                blk.insts.append(ins)
                i = NextInst(i)
            blk.phis = [x for x in blk.insts if x.op == "phi"]
            blk.body = blk.insts[len(blk.phis):]
        fn.blocks = [blk for _, blk in blocks]
        self._loops(fn)
        return fn.blocks
    def _loops(self, fn):
        """Natural loops: fn.loops = {header block: set(block)}"""
        bl = fn.blocks; succ = {b: succs(b) for b in bl}; pred = {b: [] for b in bl}
        for b in bl:
            for s in succ[b]: pred[s].append(b)
        # RPO
        seen = set(); order = []
        st = [(bl[0], iter(succ[bl[0]]))]; seen.add(bl[0])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                order.append(b); st.pop()
        order.reverse(); num = {b: i for i, b in enumerate(order)}
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a is not c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    n = a
                if idom.get(b) is not n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a is b: return True
                if idom[b] is b: return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body: continue
                        body.add(x); wl += [p for p in pred[x] if p in num]
                elif num[s] <= num[b]:
                    raise RuntimeError("irreducible loop in " + fn.dname)
        fn.loops = loops

def succs(b):
    t = b.insts[-1]
    if t.op == "br": return list(t.x)
    if t.op == "switch": return [t.x[0]] + [s for _, s in t.x[1]]
    if t.op == "invoke": return [t.x["normal"], t.x["unwind"]]
    return []
