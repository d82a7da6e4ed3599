"""Thin ctypes binding to the LLVM 18 C API: parses LLVM IR and turns functions
into plain Python objects (lazily).  No code is executed; IR is only read."""
import ctypes as C
import ctypes.util, os, subprocess

_L = None
def lib():
    global _L
    if _L is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so.1", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
                  "/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1"):
            if os.path.exists(p):
                _L = C.CDLL(p); break
        else:
            raise RuntimeError("libLLVM 18 not found")
        _setup(_L)
    return _L

P = C.c_void_p
def _setup(L):
    def d(name, res, *args):
        f = getattr(L, name); f.restype = res; f.argtypes = list(args)
    d("LLVMContextCreate", P)
    d("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(P))
    d("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(P))
    d("LLVMGetModuleDataLayout", P, P)
    d("LLVMGetFirstFunction", P, P); d("LLVMGetNextFunction", P, P)
    d("LLVMGetFirstGlobal", P, P); d("LLVMGetNextGlobal", P, P)
    d("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
    d("LLVMIsDeclaration", C.c_int, P)
    d("LLVMGetFirstBasicBlock", P, P); d("LLVMGetNextBasicBlock", P, P)
    d("LLVMGetFirstInstruction", P, P); d("LLVMGetNextInstruction", P, P)
    d("LLVMGetBasicBlockName", C.c_char_p, P)
    d("LLVMGetInstructionOpcode", C.c_int, P)
    d("LLVMGetNumOperands", C.c_int, P); d("LLVMGetOperand", P, P, C.c_uint)
    d("LLVMTypeOf", P, P); d("LLVMGetTypeKind", C.c_int, P)
    d("LLVMGetIntTypeWidth", C.c_uint, P)
    d("LLVMCountStructElementTypes", C.c_uint, P)
    d("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
    d("LLVMGetArrayLength2", C.c_uint64, P); d("LLVMGetElementType", P, P)
    d("LLVMGetVectorSize", C.c_uint, P)
    d("LLVMABISizeOfType", C.c_ulonglong, P, P); d("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
    d("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
    d("LLVMGetStructName", C.c_char_p, P)
    d("LLVMIsOpaqueStruct", C.c_int, P)
    d("LLVMGetValueKind", C.c_int, P)
    d("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
    d("LLVMConstIntGetSExtValue", C.c_longlong, P)
    d("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
    d("LLVMGetConstOpcode", C.c_int, P)
    d("LLVMGetICmpPredicate", C.c_int, P); d("LLVMGetFCmpPredicate", C.c_int, P)
    d("LLVMCountIncoming", C.c_uint, P); d("LLVMGetIncomingValue", P, P, C.c_uint); d("LLVMGetIncomingBlock", P, P, C.c_uint)
    d("LLVMGetNumSuccessors", C.c_uint, P); d("LLVMGetSuccessor", P, P, C.c_uint)
    d("LLVMGetSwitchDefaultDest", P, P)
    d("LLVMGetGEPSourceElementType", P, P)
    d("LLVMGetAllocatedType", P, P)
    d("LLVMGetCalledValue", P, P); d("LLVMGetNumArgOperands", C.c_uint, P)
    d("LLVMGetNormalDest", P, P); d("LLVMGetUnwindDest", P, P)
    d("LLVMGetNumIndices", C.c_uint, P); d("LLVMGetIndices", C.POINTER(C.c_uint), P)
    d("LLVMGetNumClauses", C.c_uint, P); d("LLVMGetClause", P, P, C.c_uint); d("LLVMIsCleanup", C.c_int, P)
    d("LLVMCountParams", C.c_uint, P); d("LLVMGetParam", P, P, C.c_uint)
    d("LLVMGetInitializer", P, P)
    d("LLVMIsGlobalConstant", C.c_int, P); d("LLVMIsThreadLocal", C.c_int, P)
    d("LLVMGlobalGetValueType", P, P)
    d("LLVMGetDebugLocLine", C.c_uint, P)
    d("LLVMGetDebugLocFilename", P, P, C.POINTER(C.c_uint))
    d("LLVMGetElementAsConstant", P, P, C.c_uint)
    d("LLVMIsConstantString", C.c_int, P); d("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
    d("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
    d("LLVMGetEnumAttributeAtIndex", P, P, C.c_uint, C.c_uint)
    d("LLVMGetCallSiteEnumAttribute", P, P, C.c_uint, C.c_uint)
    d("LLVMGetAggregateElement", P, P, C.c_uint)
    d("LLVMBasicBlockAsValue", P, P); d("LLVMValueAsBasicBlock", P, P)
    d("LLVMGetAtomicRMWBinOp", C.c_int, P)
    d("LLVMPrintValueToString", P, P)
    d("LLVMGetPersonalityFn", P, P); d("LLVMHasPersonalityFn", C.c_int, P)
    d("LLVMGetReturnType", P, P)
    d("LLVMGetTypeByName2", P, P, C.c_char_p)
    d("LLVMAliasGetAliasee", P, P)
    d("LLVMGetFirstGlobalAlias", P, P); d("LLVMGetNextGlobalAlias", P, P)
    d("LLVMGetMaskValue", C.c_int, P, C.c_uint); d("LLVMGetNumMaskElements", C.c_uint, P)

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",66:"fneg",8:"add",9:"fadd",10:"sub",11:"fsub",
 12:"mul",13:"fmul",14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",
 26:"alloca",27:"load",28:"store",29:"gep",30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",
 38:"fpext",39:"ptrtoint",40:"inttoptr",41:"bitcast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",50:"extractelement",
 51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",68:"freeze",55:"fence",56:"cmpxchg",57:"atomicrmw",
 58:"resume",59:"landingpad",60:"addrspacecast"}
ICMP = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
FCMP = {0:"false",1:"oeq",2:"ogt",3:"oge",4:"olt",5:"ole",6:"one",7:"ord",8:"uno",9:"ueq",10:"ugt",11:"uge",12:"ult",13:"ule",14:"une",15:"true"}
# value kinds (llvm-c/Core.h, LLVM 18)
VK = ["Argument","BasicBlock","MemoryUse","MemoryDef","MemoryPhi","Function","GlobalAlias","GlobalIFunc","GlobalVariable","BlockAddress",
 "ConstantExpr","ConstantArray","ConstantStruct","ConstantVector","UndefValue","ConstantAggregateZero","ConstantDataArray","ConstantDataVector",
 "ConstantInt","ConstantFP","ConstantPointerNull","ConstantTokenNone","MetadataAsValue","InlineAsm","Instruction","PoisonValue","ConstantTargetNone"]

class Ty:
    __slots__ = ("k","w","size","elems","n","elem","name")
    # k: void int ptr float struct array vector label metadata other
    def __repr__(self):
        if self.k == "int": return "i%d" % self.w
        if self.k == "float": return "f%d" % self.w
        if self.k in ("array","vector"): return "[%d x %r]" % (self.n, self.elem)
        if self.k == "struct": return "{%s}" % ", ".join(repr(e) for _, e in self.elems)
        return self.k

class Inst:
    __slots__ = ("op","id","ty","ops","x","line","file","idx")
    def __repr__(self): return "%%%d = %s %r %r" % (self.id, self.op, self.ops, self.x)

class Block:
    __slots__ = ("id","insts","fn","name","phis","succs","preds","rpo","livein")
class Fn: pass

class Module:
    def __init__(self, path):
        L = lib(); self.L = L
        self.ctx = L.LLVMContextCreate()
        buf = P(); msg = P(); mod = P()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(C.string_at(msg.value).decode())
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError(C.string_at(msg.value).decode())
        self.mod = mod; self.dl = L.LLVMGetModuleDataLayout(mod)
        self.nounwind = L.LLVMGetEnumAttributeKindForName(b"nounwind", 8)
        self.noreturn = L.LLVMGetEnumAttributeKindForName(b"noreturn", 8)
        self.fnptr = {}; self.gptr = {}; self.fns = {}; self.tycache = {}; self.alias = {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            self.fnptr[self.vname(f)] = f; f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            self.gptr[self.vname(g)] = g; g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(mod)
        while a:
            t = L.LLVMAliasGetAliasee(a)
            self.alias[self.vname(a)] = self.vname(t); a = L.LLVMGetNextGlobalAlias(a)
        names = list(self.fnptr) + list(self.alias)
        out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.dem = dict(zip(names, out))
    def vname(self, v):
        n = C.c_size_t(); p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()
    def threadlocal(self, name): return name in self.gptr and bool(self.L.LLVMIsThreadLocal(self.gptr[name]))
    def ty(self, t):
        r = self.tycache.get(t)
        if r is not None: return r
        L = self.L; k = L.LLVMGetTypeKind(t); r = Ty(); r.name = None; r.size = 0; r.w = 0; r.n = 0; r.elems = None; r.elem = None
        self.tycache[t] = r
        if k == 0: r.k = "void"
        elif k in (1,2,3,4,5,18): r.k = "float"; r.w = {1:16,2:32,3:64,4:80,5:128,18:16}[k]; r.size = L.LLVMABISizeOfType(self.dl, t)
        elif k == 8: r.k = "int"; r.w = L.LLVMGetIntTypeWidth(t); r.size = L.LLVMStoreSizeOfType(self.dl, t)
        elif k == 12: r.k = "ptr"; r.w = 64; r.size = 8
        elif k == 10:
            r.k = "struct"; nm = L.LLVMGetStructName(t); r.name = nm.decode() if nm else None
            if L.LLVMIsOpaqueStruct(t): r.elems = []
            else:
                r.size = L.LLVMABISizeOfType(self.dl, t)
                r.elems = [(L.LLVMOffsetOfElement(self.dl, t, i), self.ty(L.LLVMStructGetTypeAtIndex(t, i))) for i in range(L.LLVMCountStructElementTypes(t))]
        elif k == 11:
            r.k = "array"; r.n = L.LLVMGetArrayLength2(t); r.elem = self.ty(L.LLVMGetElementType(t)); r.size = L.LLVMABISizeOfType(self.dl, t)
        elif k == 13:
            r.k = "vector"; r.n = L.LLVMGetVectorSize(t); r.elem = self.ty(L.LLVMGetElementType(t)); r.size = L.LLVMABISizeOfType(self.dl, t)
        elif k == 7: r.k = "label"
        else: r.k = "other%d" % k
        return r
    def typeof(self, v): return self.ty(self.L.LLVMTypeOf(v))
    # ---- operands / constants -> tuples
    def operand(self, v, ids):
        L = self.L
        k = VK[L.LLVMGetValueKind(v)]
        if k in ("Instruction", "Argument"): return ("v", ids[v])
        return self.const(v, k)
    def const(self, v, k=None):
        L = self.L
        k = k or VK[L.LLVMGetValueKind(v)]
        if k == "ConstantInt":
            t = self.typeof(v)
            if t.w <= 64: return ("c", t.w, L.LLVMConstIntGetZExtValue(v) & ((1 << t.w) - 1))
            s = C.string_at(L.LLVMPrintValueToString(v)).decode().split()[-1]
            return ("c", t.w, int(s) & ((1 << t.w) - 1))
        if k == "ConstantFP":
            li = C.c_int(); return ("f", self.typeof(v).w, L.LLVMConstRealGetDouble(v, C.byref(li)))
        if k == "ConstantPointerNull": return ("null",)
        if k in ("UndefValue", "PoisonValue"): return ("undef", self.typeof(v))
        if k == "ConstantAggregateZero": return ("zero", self.typeof(v))
        if k in ("ConstantTokenNone", "MetadataAsValue", "InlineAsm", "ConstantTargetNone"): return ("meta",)
        if k == "BasicBlock": return ("bb", L.LLVMValueAsBasicBlock(v))
        if k == "GlobalAlias": return ("g", self.alias[self.vname(v)])
        if k in ("Function", "GlobalVariable"): return ("g", self.vname(v))
        if k in ("ConstantArray", "ConstantStruct", "ConstantVector", "ConstantDataArray", "ConstantDataVector"):
            t = self.typeof(v)
            n = len(t.elems) if t.k == "struct" else t.n
            if k.startswith("ConstantData"):
                return ("agg", t, [self.const(L.LLVMGetElementAsConstant(v, i)) for i in range(n)])
            return ("agg", t, [self.const(L.LLVMGetOperand(v, i)) for i in range(n)])
        if k == "ConstantExpr":
            opc = OPC.get(L.LLVMGetConstOpcode(v), "?")
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            if opc == "gep":
                off, var = self.gep_layout(v, ops)
                assert not var
                return ("cgep", ops[0], off)
            return ("cexpr", opc, self.typeof(v), ops)
        raise NotImplementedError("const kind " + k)
    def gep_layout(self, v, ops):
        t = self.ty(self.L.LLVMGetGEPSourceElementType(v))
        off = 0; var = []
        cur = t; first = True
        for o in ops[1:]:
            if first:
                sc = t.size; first = False; nxt = t
            elif cur.k == "struct":
                i = o[2]; off += cur.elems[i][0]; cur = cur.elems[i][1]; continue
            else:
                sc = cur.elem.size; nxt = cur.elem
            if o[0] == "c":
                x = o[2]
                if x >> (o[1] - 1): x -= 1 << o[1]
                off += sc * x
            else: var.append((sc, o))
            cur = nxt
        return off, var
    def fn(self, name):
        name = self.alias.get(name, name)
        f = self.fns.get(name)
        if f is None:
            f = self.fns[name] = self._load(name)
        return f
    def _fnattr(self, p, kind): return bool(self.L.LLVMGetEnumAttributeAtIndex(p, 0xFFFFFFFF, kind))
    def _load(self, name):
        L = self.L; p = self.fnptr[name]
        f = Fn(); f.name = name; f.dem = self.dem.get(name, name); f.nounwind = self._fnattr(p, self.nounwind)
        f.noreturn = self._fnattr(p, self.noreturn)
        f.decl = bool(L.LLVMIsDeclaration(p)); f.blocks = []; f.bmap = {}
        ids = {}; n = 0
        f.params = []
        for i in range(L.LLVMCountParams(p)):
            a = L.LLVMGetParam(p, i); ids[a] = n; f.params.append((n, self.typeof(a))); n += 1
        if f.decl: return f
        b = L.LLVMGetFirstBasicBlock(p); raw = []
        while b:
            B = Block(); B.id = len(f.blocks); B.fn = f; B.insts = []; B.phis = []; B.preds = []; B.succs = []
            f.blocks.append(B); f.bmap[b] = B.id
            i = L.LLVMGetFirstInstruction(b)
            lst = []
            while i:
                ids[i] = n; n += 1; lst.append(i); i = L.LLVMGetNextInstruction(i)
            raw.append(lst); b = L.LLVMGetNextBasicBlock(b)
        for B, lst in zip(f.blocks, raw):
            for v in lst:
                I = self._inst(v, ids, f)
                if I is None: continue
                if I.op == "phi": B.phis.append(I)
                else:
                    I.idx = len(B.insts); B.insts.append(I)
            t = B.insts[-1]
            B.succs = list(t.x.get("succ", ()))
        for B in f.blocks:
            for s in set(B.succs): f.blocks[s].preds.append(B.id)
        f.nvals = n
        self._analyse(f)
        return f
    def _inst(self, v, ids, f):
        L = self.L; I = Inst(); I.id = ids[v]; oc = L.LLVMGetInstructionOpcode(v); I.op = OPC.get(oc, "op%d" % oc)
        I.ty = self.typeof(v); I.x = x = {}; I.idx = -1
        I.line = L.LLVMGetDebugLocLine(v); I.file = None
        if I.line:
            ln = C.c_uint(); s = L.LLVMGetDebugLocFilename(v, C.byref(ln))
            I.file = C.string_at(s, ln.value).decode() if s else None
        nop = L.LLVMGetNumOperands(v)
        op = I.op
        if op == "phi":
            I.ops = [(f.bmap[L.LLVMGetIncomingBlock(v, i)], self.operand(L.LLVMGetIncomingValue(v, i), ids)) for i in range(L.LLVMCountIncoming(v))]
            return I
        if op in ("call", "invoke"):
            na = L.LLVMGetNumArgOperands(v)
            cal = L.LLVMGetCalledValue(v)
            x["callee"] = self.operand(cal, ids)
            if x["callee"][0] == "g" and x["callee"][1].startswith(("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant")):
                return None
            I.ops = [self.operand(L.LLVMGetOperand(v, i), ids) for i in range(na)]
            x["nounwind"] = bool(L.LLVMGetCallSiteEnumAttribute(v, 0xFFFFFFFF, self.nounwind))
            x["noreturn"] = bool(L.LLVMGetCallSiteEnumAttribute(v, 0xFFFFFFFF, self.noreturn))
            if op == "invoke":
                x["succ"] = [f.bmap[L.LLVMGetNormalDest(v)], f.bmap[L.LLVMGetUnwindDest(v)]]
            return I
        if op == "br":
            ns = L.LLVMGetNumSuccessors(v)
            x["succ"] = [f.bmap[L.LLVMGetSuccessor(v, i)] for i in range(ns)]
            I.ops = [self.operand(L.LLVMGetOperand(v, 0), ids)] if ns == 2 else []
            return I
        if op == "switch":
            I.ops = [self.operand(L.LLVMGetOperand(v, 0), ids)]
            cases = []
            for i in range(2, nop, 2):
                cases.append((self.const(L.LLVMGetOperand(v, i))[2], f.bmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(v, i+1))]))
            d = f.bmap[L.LLVMGetSwitchDefaultDest(v)]
            x["cases"] = cases; x["default"] = d; x["succ"] = [d] + [c for _, c in cases]
            return I
        I.ops = [self.operand(L.LLVMGetOperand(v, i), ids) for i in range(nop)]
        if op in ("add", "sub", "mul"): x["nsw"] = bool(L.LLVMGetNSW(v))
        if op == "icmp": x["pred"] = ICMP[L.LLVMGetICmpPredicate(v)]
        elif op == "fcmp": x["pred"] = FCMP[L.LLVMGetFCmpPredicate(v)]
        elif op == "gep": x["off"], x["var"] = self.gep_layout(v, I.ops)
        elif op == "alloca": x["aty"] = self.ty(L.LLVMGetAllocatedType(v))
        elif op in ("extractvalue", "insertvalue"):
            p = L.LLVMGetIndices(v); x["idx"] = [p[i] for i in range(L.LLVMGetNumIndices(v))]
        elif op == "landingpad":
            x["cleanup"] = bool(L.LLVMIsCleanup(v))
            x["clauses"] = [self.const(L.LLVMGetClause(v, i)) for i in range(L.LLVMGetNumClauses(v))]
        elif op == "atomicrmw": x["rmw"] = L.LLVMGetAtomicRMWBinOp(v)
        elif op == "store": x["sty"] = self.typeof(L.LLVMGetOperand(v, 0))
        elif op == "shufflevector": x["mask"] = [L.LLVMGetMaskValue(v, i) for i in range(L.LLVMGetNumMaskElements(v))]
        if op in ("trunc","zext","sext","ptrtoint","inttoptr","bitcast","icmp","uitofp","sitofp","fptosi","fptoui","switch"):
            x["ity"] = self.typeof(L.LLVMGetOperand(v, 0))
        return I
    def _analyse(self, f):
        # reverse post order, dominators, natural loops, liveness
        n = len(f.blocks); order = []; seen = [0]*n
        st = [(0, iter(f.blocks[0].succs))]; seen[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = 1; st.append((s, iter(f.blocks[s].succs))); break
            else:
                order.append(b); st.pop()
        order.reverse(); f.order = order
        pos = {b: i for i, b in enumerate(order)}
        for B in f.blocks: B.rpo = pos.get(B.id, 10**6)
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in f.blocks[b].preds:
                    if p in idom:
                        if new is None: new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while pos[a] > pos[c]: a = idom[a]
                                while pos[c] > pos[a]: c = idom[c]
                            new = a
                if idom.get(b) != new: idom[b] = new; ch = True
        f.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        f.loops = {}
        for b in order:
            for s in f.blocks[b].succs:
                if pos.get(s, 10**9) <= pos[b] and dom(s, b):
                    body = f.loops.setdefault(s, {s}); stack = [b]
                    while stack:
                        y = stack.pop()
                        if y not in body:
                            body.add(y); stack.extend(p for p in f.blocks[y].preds if p in pos)
        # RPO must keep loop bodies before exits: recompute ordering key = topological w/ loops contiguous
        # liveness
        use = [set() for _ in range(n)]; de = [set() for _ in range(n)]; phiuse = [set() for _ in range(n)]
        for B in f.blocks:
            d = de[B.id]; u = use[B.id]
            for I in B.phis:
                d.add(I.id)
                for pb, o in I.ops:
                    if o[0] == "v": phiuse[pb].add(o[1])
            for I in B.insts:
                for o in I.ops + ([I.x["callee"]] if "callee" in I.x else []):
                    if o[0] == "v" and o[1] not in d: u.add(o[1])
                for sc, o in I.x.get("var", ()):
                    if o[0] == "v" and o[1] not in d: u.add(o[1])
                d.add(I.id)
        live = [set() for _ in range(n)]; ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set(phiuse[b])
                for s in f.blocks[b].succs: out |= live[s]
                ni = use[b] | (out - de[b])
                # phi-defined values of this block are live-in for our purposes (evaluated on edge)
                if ni != live[b]: live[b] = ni; ch = True
        for B in f.blocks:
            B.livein = live[B.id] | {I.id for I in B.phis}
            # values used by own phi defs that are live through
        # a phi result is only relevant if live after; keep simple
