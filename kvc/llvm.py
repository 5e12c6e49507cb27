"""Thin ctypes binding to the installed libLLVM-18 C API: reads the bitcode that clang emits for
the real sources.  Nothing here interprets the program; it only exposes the IR."""
import ctypes as C
import os, subprocess, functools

_lib = None
for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so"):
    if os.path.exists(p):
        _lib = C.CDLL(p)
        break
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_lib, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


for n, r, a in [
    ("LLVMContextCreate", P, ()),
    ("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, (C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))),
    ("LLVMParseIRInContext", C.c_int, (P, P, C.POINTER(P), C.POINTER(C.c_char_p))),
    ("LLVMGetModuleDataLayout", P, (P,)),
    ("LLVMABISizeOfType", C.c_ulonglong, (P, P)),
    ("LLVMStoreSizeOfType", C.c_ulonglong, (P, P)),
    ("LLVMABIAlignmentOfType", C.c_uint, (P, P)),
    ("LLVMOffsetOfElement", C.c_ulonglong, (P, P, C.c_uint)),
    ("LLVMGetFirstFunction", P, (P,)), ("LLVMGetNextFunction", P, (P,)),
    ("LLVMGetFirstGlobal", P, (P,)), ("LLVMGetNextGlobal", P, (P,)),
    ("LLVMGetFirstGlobalAlias", P, (P,)), ("LLVMGetNextGlobalAlias", P, (P,)),
    ("LLVMAliasGetAliasee", P, (P,)),
    ("LLVMGetInitializer", P, (P,)), ("LLVMGlobalGetValueType", P, (P,)),
    ("LLVMIsGlobalConstant", C.c_int, (P,)),
    ("LLVMGetValueName2", C.c_char_p, (P, C.POINTER(C.c_size_t))),
    ("LLVMIsDeclaration", C.c_int, (P,)),
    ("LLVMCountParams", C.c_uint, (P,)), ("LLVMGetParam", P, (P, C.c_uint)),
    ("LLVMGetFirstBasicBlock", P, (P,)), ("LLVMGetNextBasicBlock", P, (P,)),
    ("LLVMGetFirstInstruction", P, (P,)), ("LLVMGetNextInstruction", P, (P,)),
    ("LLVMGetBasicBlockTerminator", P, (P,)),
    ("LLVMGetInstructionOpcode", C.c_int, (P,)),
    ("LLVMGetNumOperands", C.c_int, (P,)), ("LLVMGetOperand", P, (P, C.c_uint)),
    ("LLVMTypeOf", P, (P,)), ("LLVMGetTypeKind", C.c_int, (P,)),
    ("LLVMGetIntTypeWidth", C.c_uint, (P,)),
    ("LLVMGetValueKind", C.c_int, (P,)),
    ("LLVMConstIntGetZExtValue", C.c_ulonglong, (P,)),
    ("LLVMConstIntGetSExtValue", C.c_longlong, (P,)),
    ("LLVMGetConstOpcode", C.c_int, (P,)),
    ("LLVMConstRealGetDouble", C.c_double, (P, C.POINTER(C.c_int))),
    ("LLVMIsNull", C.c_int, (P,)),
    ("LLVMGetICmpPredicate", C.c_int, (P,)),
    ("LLVMGetFCmpPredicate", C.c_int, (P,)),
    ("LLVMGetOrdering", C.c_int, (P,)),
    ("LLVMGetVolatile", C.c_int, (P,)),
    ("LLVMGetCmpXchgSuccessOrdering", C.c_int, (P,)), ("LLVMGetCmpXchgFailureOrdering", C.c_int, (P,)),
    ("LLVMGetWeak", C.c_int, (P,)),
    ("LLVMGetAtomicRMWBinOp", C.c_int, (P,)),
    ("LLVMGetAllocatedType", P, (P,)),
    ("LLVMGetGEPSourceElementType", P, (P,)),
    ("LLVMGetElementType", P, (P,)), ("LLVMStructGetTypeAtIndex", P, (P, C.c_uint)),
    ("LLVMCountStructElementTypes", C.c_uint, (P,)),
    ("LLVMGetArrayLength2", C.c_ulonglong, (P,)), ("LLVMGetVectorSize", C.c_uint, (P,)),
    ("LLVMGetNumSuccessors", C.c_uint, (P,)), ("LLVMGetSuccessor", P, (P, C.c_uint)),
    ("LLVMIsConditional", C.c_int, (P,)), ("LLVMGetCondition", P, (P,)),
    ("LLVMCountIncoming", C.c_uint, (P,)), ("LLVMGetIncomingValue", P, (P, C.c_uint)),
    ("LLVMGetIncomingBlock", P, (P, C.c_uint)),
    ("LLVMGetCalledValue", P, (P,)), ("LLVMGetNumArgOperands", C.c_uint, (P,)),
    ("LLVMGetNormalDest", P, (P,)), ("LLVMGetUnwindDest", P, (P,)),
    ("LLVMGetNumIndices", C.c_uint, (P,)), ("LLVMGetIndices", C.POINTER(C.c_uint), (P,)),
    ("LLVMGetNumClauses", C.c_uint, (P,)), ("LLVMGetClause", P, (P, C.c_uint)),
    ("LLVMIsCleanup", C.c_int, (P,)),
    ("LLVMGetAggregateElement", P, (P, C.c_uint)),
    ("LLVMGetElementAsConstant", P, (P, C.c_uint)),
    ("LLVMPrintValueToString", P, (P,)), ("LLVMPrintTypeToString", P, (P,)),
    ("LLVMDisposeMessage", None, (P,)),
    ("LLVMGetDebugLocLine", C.c_uint, (P,)),
    ("LLVMGetDebugLocFilename", C.c_char_p, (P, C.POINTER(C.c_uint))),
    ("LLVMGetSubprogram", P, (P,)), ("LLVMDISubprogramGetLine", C.c_uint, (P,)),
    ("LLVMDIScopeGetFile", P, (P,)), ("LLVMDIFileGetFilename", C.POINTER(C.c_char), (P, C.POINTER(C.c_uint))),
    ("LLVMGetSwitchDefaultDest", P, (P,)),
    ("LLVMBasicBlockAsValue", P, (P,)), ("LLVMValueAsBasicBlock", P, (P,)),
    ("LLVMIsOpaqueStruct", C.c_int, (P,)),
    ("LLVMGetStructName", C.c_char_p, (P,)),
    ("LLVMGetCallSiteStringAttribute", P, (P, C.c_uint, C.c_char_p, C.c_uint)),
    ("LLVMGetEnumAttributeKindForName", C.c_uint, (C.c_char_p, C.c_size_t)),
    ("LLVMGetEnumAttributeAtIndex", P, (P, C.c_uint, C.c_uint)),
]:
    globals()[n] = _f(n, r, *a)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr',
       66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or',
       25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 47: 'userop1', 48: 'userop2', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 6: 'ppc', 7: 'label', 8: 'int',
      9: 'func', 10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}
VK = {0: 'arg', 1: 'bb', 2: 'memuse', 3: 'memdef', 4: 'memphi', 5: 'func', 6: 'alias', 7: 'ifunc', 8: 'gvar',
      9: 'blockaddr', 10: 'cexpr', 11: 'carray', 12: 'cstruct', 13: 'cvector', 14: 'undef', 15: 'zeroinit',
      16: 'cdataarray', 17: 'cdatavector', 18: 'cint', 19: 'cfp', 20: 'nullptr', 21: 'tokennone', 22: 'metadata',
      23: 'inlineasm', 24: 'inst', 25: 'poison'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
ORD = {0: 'na', 1: 'unordered', 2: 'relaxed', 4: 'acquire', 5: 'release', 6: 'acq_rel', 7: 'seq_cst'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax',
       10: 'umin'}


def name_of(v):
    n = C.c_size_t()
    s = LLVMGetValueName2(v, C.byref(n))
    return s.decode() if s else ''


def val_str(v):
    p = LLVMPrintValueToString(v)
    s = C.string_at(p).decode(errors='replace')
    LLVMDisposeMessage(p)
    return s.strip()


def type_str(t):
    p = LLVMPrintTypeToString(t)
    s = C.string_at(p).decode(errors='replace')
    LLVMDisposeMessage(p)
    return s.strip()


class Type:
    __slots__ = ('ref', 'kind', 'width', 'mod', 'size', '_fields', 'elem', 'n', 'name')

    def __init__(self, mod, ref):
        self.mod = mod
        self.ref = ref
        self.kind = TK.get(LLVMGetTypeKind(ref), '?')
        self.width = LLVMGetIntTypeWidth(ref) if self.kind == 'int' else None
        self.size = None
        self._fields = None
        self.elem = None
        self.n = None
        self.name = None
        if self.kind in ('int', 'ptr', 'float', 'double', 'struct', 'array', 'vector', 'x86_fp80', 'half'):
            if not (self.kind == 'struct' and LLVMIsOpaqueStruct(ref)):
                self.size = LLVMABISizeOfType(mod.dl, ref)
        if self.kind == 'array':
            self.elem = mod.type(LLVMGetElementType(ref))
            self.n = LLVMGetArrayLength2(ref)
        elif self.kind == 'vector':
            self.elem = mod.type(LLVMGetElementType(ref))
            self.n = LLVMGetVectorSize(ref)
        elif self.kind == 'struct':
            self.n = LLVMCountStructElementTypes(ref)
            s = LLVMGetStructName(ref)
            self.name = s.decode() if s else None

    @property
    def fields(self):
        if self._fields is None:
            self._fields = [(LLVMOffsetOfElement(self.mod.dl, self.ref, i),
                             self.mod.type(LLVMStructGetTypeAtIndex(self.ref, i))) for i in range(self.n)]
        return self._fields

    def __repr__(self):
        return type_str(self.ref)[:80]


class Inst:
    __slots__ = ('ref', 'op', 'ops', 'ty', 'line', 'file', 'x', 'blk', 'idx', 'uid')

    def __repr__(self):
        return val_str(self.ref)[:160]


class Val:
    """non-instruction operand"""
    __slots__ = ('ref', 'kind', 'ty', 'x')

    def __repr__(self):
        return val_str(self.ref)[:120]


class Block:
    __slots__ = ('ref', 'name', 'insts', 'succs', 'fn', 'idx')

    def __repr__(self):
        return f"{self.fn.short}:{self.idx}"


class Func:
    def __init__(self, mod, ref):
        self.mod = mod
        self.ref = ref
        self.name = name_of(ref)
        self.decl = bool(LLVMIsDeclaration(ref))
        self._blocks = None
        self._dem = None
        self._loops = None
        self.nparams = LLVMCountParams(ref)

    @property
    def dem(self):
        if self._dem is None:
            self._dem = self.mod.demangle(self.name)
        return self._dem

    @property
    def short(self):
        d = self.dem
        return d if len(d) < 100 else d[:97] + '...'

    @property
    def blocks(self):
        if self._blocks is None:
            self._load()
        return self._blocks

    def where(self):
        sp = LLVMGetSubprogram(self.ref)
        if not sp:
            return ('', 0)
        line = LLVMDISubprogramGetLine(sp)
        f = LLVMDIScopeGetFile(sp)
        n = C.c_uint()
        p = LLVMDIFileGetFilename(f, C.byref(n))
        return (C.string_at(p, n.value).decode(errors='replace'), line)

    def _load(self):
        m = self.mod
        refs = []
        b = LLVMGetFirstBasicBlock(self.ref)
        while b:
            refs.append(b)
            b = LLVMGetNextBasicBlock(b)
        bm = {}
        blocks = []
        for i, r in enumerate(refs):
            B = Block()
            B.ref = r
            B.fn = self
            B.idx = i
            B.name = None
            B.insts = []
            B.succs = []
            bm[r] = B
            blocks.append(B)
        im = {}
        for i in range(self.nparams):
            p = LLVMGetParam(self.ref, i)
            v = Val()
            v.ref = p
            v.kind = 'arg'
            v.ty = m.type(LLVMTypeOf(p))
            v.x = i
            im[p] = v
        allinst = []
        for B in blocks:
            r = LLVMGetFirstInstruction(B.ref)
            k = 0
            while r:
                I = Inst()
                I.ref = r
                I.op = OPC.get(LLVMGetInstructionOpcode(r), 'op%d' % LLVMGetInstructionOpcode(r))
                I.ty = m.type(LLVMTypeOf(r))
                I.blk = B
                I.idx = k
                I.uid = r
                I.x = None
                I.line = LLVMGetDebugLocLine(r)
                I.file = None
                im[r] = I
                B.insts.append(I)
                allinst.append(I)
                k += 1
                r = LLVMGetNextInstruction(r)
        self._im = im
        self._bm = bm

        def opnd(v):
            k = VK.get(LLVMGetValueKind(v), '?')
            if k in ('inst', 'arg'):
                return im[v]
            if k == 'bb':
                return bm[LLVMValueAsBasicBlock(v)]
            return m.val(v, k)

        self._opnd = opnd
        for I in allinst:
            r = I.ref
            op = I.op
            if op == 'br':
                n = LLVMGetNumSuccessors(r)
                I.x = [bm[LLVMGetSuccessor(r, i)] for i in range(n)]
                I.ops = [opnd(LLVMGetCondition(r))] if LLVMIsConditional(r) else []
                I.blk.succs = I.x
            elif op == 'switch':
                n = LLVMGetNumOperands(r)
                I.ops = [opnd(LLVMGetOperand(r, 0))]
                d = bm[LLVMValueAsBasicBlock(LLVMGetOperand(r, 1))]
                cases = []
                for i in range(2, n, 2):
                    cases.append((LLVMConstIntGetZExtValue(LLVMGetOperand(r, i)),
                                  bm[LLVMValueAsBasicBlock(LLVMGetOperand(r, i + 1))]))
                I.x = (d, cases)
                I.blk.succs = [d] + [c[1] for c in cases]
            elif op == 'phi':
                n = LLVMCountIncoming(r)
                I.ops = []
                I.x = {bm[LLVMGetIncomingBlock(r, i)]: opnd(LLVMGetIncomingValue(r, i)) for i in range(n)}
            elif op in ('call', 'invoke'):
                n = LLVMGetNumArgOperands(r)
                I.ops = [opnd(LLVMGetOperand(r, i)) if TK.get(LLVMGetTypeKind(LLVMTypeOf(LLVMGetOperand(r, i)))) != 'metadata' else None for i in range(n)]
                cv = LLVMGetCalledValue(r)
                callee = opnd(cv)
                I.x = [callee, None, None]
                if op == 'invoke':
                    I.x[1] = bm[LLVMGetNormalDest(r)]
                    I.x[2] = bm[LLVMGetUnwindDest(r)]
                    I.blk.succs = [I.x[1], I.x[2]]
            else:
                n = LLVMGetNumOperands(r)
                I.ops = [opnd(LLVMGetOperand(r, i)) for i in range(n)]
                if op == 'icmp':
                    I.x = ICMP[LLVMGetICmpPredicate(r)]
                elif op == 'fcmp':
                    I.x = LLVMGetFCmpPredicate(r)
                elif op == 'alloca':
                    I.x = m.type(LLVMGetAllocatedType(r))
                elif op in ('load', 'store'):
                    I.x = ORD.get(LLVMGetOrdering(r), 'na')
                elif op == 'gep':
                    I.x = m.type(LLVMGetGEPSourceElementType(r))
                elif op == 'cmpxchg':
                    I.x = (ORD[LLVMGetCmpXchgSuccessOrdering(r)], ORD[LLVMGetCmpXchgFailureOrdering(r)],
                           bool(LLVMGetWeak(r)))
                elif op == 'atomicrmw':
                    I.x = (RMW[LLVMGetAtomicRMWBinOp(r)], ORD[LLVMGetOrdering(r)])
                elif op == 'fence':
                    I.x = ORD[LLVMGetOrdering(r)]
                elif op in ('extractvalue', 'insertvalue'):
                    n = LLVMGetNumIndices(r)
                    p = LLVMGetIndices(r)
                    I.x = [p[i] for i in range(n)]
                elif op == 'landingpad':
                    n = LLVMGetNumClauses(r)
                    I.x = ([opnd(LLVMGetClause(r, i)) for i in range(n)], bool(LLVMIsCleanup(r)))
        self._blocks = blocks

    def filename(self, I):
        n = C.c_uint()
        s = LLVMGetDebugLocFilename(I.ref, C.byref(n))
        return s[:n.value].decode(errors='replace') if s else ''

    @property
    def loops(self):
        """header Block -> set of Blocks (natural loop, from back edges by dominators)"""
        if self._loops is not None:
            return self._loops
        bs = self.blocks
        n = len(bs)
        preds = [[] for _ in range(n)]
        for b in bs:
            for s in b.succs:
                preds[s.idx].append(b.idx)
        # reachable
        order = []
        seen = set()
        st = [(0, iter(bs[0].succs))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for s in it:
                if s.idx not in seen:
                    seen.add(s.idx)
                    st.append((s.idx, iter(s.succs)))
                    break
            else:
                order.append(u)
                st.pop()
        rpo = order[::-1]
        dom = {u: None for u in rpo}
        full = set(rpo)
        dom = {u: set(full) for u in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for u in rpo:
                if u == 0:
                    continue
                ps = [dom[p] for p in preds[u] if p in full]
                d = set.intersection(*ps) | {u} if ps else {u}
                if d != dom[u]:
                    dom[u] = d
                    ch = True
        loops = {}
        for u in rpo:
            for s in bs[u].succs:
                if s.idx in dom[u]:
                    body = loops.setdefault(s.idx, {s.idx})
                    stack = [u]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(p for p in preds[x] if p in full)
        self._loops = {bs[h]: {bs[i] for i in body} for h, body in loops.items()}
        # irreducible check: any cycle not covered -> flagged by rpo retreating edges whose target does not dominate
        pos = {u: i for i, u in enumerate(rpo)}
        self.irreducible = any(pos[s.idx] <= pos[u] and s.idx not in dom[u] for u in rpo for s in bs[u].succs)
        return self._loops


class Module:
    def __init__(self, path):
        self.ctx = LLVMContextCreate()
        buf = P()
        err = C.c_char_p()
        if LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.ref = m
        self.dl = LLVMGetModuleDataLayout(m)
        self._types = {}
        self._vals = {}
        self.funcs = {}
        self.by_ref = {}
        f = LLVMGetFirstFunction(m)
        while f:
            F = Func(self, f)
            self.funcs[F.name] = F
            self.by_ref[f] = F
            f = LLVMGetNextFunction(f)
        self.globals = {}
        g = LLVMGetFirstGlobal(m)
        while g:
            self.globals[name_of(g)] = g
            g = LLVMGetNextGlobal(g)
        self._dem = {}
        self._demangle_all(list(self.funcs) + list(self.globals))

    def _demangle_all(self, names):
        out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        for a, b in zip(names, out):
            self._dem[a] = b

    def demangle(self, n):
        return self._dem.get(n, n)

    def type(self, ref):
        t = self._types.get(ref)
        if t is None:
            t = self._types[ref] = Type(self, ref)
        return t

    def val(self, ref, kind=None):
        v = self._vals.get(ref)
        if v is None:
            v = Val()
            v.ref = ref
            v.kind = kind or VK.get(LLVMGetValueKind(ref), '?')
            v.ty = self.type(LLVMTypeOf(ref))
            v.x = None
            if v.kind == 'cint':
                v.x = LLVMConstIntGetZExtValue(ref)
            elif v.kind == 'func':
                v.x = self.by_ref[ref]
            elif v.kind == 'alias':
                v.x = LLVMAliasGetAliasee(ref)
            elif v.kind == 'gvar':
                v.x = name_of(ref)
            elif v.kind == 'cexpr':
                op = OPC[LLVMGetConstOpcode(ref)]
                n = LLVMGetNumOperands(ref)
                ops = [self.val(LLVMGetOperand(ref, i)) for i in range(n)]
                x = self.type(LLVMGetGEPSourceElementType(ref)) if op == 'gep' else None
                v.x = (op, ops, x)
            self._vals[ref] = v
        return v
