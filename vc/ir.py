"""LLVM IR loader (ctypes over the LLVM 18 C API).  Decodes functions lazily into
plain Python objects for the symbolic executor in vc/exec.py."""
import ctypes as C, glob

def _find():
    for p in ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"] + glob.glob("/usr/lib/llvm-*/lib/libLLVM*.so*"):
        try:
            return C.CDLL(p)
        except OSError:
            pass
    raise RuntimeError("no libLLVM")

L = _find()
vp = C.c_void_p
def _d(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f

ContextCreate = _d("LLVMContextCreate", vp)
MemBufFile = _d("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(vp), C.POINTER(C.c_char_p))
ParseIR = _d("LLVMParseIRInContext", C.c_int, vp, vp, C.POINTER(vp), C.POINTER(C.c_char_p))
GetValueName2 = _d("LLVMGetValueName2", vp, vp, C.POINTER(C.c_size_t))
FirstFunction = _d("LLVMGetFirstFunction", vp, vp); NextFunction = _d("LLVMGetNextFunction", vp, vp)
FirstGlobal = _d("LLVMGetFirstGlobal", vp, vp); NextGlobal = _d("LLVMGetNextGlobal", vp, vp)
CountBB = _d("LLVMCountBasicBlocks", C.c_uint, vp)
FirstBB = _d("LLVMGetFirstBasicBlock", vp, vp); NextBB = _d("LLVMGetNextBasicBlock", vp, vp)
FirstI = _d("LLVMGetFirstInstruction", vp, vp); NextI = _d("LLVMGetNextInstruction", vp, vp)
Opcode = _d("LLVMGetInstructionOpcode", C.c_int, vp)
NumOps = _d("LLVMGetNumOperands", C.c_int, vp); Op = _d("LLVMGetOperand", vp, vp, C.c_uint)
TypeOf = _d("LLVMTypeOf", vp, vp); TypeKind = _d("LLVMGetTypeKind", C.c_int, vp)
IntWidth = _d("LLVMGetIntTypeWidth", C.c_uint, vp)
StructN = _d("LLVMCountStructElementTypes", C.c_uint, vp); StructEl = _d("LLVMStructGetTypeAtIndex", vp, vp, C.c_uint)
ArrLen = _d("LLVMGetArrayLength2", C.c_uint64, vp); VecLen = _d("LLVMGetVectorSize", C.c_uint, vp)
ElType = _d("LLVMGetElementType", vp, vp)
StructName = _d("LLVMGetStructName", C.c_char_p, vp)
IsOpaque = _d("LLVMIsOpaqueStruct", C.c_int, vp)
ValueKind = _d("LLVMGetValueKind", C.c_int, vp)
ZExtVal = _d("LLVMConstIntGetZExtValue", C.c_uint64, vp)
PrintVal = _d("LLVMPrintValueToString", C.c_char_p, vp)
ICmpPred = _d("LLVMGetICmpPredicate", C.c_int, vp); FCmpPred = _d("LLVMGetFCmpPredicate", C.c_int, vp)
CalledVal = _d("LLVMGetCalledValue", vp, vp); NumArgOps = _d("LLVMGetNumArgOperands", C.c_uint, vp)
GEPSrc = _d("LLVMGetGEPSourceElementType", vp, vp)
AllocTy = _d("LLVMGetAllocatedType", vp, vp)
NumIdx = _d("LLVMGetNumIndices", C.c_uint, vp); GetIdx = _d("LLVMGetIndices", C.POINTER(C.c_uint), vp)
NormalDest = _d("LLVMGetNormalDest", vp, vp); UnwindDest = _d("LLVMGetUnwindDest", vp, vp)
NumClauses = _d("LLVMGetNumClauses", C.c_uint, vp); GetClause = _d("LLVMGetClause", vp, vp, C.c_uint)
IsCleanup = _d("LLVMIsCleanup", C.c_int, vp)
Initializer = _d("LLVMGetInitializer", vp, vp); IsGConst = _d("LLVMIsGlobalConstant", C.c_int, vp)
GValueType = _d("LLVMGlobalGetValueType", vp, vp)
AggEl = _d("LLVMGetAggregateElement", vp, vp, C.c_uint)
ConstOp = _d("LLVMGetConstOpcode", C.c_int, vp)
DataLayout = _d("LLVMGetModuleDataLayout", vp, vp)
ABISize = _d("LLVMABISizeOfType", C.c_uint64, vp, vp); OffEl = _d("LLVMOffsetOfElement", C.c_uint64, vp, vp, C.c_uint)
CntInc = _d("LLVMCountIncoming", C.c_uint, vp); IncV = _d("LLVMGetIncomingValue", vp, vp, C.c_uint); IncB = _d("LLVMGetIncomingBlock", vp, vp, C.c_uint)
NumParams = _d("LLVMCountParams", C.c_uint, vp); Param = _d("LLVMGetParam", vp, vp, C.c_uint)
BBAsV = _d("LLVMBasicBlockAsValue", vp, vp); VAsBB = _d("LLVMValueAsBasicBlock", vp, vp)
FnType = _d("LLVMGlobalGetValueType", vp, vp); RetType = _d("LLVMGetReturnType", vp, vp)
CallFnType = _d("LLVMGetCalledFunctionType", vp, vp)
AttrKind = _d("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
CSAttr = _d("LLVMGetCallSiteEnumAttribute", vp, vp, C.c_uint, C.c_uint)
EnumAtIdx = _d("LLVMGetEnumAttributeAtIndex", vp, vp, C.c_uint, C.c_uint)
TypeAttrVal = _d("LLVMGetTypeAttributeValue", vp, vp)
RMWOp = _d("LLVMGetAtomicRMWBinOp", C.c_int, vp)
UndefMask = _d("LLVMGetUndefMaskElem", C.c_int); NumMask = _d("LLVMGetNumMaskElements", C.c_uint, vp); MaskVal = _d("LLVMGetMaskValue", C.c_int, vp, C.c_uint)
RealVal = _d("LLVMConstRealGetDouble", C.c_double, vp, C.POINTER(C.c_int))
AliasAliasee = _d("LLVMAliasGetAliasee", vp, vp)
FirstAlias = _d("LLVMGetFirstGlobalAlias", vp, vp); NextAlias = _d("LLVMGetNextGlobalAlias", vp, vp)
HasNSW = _d("LLVMGetNSW", C.c_int, vp)

_cxx = None
for _n in ("libstdc++.so.6", "libc++abi.so.1"):
    try:
        _cxx = C.CDLL(_n); break
    except OSError:
        pass
_dem = _cxx.__cxa_demangle; _dem.restype = vp; _dem.argtypes = [C.c_char_p, vp, vp, C.POINTER(C.c_int)]
_free = C.CDLL(None).free; _free.argtypes = [vp]
def demangle(n):
    st = C.c_int()
    p = _dem(n.encode(), None, None, C.byref(st))
    if not p or st.value != 0: return n
    s = C.string_at(p).decode(); _free(p); return s

def val_name(v):
    n = C.c_size_t(); p = GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode()

OPN = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}

class Type:
    __slots__ = ("kind","w","els","offs","size","n","el","name")
    def __init__(s, kind): s.kind = kind; s.w = 0; s.els = s.offs = s.el = None; s.size = 0; s.n = 0; s.name = None
    def __repr__(s):
        return {"int": f"i{s.w}"}.get(s.kind, f"{s.kind}{s.name or ''}[{s.size}]")

class Instr:
    __slots__ = ("op","id","ty","ops","x","fn","idx")
    def __repr__(s): return f"%{s.id} = {s.op} {s.ops} {s.x}"

class Block:
    __slots__ = ("idx","phis","ins","succs")

class Func:
    def __init__(s, mod, ref):
        s.mod = mod; s.ref = ref; s.name = val_name(ref); s.dname = demangle(s.name)
        s.defined = CountBB(ref) > 0; s._dec = False
    def __repr__(s): return f"<{s.dname}>"
    @property
    def ret_ty(s): return s.mod.type(RetType(FnType(s.ref)))
    def decode(s):
        if s._dec: return s
        s._dec = True
        m = s.mod; ids = {}
        s.params = []; s.param_tys = []
        for i in range(NumParams(s.ref)):
            p = Param(s.ref, i); ids[p] = len(ids); s.params.append(ids[p]); s.param_tys.append(m.type(TypeOf(p)))
        bbs = []; b = FirstBB(s.ref)
        while b: bbs.append(b); b = NextBB(b)
        bidx = {b: i for i, b in enumerate(bbs)}
        raw = []
        for b in bbs:
            l = []; i = FirstI(b)
            while i: ids[i] = len(ids); l.append(i); i = NextI(i)
            raw.append(l)
        s.blocks = []
        byval = m.byval_kind
        def opnd(v):
            k = ValueKind(v)
            if v in ids: return ('l', ids[v])
            return m.const(v)
        for bi, l in enumerate(raw):
            B = Block(); B.idx = bi; B.phis = []; B.ins = []; B.succs = []
            for k, i in enumerate(l):
                I = Instr(); I.op = OPN.get(Opcode(i), f"op{Opcode(i)}"); I.id = ids[i]; I.ty = m.type(TypeOf(i)); I.x = None; I.fn = s; I.idx = (bi, k)
                n = NumOps(i)
                if I.op == 'phi':
                    I.ops = {bidx[IncB(i, j)]: opnd(IncV(i, j)) for j in range(CntInc(i))}
                    B.phis.append(I); continue
                if I.op == 'br':
                    if n == 1: I.ops = []; I.x = [bidx[VAsBB(Op(i, 0))]]
                    else:
                        I.ops = [opnd(Op(i, 0))]; I.x = [bidx[VAsBB(Op(i, 2))], bidx[VAsBB(Op(i, 1))]]
                    B.succs = list(I.x)
                elif I.op == 'switch':
                    I.ops = [opnd(Op(i, 0))]
                    I.x = (bidx[VAsBB(Op(i, 1))], [(ZExtVal(Op(i, j)), bidx[VAsBB(Op(i, j + 1))]) for j in range(2, n, 2)])
                    B.succs = [I.x[0]] + [d for _, d in I.x[1]]
                elif I.op in ('call', 'invoke'):
                    na = NumArgOps(i)
                    I.ops = [opnd(Op(i, j)) for j in range(na)]
                    callee = CalledVal(i)
                    bv = {}
                    for j in range(na):
                        a = CSAttr(i, j + 1, byval)
                        if a: bv[j] = m.type(TypeAttrVal(a)).size
                    tys = [m.type(TypeOf(Op(i, j))) for j in range(na)]
                    if I.op == 'invoke':
                        nd, ud = bidx[NormalDest(i)], bidx[UnwindDest(i)]
                        B.succs = [nd, ud]
                    else: nd = ud = None
                    I.x = (opnd(callee) if callee in ids or ValueKind(callee) != 25 else ('asm',), bv, nd, ud, tys)
                elif I.op == 'alloca':
                    I.ops = [opnd(Op(i, 0))]; I.x = m.type(AllocTy(i))
                elif I.op == 'gep':
                    I.ops = [opnd(Op(i, j)) for j in range(n)]; I.x = m.type(GEPSrc(i))
                elif I.op == 'landingpad':
                    I.ops = []; I.x = ([m.const(GetClause(i, j)) for j in range(NumClauses(i))], bool(IsCleanup(i)))
                elif I.op in ('extractvalue', 'insertvalue'):
                    I.ops = [opnd(Op(i, j)) for j in range(n)]; p = GetIdx(i); I.x = [p[j] for j in range(NumIdx(i))]
                else:
                    I.ops = [opnd(Op(i, j)) for j in range(n)]
                    if I.op == 'icmp': I.x = (PRED[ICmpPred(i)], m.type(TypeOf(Op(i, 0))))
                    elif I.op == 'fcmp': I.x = FCmpPred(i)
                    elif I.op in ('trunc','zext','sext','ptrtoint','inttoptr','bitcast','store','sitofp','uitofp','fptosi','fptoui','fptrunc','fpext'): I.x = m.type(TypeOf(Op(i, 0)))
                    elif I.op == 'atomicrmw': I.x = RMWOp(i)
                    elif I.op == 'shufflevector': I.x = [MaskVal(i, j) for j in range(NumMask(i))]
                    elif I.op in ('add','sub','mul','shl'): I.x = bool(HasNSW(i))
                B.ins.append(I)
            s.blocks.append(B)
        s._loops()
        return s
    def _loops(s):
        """natural loops: header -> set of block indices"""
        n = len(s.blocks); preds = [[] for _ in range(n)]
        for b in s.blocks:
            for t in b.succs: preds[t].append(b.idx)
        # reverse postorder + dominators
        order = []; seen = set(); st = [(0, iter(s.blocks[0].succs))]; seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); st.append((v, iter(s.blocks[v].succs))); break
            else:
                order.append(u); st.pop()
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                if idom.get(b) != x: idom[b] = x; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        s.loops = {}
        for b in rpo:
            for t in s.blocks[b].succs:
                if dom(t, b):
                    body = s.loops.setdefault(t, {t})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x); stack.extend(preds[x])

class Module:
    def __init__(s, path):
        s.ctx = ContextCreate(); buf = vp(); err = C.c_char_p()
        if MemBufFile(path.encode(), C.byref(buf), C.byref(err)): raise RuntimeError(err.value)
        mod = vp()
        if ParseIR(s.ctx, buf, C.byref(mod), C.byref(err)): raise RuntimeError(err.value)
        s.mod = mod; s.td = DataLayout(mod); s._types = {}
        s.byval_kind = AttrKind(b"byval", 5); s.sret_kind = AttrKind(b"sret", 4)
        s.funcs = {}; s.globals = {}
        f = FirstFunction(mod)
        while f:
            F = Func(s, f); s.funcs[F.name] = F; f = NextFunction(f)
        g = FirstGlobal(mod)
        while g: s.globals[val_name(g)] = g; g = NextGlobal(g)
        s.aliases = {}
        a = FirstAlias(mod)
        while a: s.aliases[val_name(a)] = AliasAliasee(a); a = NextAlias(a)
        s._consts = {}
    def find(s, pat):
        import re
        r = re.compile(pat)
        return [f for f in s.funcs.values() if r.search(f.dname)]
    def type(s, t):
        if t in s._types: return s._types[t]
        k = TypeKind(t)
        if k == 0: T = Type('void')
        elif k == 8:
            T = Type('int'); T.w = IntWidth(t); T.size = ABISize(s.td, t)
        elif k == 12:
            T = Type('ptr'); T.size = 8
        elif k in (1, 2, 3, 4, 5):
            T = Type('float'); T.size = ABISize(s.td, t); T.w = T.size * 8
        elif k == 10:
            T = Type('struct'); nm = StructName(t); T.name = nm.decode() if nm else None
            if not IsOpaque(t):
                T.els = [s.type(StructEl(t, i)) for i in range(StructN(t))]
                T.offs = [OffEl(s.td, t, i) for i in range(StructN(t))]; T.size = ABISize(s.td, t)
        elif k == 11:
            T = Type('array'); T.n = ArrLen(t); T.el = s.type(ElType(t)); T.size = ABISize(s.td, t)
        elif k == 13:
            T = Type('vec'); T.n = VecLen(t); T.el = s.type(ElType(t)); T.size = ABISize(s.td, t)
        elif k == 9: T = Type('fn')
        else: T = Type(f'k{k}')
        s._types[t] = T
        return T
    def const(s, v):
        """decode a constant into ('i',int,w) ('null',) ('undef',Type) ('fn',name) ('g',name)
        ('agg',[..],Type) ('expr',op,...)"""
        if v in s._consts: return s._consts[v]
        k = ValueKind(v); T = s.type(TypeOf(v))
        if k == 18:
            if T.w <= 64: r = ('i', ZExtVal(v), T.w)
            else:
                r = ('i', int(PrintVal(v).decode().split()[1]) % (1 << T.w), T.w)
        elif k == 20: r = ('null',)
        elif k in (14, 25, 26): r = ('undef', T)
        elif k == 5: r = ('fn', val_name(v))
        elif k == 8: r = ('g', val_name(v))
        elif k == 6: r = s.const(AliasAliasee(v))
        elif k == 15:
            r = s.zero(T)
        elif k in (11, 12, 13, 16, 17):
            n = len(T.els) if T.kind == 'struct' else T.n
            r = ('agg', [s.const(AggEl(v, i)) for i in range(n)], T)
        elif k == 19:
            lo = C.c_int(); r = ('f', RealVal(v, C.byref(lo)), T.w)
        elif k == 10:
            op = OPN.get(ConstOp(v))
            ops = [s.const(Op(v, i)) for i in range(NumOps(v))]
            x = s.type(GEPSrc(v)) if op == 'gep' else T
            r = ('expr', op, ops, x)
        elif k == 24 or k == 23: r = ('meta',)
        else: r = ('unk', k)
        s._consts[v] = r
        return r
    def zero(s, T):
        if T.kind == 'int': return ('i', 0, T.w)
        if T.kind == 'ptr': return ('null',)
        if T.kind == 'float': return ('f', 0.0, T.w)
        if T.kind == 'struct': return ('agg', [s.zero(e) for e in T.els], T)
        return ('zeroarr', T)
    def global_init(s, name):
        """(initializer const or None, Type, is_const)"""
        g = s.globals[name]
        i = Initializer(g)
        return (s.const(i) if i else None), s.type(GValueType(g)), bool(IsGConst(g))
