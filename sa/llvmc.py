"""Thin ctypes loader: LLVM bitcode/IR -> plain Python objects.

The analyzer never executes anything; this module only reads the compiler's intermediate
representation of the harness translation units (which include the headers under /repo)."""
import ctypes as C, sys, os

_L = C.CDLL('libLLVM-18.so.1') if os.path.exists('/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1') else C.CDLL('/usr/lib/llvm-18/lib/libLLVM.so.1')
P = C.c_void_p
def _f(name, res, *args):
    f = getattr(_L, name); f.restype = res; f.argtypes = list(args); return f
u, i, s, sz = C.c_uint, C.c_int, C.c_char_p, C.c_size_t
ContextCreate = _f('LLVMContextCreate', P)
CreateMB = _f('LLVMCreateMemoryBufferWithContentsOfFile', i, s, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f('LLVMParseIRInContext', i, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f('LLVMGetFirstFunction', P, P); NextFn = _f('LLVMGetNextFunction', P, P)
FirstGlobal = _f('LLVMGetFirstGlobal', P, P); NextGlobal = _f('LLVMGetNextGlobal', P, P)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P); NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstI = _f('LLVMGetFirstInstruction', P, P); NextI = _f('LLVMGetNextInstruction', P, P)
GetName = _f('LLVMGetValueName2', C.POINTER(C.c_char), P, C.POINTER(sz))
Opcode = _f('LLVMGetInstructionOpcode', i, P)
NumOps = _f('LLVMGetNumOperands', i, P); Op = _f('LLVMGetOperand', P, P, u)
TypeOf = _f('LLVMTypeOf', P, P); TypeKind = _f('LLVMGetTypeKind', i, P)
IntW = _f('LLVMGetIntTypeWidth', u, P)
Pred = _f('LLVMGetICmpPredicate', i, P)
FPred = _f('LLVMGetFCmpPredicate', i, P)
GEPTy = _f('LLVMGetGEPSourceElementType', P, P)
AllocTy = _f('LLVMGetAllocatedType', P, P)
DataLayout = _f('LLVMGetModuleDataLayout', P, P)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
PtrSize = _f('LLVMPointerSize', C.c_uint, P); ByteOrder = _f('LLVMByteOrder', C.c_int, P)
StoreSize = _f('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
OffOf = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, u)
StructN = _f('LLVMCountStructElementTypes', u, P); StructAt = _f('LLVMStructGetTypeAtIndex', P, P, u)
ElemTy = _f('LLVMGetElementType', P, P); ArrLen = _f('LLVMGetArrayLength', u, P)
ValKind = _f('LLVMGetValueKind', i, P)
ZExt = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
ConstOpcode = _f('LLVMGetConstOpcode', i, P)
Callee = _f('LLVMGetCalledValue', P, P); NumArgs = _f('LLVMGetNumArgOperands', u, P)
CountInc = _f('LLVMCountIncoming', u, P); IncV = _f('LLVMGetIncomingValue', P, P, u); IncB = _f('LLVMGetIncomingBlock', P, P, u)
NumIdx = _f('LLVMGetNumIndices', u, P); Idx = _f('LLVMGetIndices', C.POINTER(u), P)
Init = _f('LLVMGetInitializer', P, P)
IsGConst = _f('LLVMIsGlobalConstant', i, P)
ElemConst = _f('LLVMGetAggregateElement', P, P, u)
GlobTy = _f('LLVMGlobalGetValueType', P, P)
NSW = _f('LLVMGetNSW', i, P); NUW = _f('LLVMGetNUW', i, P)
IsNull = _f('LLVMIsNull', i, P); IsUndef = _f('LLVMIsUndef', i, P); IsPoison = _f('LLVMIsPoison', i, P)
NumParams = _f('LLVMCountParams', u, P); Param = _f('LLVMGetParam', P, P, u)
IsDecl = _f('LLVMIsDeclaration', i, P)
Linkage = _f('LLVMGetLinkage', i, P)
DLine = _f('LLVMGetDebugLocLine', u, P)
DFile = _f('LLVMGetDebugLocFilename', C.POINTER(C.c_char), P, C.POINTER(u))
NumSucc = _f('LLVMGetNumSuccessors', u, P); Succ = _f('LLVMGetSuccessor', P, P, u)
ValAsBB = _f('LLVMValueAsBasicBlock', P, P); ValIsBB = _f('LLVMValueIsBasicBlock', i, P)
RealD = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(i))
TypePrint = _f('LLVMPrintTypeToString', s, P)
ValPrint = _f('LLVMPrintValueToString', s, P)
IsVolatile = _f('LLVMGetVolatile', i, P)
IsThreadLocal = _f('LLVMIsThreadLocal', i, P)
FnTy = _f('LLVMGetCalledFunctionType', P, P)
InBounds = _f('LLVMIsInBounds', i, P)
BBParent = _f('LLVMGetBasicBlockParent', P, P)

OPN = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',68:'freeze',49:'va_arg',61:'cleanupret',62:'catchret',63:'catchpad',64:'cleanuppad',65:'catchswitch'}
PREDN = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}

class Ty:
    __slots__ = ('kind','w','size','elems','offs','n','elem','s')
class GV:
    __slots__ = ('name','ty','size','const','init','ptr','linkage','tls')
class Fn:
    __slots__ = ('name','params','blocks','entry','ptr','decl','retty','linkage','mod','loops','_bbidx','ptys','file','line')
class BB:
    __slots__ = ('idx','instrs','fn','succ','phis')
class Ins:
    __slots__ = ('op','id','ops','ty','x','line','file','fn','flags')
    def loc(self):
        f = self.file
        return '%s:%d' % (f, self.line) if f else '%s:?' % self.fn.name

class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        mb = P(); err = C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(err)): raise RuntimeError(err.value)
        m = P()
        if ParseIR(self.ctx, mb, C.byref(m), C.byref(err)): raise RuntimeError(err.value)
        self.m = m; self.td = DataLayout(m)
        self._ty = {}; self.fns = {}; self.globals = {}; self._byptr = {}
        self.ptrsize = PtrSize(self.td); self.big_endian = ByteOrder(self.td) == 0
        f = FirstFn(m)
        while f:
            fn = Fn(); fn.name = self._name(f); fn.ptr = f; fn.decl = bool(IsDecl(f)); fn.blocks = None; fn.mod = self
            fn.linkage = Linkage(f); fn.loops = None; fn.file = None; fn.line = 0
            self.fns[fn.name] = fn; self._byptr[f] = fn
            f = NextFn(f)
        g = FirstGlobal(m)
        while g:
            v = GV(); v.name = self._name(g); v.ty = None; v.ptr = g; v.const = bool(IsGConst(g)); v.linkage = Linkage(g)
            v.tls = bool(IsThreadLocal(g)); v.size = None
            v.init = None if IsDecl(g) else Init(g)
            self.globals[v.name] = v; self._byptr[g] = v
            g = NextGlobal(g)
    def gsize(self, g):
        if g.size is None: g.size = self.ty(GlobTy(g.ptr)).size
        return g.size
    def _name(self, v):
        n = sz(); p = GetName(v, C.byref(n)); return C.string_at(p, n.value).decode()
    def ty(self, t):
        r = self._ty.get(t)
        if r is not None: return r
        r = Ty(); self._ty[t] = r; k = TypeKind(t); r.elems = r.offs = r.elem = None; r.n = 0; r.w = 0; r.size = 0
        if k == 8: r.kind = 'int'; r.w = IntW(t); r.size = StoreSize(self.td, t)
        elif k in (2, 3): r.kind = 'fp'; r.w = 32 if k == 2 else 64; r.size = r.w//8
        elif k in (1, 4, 5, 6, 18): r.kind = 'fpx'; r.size = ABISize(self.td, t); r.w = r.size*8
        elif k == 12: r.kind = 'ptr'; r.size = ABISize(self.td, t); r.w = r.size*8; self.ptrsize = r.size
        elif k == 10:
            r.kind = 'struct'; r.n = StructN(t)
            r.elems = [self.ty(StructAt(t, j)) for j in range(r.n)]
            r.offs = [OffOf(self.td, t, j) for j in range(r.n)]
            r.size = ABISize(self.td, t)
        elif k == 11:
            r.kind = 'array'; r.n = ArrLen(t); r.elem = self.ty(ElemTy(t)); r.size = ABISize(self.td, t)
        elif k == 0: r.kind = 'void'
        elif k == 9: r.kind = 'func'
        else: r.kind = 'other%d' % k
        r.s = None
        return r
    def body(self, fn):
        if fn.blocks is not None: return fn
        fn.blocks = []; bbidx = {}; regs = {}
        fn.params = []; fn.ptys = []
        for j in range(NumParams(fn.ptr)):
            p = Param(fn.ptr, j); regs[p] = len(regs); fn.params.append(regs[p]); fn.ptys.append(self.ty(TypeOf(p)))
        b = FirstBB(fn.ptr); raw = []
        while b:
            bbidx[b] = len(raw); raw.append(b); b = NextBB(b)
        rawi = []
        for b in raw:
            L = []; x = FirstI(b)
            while x:
                regs[x] = len(regs); L.append(x); x = NextI(x)
            rawi.append(L)
        for bi, L in enumerate(rawi):
            bb = BB(); bb.idx = bi; bb.fn = fn; bb.instrs = []; bb.phis = []; bb.succ = []
            for x in L:
                ins = self._ins(fn, x, regs, bbidx)
                if ins is None: continue
                if ins.op == 'phi': bb.phis.append(ins)
                else: bb.instrs.append(ins)
            t = bb.instrs[-1]
            if t.op == 'br': bb.succ = list(t.x)
            elif t.op == 'switch': bb.succ = [t.x[0]] + [d for _, d in t.x[1]]
            elif t.op == 'invoke': bb.succ = [t.x[2]]   # normal destination only
            fn.blocks.append(bb)
        return fn
    def _val(self, v, regs):
        r = regs.get(v)
        if r is not None: return ('r', r)
        return ('k', self.const(v))
    def const(self, v):
        """constants: ('int',w,val) ('null',) ('undef',w) ('glob',GV,off) ('fn',Fn) ('fp',w,double) ('agg',[...]) ('expr',...)"""
        g = self._byptr.get(v)
        if g is not None: return ('fn', g) if isinstance(g, Fn) else ('glob', g, 0)
        t = self.ty(TypeOf(v)); k = ValKind(v)
        if k == 10 - 0 and False: pass
        if IsUndef(v): return ('undef', t)     # poison is an undef too
        if t.kind == 'int':
            if t.w <= 64:
                if k == 18 or NumOps(v) == 0: return ('int', t.w, ZExt(v))
            elif NumOps(v) == 0:
                sv = C.string_at(C.cast(ValPrint(v), C.c_char_p)).decode() if False else ValPrint(v).decode()
                return ('int', t.w, int(sv.split()[1]) & ((1 << t.w)-1))
        if t.kind == 'fp' and NumOps(v) == 0:
            li = i(); return ('fp', t.w, RealD(v, C.byref(li)))
        if t.kind == 'ptr' and IsNull(v): return ('null',)
        if t.kind == 'ptr' or t.kind == 'int':
            oc = OPN.get(ConstOpcode(v))
            if oc == 'gep':
                base = self.const(Op(v, 0)); off = 0
                ty = self.ty(GEPTy(v)); first = True
                for j in range(1, NumOps(v)):
                    c = self.const(Op(v, j)); idx = c[2]
                    if idx >> (c[1]-1): idx -= 1 << c[1]
                    if first: off += idx*ty.size; first = False
                    elif ty.kind == 'struct': off += ty.offs[idx]; ty = ty.elems[idx]
                    else: ty = ty.elem; off += idx*ty.size
                if base[0] == 'glob': return ('glob', base[1], base[2]+off)
                if base[0] == 'null': return ('int', 64, off)
                return ('cexpr', 'gep', base, off)
            return ('cexpr', oc, [self.const(Op(v, j)) for j in range(NumOps(v))], t)
        if IsNull(v): return ('zero', t)
        if t.kind in ('array', 'struct'):
            n = t.n
            return ('agg', t, [self.const(ElemConst(v, j)) for j in range(n)])
        return ('unk', t)
    def _ins(self, fn, x, regs, bbidx):
        op = OPN.get(Opcode(x), 'op%d' % Opcode(x))
        I = Ins(); I.op = op; I.id = regs[x]; I.fn = fn; I.flags = 0; I.x = None
        I.line = DLine(x); I.file = None
        if I.line:
            n = u(); p = DFile(x, C.byref(n))
            if n.value: I.file = C.string_at(p, n.value).decode()
        I.ty = self.ty(TypeOf(x))
        V = lambda j: self._val(Op(x, j), regs)
        if op == 'br':
            n = NumSucc(x); I.x = [bbidx[Succ(x, j)] for j in range(n)]
            I.ops = [V(0)] if n == 2 else []
        elif op == 'switch':
            n = NumSucc(x); I.ops = [V(0)]
            cases = []
            for j in range(1, n): cases.append((self.const(Op(x, 2*j)), bbidx[Succ(x, j)]))
            I.x = (bbidx[Succ(x, 0)], cases)
        elif op == 'phi':
            I.ops = []; I.x = {bbidx[IncB(x, j)]: self._val(IncV(x, j), regs) for j in range(CountInc(x))}
        elif op in ('call', 'invoke'):
            cv = Callee(x); na = NumArgs(x)
            cal = self._byptr.get(cv)
            I.ops = []
            for j in range(na):
                o = Op(x, j)
                if TypeKind(TypeOf(o)) == 16: I.ops.append(('meta',))
                else: I.ops.append(self._val(o, regs))
            c = ('fn', cal) if isinstance(cal, Fn) else ('ind', self._val(cv, regs) if ValKind(cv) != 26 - 0 else None)
            if op == 'invoke': I.x = (c, None, bbidx[Succ(x, 0)], bbidx[Succ(x, 1)])
            else: I.x = (c,)
            if isinstance(cal, Fn) and cal.name.startswith('llvm.dbg.'): return None
        elif op == 'gep':
            ty = self.ty(GEPTy(x)); steps = []; coff = 0; first = True
            for j in range(1, NumOps(x)):
                o = Op(x, j)
                if first: mul = ty.size; first = False
                elif ty.kind == 'struct':
                    k = ZExt(o); coff += ty.offs[k]; ty = ty.elems[k]; continue
                else: ty = ty.elem; mul = ty.size
                v = self._val(o, regs)
                if v[0] == 'k' and v[1][0] == 'int':
                    val = v[1][2]
                    if val >> (v[1][1]-1): val -= 1 << v[1][1]
                    coff += mul*val
                else: steps.append((v, mul))
            I.ops = [V(0)]; I.x = (coff, steps)
            I.flags = InBounds(x)
        elif op == 'alloca':
            I.ops = [V(0)]; I.x = self.ty(AllocTy(x))
        elif op == 'icmp': I.ops = [V(0), V(1)]; I.x = PREDN[Pred(x)]
        elif op == 'fcmp': I.ops = [V(0), V(1)]; I.x = FPred(x)
        elif op in ('extractvalue', 'insertvalue'):
            n = NumIdx(x); ip = Idx(x); I.x = ([ip[j] for j in range(n)], self.ty(TypeOf(Op(x, 0))))
            I.ops = [V(j) for j in range(NumOps(x))]
        elif op in ('landingpad', 'resume', 'unreachable'): I.ops = []
        elif op == 'store':
            I.ops = [V(0), V(1)]; I.x = self.ty(TypeOf(Op(x, 0))); I.flags = IsVolatile(x)
        elif op == 'load':
            I.ops = [V(0)]; I.flags = IsVolatile(x)
        else:
            I.ops = [V(j) for j in range(NumOps(x))]
            if op in ('add', 'sub', 'mul', 'shl'): I.flags = (1 if NSW(x) else 0) | (2 if NUW(x) else 0)
            if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fptrunc', 'fpext'):
                I.x = self.ty(TypeOf(Op(x, 0)))
        return I
