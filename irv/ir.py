"""LLVM IR access through the LLVM-C API (libLLVM-18) by ctypes.

The module is what clang emits for the real headers; nothing is edited.  Functions are
translated to small Python objects lazily, when the symbolic executor first enters them.
"""
import ctypes, struct, subprocess, re
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_longlong, c_size_t, byref, c_double

_L = ctypes.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")

def _f(name, res, *args):
    f = getattr(_L, name); f.restype = res; f.argtypes = list(args); return f

P = c_void_p
ContextCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, P, P)
ParseIR = _f("LLVMParseIRInContext", c_int, P, P, P, P)
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
NamedFn = _f("LLVMGetNamedFunction", P, P, c_char_p)
ValName = _f("LLVMGetValueName2", P, P, P)
IsDecl = _f("LLVMIsDeclaration", c_int, P)
CountParams = _f("LLVMCountParams", c_uint, P)
GetParam = _f("LLVMGetParam", P, P, c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
BBName = _f("LLVMGetBasicBlockName", c_char_p, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", c_int, P)
NumOps = _f("LLVMGetNumOperands", c_int, P)
GetOp = _f("LLVMGetOperand", P, P, c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", c_uint, P)
StructN = _f("LLVMCountStructElementTypes", c_uint, P)
StructAt = _f("LLVMStructGetTypeAtIndex", P, P, c_uint)
StructName = _f("LLVMGetStructName", c_char_p, P)
ElemType = _f("LLVMGetElementType", P, P)
ArrLen = _f("LLVMGetArrayLength2", c_ulonglong, P)
VecSize = _f("LLVMGetVectorSize", c_uint, P)
ValueKind = _f("LLVMGetValueKind", c_int, P)
IntS = _f("LLVMConstIntGetSExtValue", c_longlong, P)
IntZ = _f("LLVMConstIntGetZExtValue", c_ulonglong, P)
RealD = _f("LLVMConstRealGetDouble", c_double, P, P)
IPred = _f("LLVMGetICmpPredicate", c_int, P)
FPred = _f("LLVMGetFCmpPredicate", c_int, P)
ConstOp = _f("LLVMGetConstOpcode", c_int, P)
GepTy = _f("LLVMGetGEPSourceElementType", P, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
PhiN = _f("LLVMCountIncoming", c_uint, P)
PhiV = _f("LLVMGetIncomingValue", P, P, c_uint)
PhiB = _f("LLVMGetIncomingBlock", P, P, c_uint)
NumSucc = _f("LLVMGetNumSuccessors", c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, c_uint)
IsCond = _f("LLVMIsConditional", c_int, P)
Called = _f("LLVMGetCalledValue", P, P)
NumArgs = _f("LLVMGetNumArgOperands", c_uint, P)
NormDest = _f("LLVMGetNormalDest", P, P)
NIdx = _f("LLVMGetNumIndices", c_uint, P)
Idx = _f("LLVMGetIndices", ctypes.POINTER(c_uint), P)
TD = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", c_ulonglong, P, P)
OffOf = _f("LLVMOffsetOfElement", c_ulonglong, P, P, c_uint)
GlobInit = _f("LLVMGetInitializer", P, P)
IsConstStr = _f("LLVMIsConstantString", c_int, P)
AsStr = _f("LLVMGetAsString", P, P, P)
IsNull = _f("LLVMIsNull", c_int, P)
IsUndef = _f("LLVMIsUndef", c_int, P)
PrintV = _f("LLVMPrintValueToString", P, P)
PrintT = _f("LLVMPrintTypeToString", P, P)
GlobTy = _f("LLVMGlobalGetValueType", P, P)
FnParentName = _f("LLVMGetInstructionParent", P, P)
NSW = _f("LLVMGetNSW", c_int, P)
NUW = _f("LLVMGetNUW", c_int, P)
AggEl = _f("LLVMGetAggregateElement", P, P, c_uint)
DbgLine = _f("LLVMGetDebugLocLine", c_uint, P)
DbgFile = _f("LLVMGetDebugLocFilename", P, P, P)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',
 11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',
 21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'getelementptr',
 30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',
 39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',
 46:'select',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',
 54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',66:'fneg',67:'callbr'}
IP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
# type kinds
KVOID,KHALF,KFLOAT,KDOUBLE,KX86FP80 = 0,1,2,3,4
KLABEL,KINT,KFUNC,KSTRUCT,KARRAY,KPTR,KVECTOR,KMETA = 7,8,9,10,11,12,13,14
# value kinds (llvm-c/Core.h)
VK_ARG,VK_BB,VK_MUSE,VK_MDEF,VK_MPHI,VK_FN,VK_GALIAS,VK_GIFUNC,VK_GVAR,VK_BA,VK_CE,VK_CARR,VK_CSTRUCT,VK_CVEC,VK_UNDEF,VK_CAZ,VK_CDA,VK_CDV,VK_CI,VK_CFP,VK_CPN,VK_CTN,VK_MAV,VK_IASM,VK_INSTR,VK_POISON,VK_CTT = range(27)

class Ty:
    __slots__ = ('k','w','name','elems','n','size','offs','ref')
    def __repr__(s):
        if s.k==KINT: return 'i%d'%s.w
        if s.k==KDOUBLE: return 'double'
        if s.k==KFLOAT: return 'float'
        if s.k==KPTR: return 'ptr'
        if s.k==KVOID: return 'void'
        if s.k==KARRAY: return '[%d x %r]'%(s.n,s.elems[0])
        if s.k==KSTRUCT: return s.name or '{%s}'%','.join(map(repr,s.elems))
        return 'ty%d'%s.k

class Op:
    """operand: kind in r(reg) c(int) f(float) null undef g(global) fn ce agg bb zero md"""
    __slots__=('k','v','ty')
    def __init__(s,k,v,ty): s.k=k; s.v=v; s.ty=ty
    def __repr__(s): return '%s:%r'%(s.k,s.v)

class Ins:
    __slots__=('op','id','ty','ops','x','blk','idx','fn','line')
    def __repr__(s): return '<%s %s>'%(s.op,s.x if s.op!='call' else s.x.get('callee'))

class Blk:
    __slots__=('id','name','ins','succ','preds')

class Fn:
    __slots__=('name','dem','params','blocks','entry','loops','ret','pnames','mod','loophead')

AttrKind = _f("LLVMGetEnumAttributeKindForName", c_uint, c_char_p, c_size_t)
AttrAt = _f("LLVMGetEnumAttributeAtIndex", P, P, c_uint, c_uint)
BYVAL = AttrKind(b'byval', 5)
class Module:
    def __init__(s, path):
        s.ctx = ContextCreate()
        buf = P(); err = P()
        if MemBuf(path.encode(), byref(buf), byref(err)): raise RuntimeError('read '+path)
        m = P()
        if ParseIR(s.ctx, buf, byref(m), byref(err)): raise RuntimeError('parse: '+str(ctypes.string_at(err)))
        s.m = m; s.td = TD(m); s.tys={}; s.fns={}; s.decls={}; s.globs={}
        f = FirstFn(m); names=[]
        while f:
            n = s.vname(f); s.decls[n]=f; names.append(n); f = NextFn(f)
        dem = subprocess.run(['c++filt'],input='\n'.join(names),capture_output=True,text=True).stdout.split('\n')
        s.dem = dict(zip(names,dem))
    def vname(s,v):
        n=c_size_t(); p=ValName(v,byref(n)); return ctypes.string_at(p,n.value).decode()
    def ty(s,t):
        if t in s.tys: return s.tys[t]
        r=Ty(); s.tys[t]=r; r.ref=t; r.k=TypeKind(t); r.w=None;r.name=None;r.elems=None;r.n=None;r.size=None;r.offs=None
        if r.k==KINT: r.w=IntWidth(t); r.size=ABISize(s.td,t)
        elif r.k==KSTRUCT:
            nm=StructName(t); r.name=nm.decode() if nm else None
            n=StructN(t); r.elems=[s.ty(StructAt(t,i)) for i in range(n)]
            try:
                r.size=ABISize(s.td,t); r.offs=[OffOf(s.td,t,i) for i in range(n)]
            except Exception: pass
        elif r.k==KARRAY:
            r.n=ArrLen(t); r.elems=[s.ty(ElemType(t))]; r.size=ABISize(s.td,t)
        elif r.k==KVECTOR:
            r.n=VecSize(t); r.elems=[s.ty(ElemType(t))]; r.size=ABISize(s.td,t)
        elif r.k in (KPTR,KDOUBLE,KFLOAT,KX86FP80): r.size=ABISize(s.td,t)
        return r
    def operand(s,v,regs):
        k=ValueKind(v)
        if k in (VK_INSTR,VK_ARG):
            return Op('r',regs[v] if v in regs else v,None)
        if k in (VK_MAV,): return Op('md',None,None)
        if k==VK_IASM: return Op('asm',None,None)
        if k==VK_BB: return Op('bb',v,None)
        t=s.ty(TypeOf(v))
        if k==VK_CI:
            if t.w<=64: return Op('c',IntZ(v)&((1<<t.w)-1),t)
            txt=ctypes.string_at(PrintV(v)).decode(); return Op('c',int(txt.split()[1])%(1<<t.w),t)
        if k==VK_CFP:
            l=c_int(); d=RealD(v,byref(l)); return Op('f',d,t)
        if k==VK_CPN: return Op('null',None,t)
        if k in (VK_UNDEF,VK_POISON): return Op('undef',None,t)
        if k==VK_FN: return Op('fn',s.vname(v),t)
        if k==VK_GVAR: return Op('g',s.vname(v),t) if s._reg(v) else None
        if k==VK_GALIAS:
            return s.operand(GetOp(v,0),regs)
        if k==VK_CAZ: return Op('zero',None,t)
        if k in (VK_CARR,VK_CSTRUCT,VK_CDA,VK_CDV,VK_CVEC):
            n = t.n if t.k in (KARRAY,KVECTOR) else len(t.elems)
            return Op('agg',[s.operand(AggEl(v,i),regs) for i in range(n)],t)
        if k==VK_CE:
            op=OPC[ConstOp(v)]
            i=Ins(); i.op=op;i.id=None;i.ty=t;i.x={};i.blk=None;i.idx=None;i.fn=None;i.line=0
            i.ops=[s.operand(GetOp(v,j),regs) for j in range(NumOps(v))]
            if op=='getelementptr': i.x['sty']=s.ty(GepTy(v))
            if op=='icmp': i.x['pred']=IP[IPred(v)]
            return Op('ce',i,t)
        raise RuntimeError('operand kind %d'%k)
    def _reg(s,v):
        s.globs[s.vname(v)]=v; return True
    def byval(s,name,k):
        f=s.decls.get(name); return f is not None and bool(AttrAt(f,k+1,BYVAL))
    def fn(s,name):
        if name in s.fns: return s.fns[name]
        f=s.decls.get(name)
        if f is None or IsDecl(f): s.fns[name]=None; return None
        F=Fn(); F.name=name; F.dem=s.dem[name]; F.mod=s; F.blocks={}; F.loops=None
        regs={}; F.params=[]; F.pnames=[]
        for i in range(CountParams(f)):
            p=GetParam(f,i); regs[p]='a%d'%i; F.params.append(('a%d'%i,s.ty(TypeOf(p)))); F.pnames.append(s.vname(p))
        b=FirstBB(f); bl=[]; c=0; bid={}
        while b:
            bid[b]=len(bl); bl.append(b)
            i=FirstI(b)
            while i:
                regs[i]=c; c+=1; i=NextI(i)
            b=NextBB(b)
        for b in bl:
            B=Blk(); B.id=bid[b]; B.name=(BBName(b) or b'').decode(); B.ins=[]; B.preds=[]; B.succ=[]
            i=FirstI(b); k=0
            while i:
                I=Ins(); I.op=OPC[Opcode(i)]; I.id=regs[i]; I.ty=s.ty(TypeOf(i)); I.x={}; I.blk=B.id; I.idx=k; I.fn=F
                ln=0
                try: ln=DbgLine(i)
                except Exception: pass
                I.line=ln
                if I.op=='phi':
                    I.ops=[]; I.x['inc']=[(bid[PhiB(i,j)], s.operand(PhiV(i,j),regs)) for j in range(PhiN(i))]
                elif I.op in ('call','invoke'):
                    cv=Called(i); I.ops=[s.operand(GetOp(i,j),regs) for j in range(NumArgs(i))]
                    co=s.operand(cv,regs); I.x['cal']=co; I.x['callee']=co.v if co.k=='fn' else None
                    if I.op=='invoke': I.x['norm']=bid[NormDest(i)]
                elif I.op=='br':
                    if IsCond(i): I.ops=[s.operand(GetOp(i,0),regs)]
                    else: I.ops=[]
                    I.x['succ']=[bid[Succ(i,j)] for j in range(NumSucc(i))]
                elif I.op=='switch':
                    I.ops=[s.operand(GetOp(i,0),regs)]
                    n=NumSucc(i)
                    I.x['default']=bid[Succ(i,0)]
                    I.x['cases']=[(s.operand(GetOp(i,2*j),regs), bid[Succ(i,j)]) for j in range(1,n)]
                    I.x['succ']=[bid[Succ(i,j)] for j in range(n)]
                else:
                    I.ops=[s.operand(GetOp(i,j),regs) for j in range(NumOps(i))]
                    if I.op=='getelementptr': I.x['sty']=s.ty(GepTy(i))
                    elif I.op=='icmp': I.x['pred']=IP[IPred(i)]
                    elif I.op=='fcmp': I.x['pred']=FP[FPred(i)]
                    elif I.op=='alloca': I.x['aty']=s.ty(AllocTy(i))
                    elif I.op in ('extractvalue','insertvalue'):
                        n=NIdx(i); p=Idx(i); I.x['idx']=[p[j] for j in range(n)]
                B.ins.append(I); k+=1
                i=NextI(i)
            t=B.ins[-1]
            if t.op in ('br','switch'): B.succ=list(dict.fromkeys(t.x['succ']))
            elif t.op=='invoke': B.succ=[t.x['norm']]
            F.blocks[B.id]=B
        for B in F.blocks.values():
            for q in B.succ: F.blocks[q].preds.append(B.id)
        F.entry=bid[bl[0]]
        s.fns[name]=F
        _loops(F)
        return F
    def gstring(s,name):
        v=s.globs[name]; ini=GlobInit(v)
        if not ini: return None
        if ValueKind(ini)==VK_CAZ:
            t=s.ty(TypeOf(ini))
            if t.k==KARRAY: return b'\0'*t.n
            return None
        if ValueKind(ini)==VK_CAZ+1 and IsConstStr(ini):      # constant data array
            n=c_size_t(); p=AsStr(ini,byref(n)); return ctypes.string_at(p,n.value)
        return None

def _loops(F):
    """natural loops: header -> set of blocks"""
    # dominators
    order=[]; seen=set()
    st=[(F.entry,iter(F.blocks[F.entry].succ))]; seen.add(F.entry)
    while st:
        b,it=st[-1]
        for q in it:
            if q not in seen:
                seen.add(q); st.append((q,iter(F.blocks[q].succ))); break
        else:
            order.append(b); st.pop()
    rpo=order[::-1]; num={b:i for i,b in enumerate(rpo)}
    idom={F.entry:F.entry}; ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            ps=[p for p in F.blocks[b].preds if p in idom]
            if not ps: continue
            n=ps[0]
            for p in ps[1:]:
                a=p
                while a!=n:
                    while num[a]>num[n]: a=idom[a]
                    while num[n]>num[a]: n=idom[n]
            if idom.get(b)!=n: idom[b]=n; ch=True
    def dom(a,b):
        while True:
            if a==b: return True
            if b==F.entry: return False
            b=idom[b]
    L={}
    for b in rpo:
        for q in F.blocks[b].succ:
            if q in num and dom(q,b):
                body=L.setdefault(q,{q}); w=[b]
                while w:
                    x=w.pop()
                    if x not in body:
                        body.add(x); w.extend(p for p in F.blocks[x].preds if p in num)
    F.loops=L

def load(path): return Module(path)
