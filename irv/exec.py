"""Symbolic executor / verification condition generator over LLVM IR."""
import z3, re, time, sys, os
from .core import *
from . import ir

DEBUG = os.environ.get('IRV_DEBUG')
def dbg(*a):
    if DEBUG: print(*a, file=sys.stderr)

class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'regs', 'dest', 'norm', 'unroll', 'site')
    def copy(s):
        r = Frame(); r.fn = s.fn; r.blk = s.blk; r.prev = s.prev; r.ip = s.ip; r.regs = dict(s.regs); r.dest = s.dest; r.norm = s.norm
        r.unroll = dict(s.unroll); r.site = s.site; return r

def has_ite(t, _c={}):
    k = t.get_id()
    if k in _c: return _c[k][1]
    r = False
    if z3.is_app(t) and t.num_args():
        r = t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or any(has_ite(x) for x in t.children())
    _c[k] = (t, r); return r
def named(st, t):
    """conditional terms are not allowed inside quantifier patterns: name them"""
    if not has_ite(t): return t
    v = fresh('nm', t.sort()); st.assume(v == t); return v
class State:
    def __init__(s):
        s.frames = []; s.objs = {}; s.own = set(); s.pc = []; s.qpc = []; s.log = None; s.pending = None; s.globs = {}; s.ret = None; s.ghost = {}
    def clone(s):
        r = State(); r.frames = [f.copy() for f in s.frames]; r.objs = dict(s.objs); r.own = set(); s.own = set()
        r.pc = list(s.pc); r.qpc = list(s.qpc); r.log = set(s.log) if s.log is not None else None; r.globs = dict(s.globs); r.ghost = dict(s.ghost)
        r.pending = s.pending
        return r
    def w(s, oid):
        """writable object"""
        o = s.objs[oid]
        if oid not in s.own:
            o = o.copy(); s.objs[oid] = o; s.own.add(oid)
        return o
    def new(s, o):
        i = uid(); s.objs[i] = o; s.own.add(i); return i
    def assume(s, c):
        if c is True: return
        if c is False: raise Infeasible()
        if z3.is_and(c):
            for x in c.children(): s.assume(x)
            return
        if has_quant(c): s.qpc.append(c)
        else: s.pc.append(c)
    def lg(s, *e):
        if s.log is not None: s.log.add(e)

class Obl:
    __slots__ = ('name', 'kind', 'ok', 'time', 'backend', 'model', 'fn', 'goal')
    def __init__(s, **k):
        s.model = None; s.goal = None
        for a, b in k.items(): setattr(s, a, b)

class Loop:
    __slots__ = ('depth', 'header', 'body')

class Exec:
    def __init__(self, mod, models, contracts=None, hints=None, opts=None):
        self.mod = mod; self.models = models; self.contracts = contracts or {}; self.hints = hints or []
        self.g = Ground(400*(opts or {}).get('slow', 1)); self.mode = 'on'; self.obls = []; self.failed = []; self.entry = '?'
        self.invcache = {}; self.opts = opts or {}; self.deadline = None; self.loops_done = {}; self.used = {}; self.inlined = set(); self.trusted = set()
        self.bounds = None; self.watch = self.opts.get('watch'); self.maxpaths = self.opts.get('maxpaths', 4000)
        self.npaths = 0
        self.obl_timeout = self.opts.get('timeout', 20000)

    # ---------- solver helpers
    def proves(self, st, c):
        """cheap: ground facts only"""
        if isc(c): return bool(c)
        return self.g.unsat(st.pc, z3.Not(c))
    def feasible(self, st, c=None):
        if c is False: return False
        if c is None or c is True: return not self.g.unsat(st.pc, z3.BoolVal(True))
        return not self.g.unsat(st.pc, c)
    def full_unsat(self, st, neg, timeout, want_model=False):
        t = time.time()
        facts = list(st.pc) + list(st.qpc)
        ms = mul_terms(facts + [neg])
        ax = list(FP.axioms) + FP.qaxioms + (MULCOMM if ms else []) + nl_axioms(ms) + list(self.opts.get('axioms', []))
        if neg is not None and z3.is_not(neg) and z3.is_quantifier(neg.arg(0)):
            # Skolemise the negated goal so that products of Skolem constants get their axiom instances
            neg = skolemize_not(neg.arg(0))
            ms = mul_terms(facts + [neg]); ax = list(FP.axioms) + FP.qaxioms + (MULCOMM if ms else []) + nl_axioms(ms) + list(self.opts.get('axioms', []))
        res = 'unknown'; model = None; be = 'z3-%s' % z3.get_version_string()
        for cfg in ({'mbqi': False}, {'mbqi': False, 'random_seed': 7}, {'mbqi': True}):
            if 'random_seed' in cfg and time.time()-t > 0.4: continue      # gave up early: once more with another seed
            s = z3.SimpleSolver()
            if 'random_seed' in cfg: s.set('random_seed', 7)
            s.set('timeout', int(timeout if cfg['mbqi'] is False else timeout//2))
            s.set('mbqi', cfg['mbqi'])
            if cfg['mbqi'] is False: s.set('auto_config', False)
            s.add(ax); s.add(facts); s.add(neg)
            r = s.check()
            if r == z3.unsat: res = 'unsat'; break
            if r == z3.sat:
                res = 'sat'; model = s.model(); break
            if not want_model and cfg['mbqi'] is False and ('random_seed' in cfg or time.time()-t > 0.4) and not self.opts.get('mbqi_always'):
                break
        dt = time.time()-t; STATS.q += 1; STATS.t += dt
        return res, model, dt, be
    def valid(self, st, c, timeout=4000):
        if isc(c): return bool(c)
        if z3.is_and(c): return all(self.valid(st, x, timeout) for x in c.children())
        if not has_quant(c) and self.proves(st, c): return True
        if not st.qpc and not has_quant(c): return False
        r, m, dt, be = self.full_unsat(st, z3.Not(c), timeout*self.opts.get('slow', 1))
        return r == 'unsat'
    def obligation(self, st, c, kind, what=''):
        """record a proof obligation and afterwards assume it"""
        if c is True:
            if self.mode == 'on': self.obls.append(Obl(name=self.where(st, kind, what), kind=kind, ok=True, time=0.0, backend='simplifier', fn=self.curfn(st)))
            return
        if self.mode == 'on':
            t = time.time(); name = self.where(st, kind, what)
            goals = conjuncts(c)
            ok = True; model = None; be = 'z3-ground'
            for gi in goals:
                if isc(gi):
                    if gi: continue
                    ok = False; break
                if not has_quant(gi) and self.proves(st, gi): continue
                r, m, dt, be = self.full_unsat(st, z3.Not(gi), self.obl_timeout, want_model=True)
                if r != 'unsat':
                    ok = False; model = m; dbg('FAILED', name, gi, r); break
            o = Obl(name=name, kind=kind, ok=ok, time=time.time()-t, backend=be, fn=self.curfn(st))
            if not ok:
                o.goal = str(c)[:2000]; o.model = str(model)[:6000] if model is not None else None
                self.failed.append(o)
            self.obls.append(o)
        if c is False: raise Infeasible()
        st.assume(c)
    def curfn(self, st):
        return st.frames[-1].fn.dem if st.frames else self.entry
    def where(self, st, kind, what):
        f = self.curfn(st)
        return '%s | %s | %s%s' % (self.entry, short(f), kind, (' ' + what) if what else '')

    # ---------- integer helpers
    def u(self, st, v):
        if isc(v.t): return v.t % (1 << v.w)
        M = 1 << v.w
        if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi < M: return v.t
        if self.proves(st, z3.And(v.t >= 0, v.t < M)): return v.t
        if self.proves(st, z3.And(v.t < 0, v.t >= -M)): return add(v.t, M)
        if self.proves(st, z3.And(v.t >= M, v.t < 2*M)): return sub(v.t, M)
        if v.lo is not None and v.hi is not None and v.lo >= -M and v.hi < M: return ite(v.t >= 0, v.t, v.t + M)
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < 2*M: return ite(v.t < M, v.t, v.t - M)
        return T(v.t) % M
    def s(self, st, v):
        M = 1 << v.w; H = M >> 1
        if isc(v.t):
            r = v.t % M
            return r - M if r >= H else r
        if v.lo is not None and v.lo >= -H and v.hi is not None and v.hi < H: return v.t
        if self.proves(st, z3.And(v.t >= -H, v.t < H)): return v.t
        if self.proves(st, z3.And(v.t >= H, v.t < M + H)): return sub(v.t, M)
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < M: return ite(v.t < H, v.t, v.t - M)
        r = T(v.t) % M
        return z3.If(r >= H, r - M, r)
    def canon(self, st, v, kind):
        """canonical value of v for storage with the given kind"""
        return self.s(st, v) if kind.signed else self.u(st, v)

    # ---------- operand evaluation
    def ev(self, st, o):
        k = o.k
        if k == 'r': return st.frames[-1].regs[o.v]
        if k == 'c':
            if o.ty.w == 1: return bool(o.v)
            w = o.ty.w; v = o.v
            if v >= (1 << (w-1)): v -= (1 << w)     # small negative representation
            return IntV(v, w)
        if k == 'f': return FP.const(o.v, 64 if o.ty.k == ir.KDOUBLE else 32)
        if k == 'null': return NULL
        if k == 'undef': return self.undef(o.ty)
        if k == 'zero': return self.zero(o.ty)
        if k == 'fn': return FnV(o.v)
        if k == 'g': return self.glob(st, o.v)
        if k == 'agg': return [self.ev(st, x) for x in o.v]
        if k == 'ce': return self.instr_val(st, o.v)
        raise Unsupported('operand ' + k)
    def undef(self, ty):
        if ty.k == ir.KSTRUCT: return [self.undef(t) for t in ty.elems]
        if ty.k == ir.KARRAY: return [self.undef(ty.elems[0]) for _ in range(ty.n)]
        return UNDEF
    def zero(self, ty):
        if ty.k == ir.KINT: return False if ty.w == 1 else IntV(0, ty.w)
        if ty.k == ir.KPTR: return NULL
        if ty.k == ir.KDOUBLE: return FP.const(0.0, 64)
        if ty.k == ir.KFLOAT: return FP.const(0.0, 32)
        if ty.k == ir.KSTRUCT: return [self.zero(t) for t in ty.elems]
        if ty.k == ir.KARRAY: return [self.zero(ty.elems[0]) for _ in range(ty.n)]
        raise Unsupported('zero')
    def glob(self, st, name):
        if name in st.globs: return PtrV(st.globs[name])
        b = self.mod.gstring(name)
        if b is not None:
            a = z3.K(I, z3.IntVal(0))
            for i, c in enumerate(b): a = z3.Store(a, i, c if c < 128 else c-256)
            o = newarr('i8', len(b), content=a); o.name = 'lit:' + b.rstrip(b'\0').decode('latin1')
        else:
            v = self.mod.globs[name]; ty = self.mod.ty(ir.GlobTy(v)); o = CellObj(ty.size, '@' + name)
            ini = ir.GlobInit(v)
            if ini:
                try: self.put(o, 0, ty, self.ev(st, self.mod.operand(ini, {})))
                except (Unsupported, RuntimeError, TypeError): pass
        i = st.new(o); st.globs[name] = i
        return PtrV(i)
    def put(self, o, off, ty, v):
        if ty.k == ir.KSTRUCT:
            for t, f, x in zip(ty.elems, ty.offs, v): self.put(o, off+f, t, x)
        elif ty.k == ir.KARRAY:
            for j, x in enumerate(v): self.put(o, off + j*ty.elems[0].size, ty.elems[0], x)
        else: o.cells[off] = (v, ty.size)

    # ---------- memory
    def arr_access(self, st, p, o, what):
        if p.gen is not None and p.gen != o.gen: self.obligation(st, False, 'memory', what + ' through a reference invalidated by reallocation')
        if not o.alive: self.obligation(st, False, 'memory', what + ' of released storage')
        c = b_and(cmp('ge', p.idx, 0), cmp('lt', p.idx, o.len))
        self.obligation(st, c, 'memory', '%s within bounds' % what)
    def load(self, st, p, ty):
        if ty.k == ir.KSTRUCT: return [self.load(st, self.padd(p, f), t) for t, f in zip(ty.elems, ty.offs)]
        if ty.k == ir.KARRAY: return [self.load(st, self.padd(p, j*ty.elems[0].size), ty.elems[0]) for j in range(ty.n)]
        if not isinstance(p, PtrV): raise Unsupported('load through %r' % (p,))
        if p.obj is None: self.obligation(st, False, 'memory', 'load from null')
        o = st.objs[p.obj]
        if isinstance(o, CellObj):
            if self.watch: self.watch(self, st, p, 'read')
            c = o.cells.get(p.off)
            if c is None:
                # padding of a local aggregate that is only copied: any use of the value is refused
                if str(o.name).startswith('local') and ty.k == ir.KINT and not any(x < p.off + ty.size and x + y[1] > p.off for x, y in o.cells.items()): return UNDEF
                raise Unsupported('load of uninitialised or unmodelled memory %s+%s' % (o.name, p.off))
            v, sz = c
            if isinstance(v, (VecV, StrV)): raise Unsupported('raw access to container')
            if v is UNDEF: return UNDEF
            if isinstance(v, IntV) and sz < ty.size and ty.k == ir.KINT:
                parts = {q-p.off: y for q, y in o.cells.items() if p.off <= q < p.off+ty.size}
                if all(isinstance(y[0], IntV) and q + y[1] <= ty.size for q, y in parts.items()): return PackV(parts)
            if sz != ty.size and isinstance(v, IntV):
                raise Unsupported('size mismatch')
            if ty.k == ir.KINT and ty.w == 1 and isinstance(v, IntV): return simp(cmp('eq', v.t % 2 if isc(v.t) else T(v.t) % 2, 1))
            if ty.k == ir.KINT and ty.w == 8 and (isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v))): return self.zext(v, 8)
            return v
        if isinstance(o, StrChars):
            s = self.getstr(st, o.ptr)
            self.obligation(st, b_and(cmp('ge', p.idx, 0), cmp('le', p.idx, slen(s))), 'memory', 'string character within bounds')
            t = z3.If(T(p.idx) == slen(s), z3.IntVal(0), sch(s, T(p.idx)))
            st.assume(z3.And(t >= -128, t <= 127))
            return IntV(t, 8, -128, 127)
        self.arr_access(st, p, o, 'read')
        if p.off not in o.comps: raise Unsupported('component')
        k, a = o.comps[p.off]
        t = z3.Select(a, T(p.idx)); ts = z3.simplify(t)
        if k.name == 'ptr':
            if p.off not in o.target: raise Unsupported('unknown pointer target')
            tg = o.target[p.off]
            if tg == 'null': return NULL
            return PtrV(tg[0], tg[1], simp(t), None)
        if k.w is not None:
            if z3.is_int_value(ts): return IntV(ts.as_long(), k.w)
            st.assume(z3.And(t >= k.lo, t <= k.hi))
            if ty.k == ir.KINT and ty.w != k.w: raise Unsupported('width')
            return IntV(t, k.w, k.lo, k.hi)
        return ts
    def store(self, st, p, v, ty):
        if ty is not None and ty.k == ir.KSTRUCT:
            for t, f, x in zip(ty.elems, ty.offs, v): self.store(st, self.padd(p, f), x, t)
            return
        if ty is not None and ty.k == ir.KARRAY:
            for j, x in enumerate(v): self.store(st, self.padd(p, j*ty.elems[0].size), x, ty.elems[0])
            return
        if p.obj is None: self.obligation(st, False, 'memory', 'store to null')
        o = st.objs[p.obj]
        if isinstance(o, CellObj):
            o = st.w(p.obj); sz = ty.size if ty is not None else 8
            st.lg('cell', p.obj, p.off)
            if self.watch: self.watch(self, st, p, 'write')
            for q in [q for q in o.cells if q != p.off and q < p.off+sz and q + o.cells[q][1] > p.off]: del o.cells[q]
            if isinstance(v, PackV):
                o.cells.pop(p.off, None)
                for q, y in v.parts.items(): o.cells[p.off+q] = y
                return
            o.cells[p.off] = (v, sz); return
        if isinstance(o, StrChars):
            s = self.getstr(st, o.ptr)
            self.obligation(st, b_and(cmp('ge', p.idx, 0), cmp('lt', p.idx, slen(s))), 'memory', 'string character within bounds')
            n = fresh('s', STR); kk = z3.Int('k!s')
            st.assume(slen(n) == slen(s))
            st.assume(z3.ForAll([kk], sch(n, kk) == z3.If(kk == T(p.idx), T(self.s(st, v)), sch(s, kk)), patterns=[sch(n, kk)]))
            self.setstr(st, o.ptr, n); return
        self.arr_access(st, p, o, 'write')
        o = st.w(p.obj)
        if p.off not in o.comps: raise Unsupported('component')
        k, a = o.comps[p.off]
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)): v = self.zext(v, 8)
        t = self.storable(st, o, p.off, k, v)
        o.comps[p.off] = (k, z3.Store(a, named(st, T(p.idx)), named(st, T(t)))); st.lg('arr', p.obj, p.off)
    def storable(self, st, o, off, k, v):
        if k.name == 'ptr':
            if v.obj is None:
                raise Unsupported('null in pointer array')
            tg = (v.obj, v.off)
            if o.target.get(off) in (None, 'null'): o.target[off] = tg
            elif o.target[off] != tg: raise Unsupported('pointer array with several targets')
            return v.idx
        if k.w is not None:
            if v is UNDEF: return fresh('undef', I)
            return self.canon(st, v, k)
        if isinstance(v, StrV): return v.s
        return v
    def padd(self, p, n):
        return PtrV(p.obj, p.off + n, p.idx, p.gen)
    def pnorm(self, st, p):
        """fold byte offset of array pointers into index"""
        if p.obj is None: return p
        o = st.objs.get(p.obj)
        if isinstance(o, ArrObj) and not (0 <= p.off < o.esize):
            return PtrV(p.obj, p.off % o.esize, add(p.idx, p.off // o.esize), p.gen)
        if isinstance(o, StrChars) and p.off: return PtrV(p.obj, 0, add(p.idx, p.off), p.gen)
        return p
    def getvec(self, st, p):
        """array object id owned by the std::vector at p"""
        o = st.objs[p.obj]
        if isinstance(o, ArrObj):
            raise Unsupported('vector inside array')
        c = o.cells.get(p.off)
        if c is None or not isinstance(c[0], VecV): raise Unsupported('not a vector at %s+%s' % (o.name, p.off))
        return c[0].obj
    def setvec(self, st, p, oid):
        o = st.w(p.obj); o.cells[p.off] = (VecV(oid), 24); st.lg('vec', p.obj, p.off)
    def getstr(self, st, p):
        o = st.objs[p.obj]
        if isinstance(o, ArrObj):
            self.arr_access(st, p, o, 'string read')
            t = z3.simplify(z3.Select(o.comps[p.off][1], T(p.idx)))
            if t.sort() != STR: raise Unsupported('not a string')
            st.assume(z3.And(slen(t) >= 0, slen(t) <= MAXLEN))
            return t
        c = o.cells.get(p.off)
        if c is None or not isinstance(c[0], StrV): raise Unsupported('not a string at %s+%s' % (o.name, p.off))
        return c[0].s
    def setstr(self, st, p, s):
        o = st.objs[p.obj]
        if isinstance(o, ArrObj):
            self.arr_access(st, p, o, 'string write'); o = st.w(p.obj)
            k, a = o.comps[p.off]; o.comps[p.off] = (k, z3.Store(a, T(p.idx), s)); st.lg('arr', p.obj, p.off)
        else:
            o = st.w(p.obj); o.cells[p.off] = (StrV(s), 32); st.lg('cell', p.obj, p.off)
    def memcpy(self, st, d, s, n):
        if n == 0: return
        so = st.objs[s.obj]; do = st.objs[d.obj]
        if isinstance(so, CellObj) and isinstance(do, CellObj):
            cs = {q: c for q, c in so.cells.items() if s.off <= q < s.off+n}
            do = st.w(d.obj)
            for q in [q for q in do.cells if d.off <= q < d.off+n]: del do.cells[q]; st.lg('cell', d.obj, q)
            for q, c in cs.items():
                if isinstance(c[0], (VecV,)): raise Unsupported('memcpy of container')
                do.cells[q-s.off+d.off] = c; st.lg('cell', d.obj, q-s.off+d.off)
            return
        raise Unsupported('memcpy')

    # ---------- instructions
    def zext(self, b, w):
        if isinstance(b, bool): return IntV(int(b), w)
        return IntV(z3.If(b, z3.IntVal(1), z3.IntVal(0)), w, 0, 1)
    def gep(self, st, p, sty, idx):
        if isinstance(p, IntV): raise Unsupported('gep on int')
        off = p.off; ix = p.idx; ty = sty
        o = st.objs.get(p.obj) if p.obj is not None else None
        first = True
        for v in idx:
            if first: sz = ty.size; first = False; nt = ty
            elif ty.k == ir.KSTRUCT:
                f = v.t % (1 << 32); off += ty.offs[f]; ty = ty.elems[f]; continue
            elif ty.k == ir.KARRAY: sz = ty.elems[0].size; nt = ty.elems[0]
            else: raise Unsupported('gep type')
            t = v.t if isc(v.t) else self.s(st, v)
            if isc(t):
                if isinstance(v.t, int) and v.w < 64: t = self.s(st, v)
                off += t*sz
            else:
                if isinstance(o, ArrObj):
                    if sz % o.esize: raise Unsupported('gep stride')
                    ix = add(ix, mul(t, sz//o.esize))
                elif isinstance(o, StrChars): ix = add(ix, mul(t, sz))
                else:
                    n = ty.n if ty.k == ir.KARRAY else 8
                    for c in range(n):
                        if self.proves(st, T(t) == c): off += c*sz; break
                    else:
                        if n > 8: raise Unsupported('symbolic offset')
                        raise Split([T(t) == c for c in range(n)] + [z3.Or(T(t) < 0, T(t) >= n)])
            ty = nt
        return self.pnorm(st, PtrV(p.obj, off, ix, p.gen))
    def divide(self, st, op, a, b, w):
        sg = op[0] == 's'; f = self.s if sg else self.u
        x, y = f(st, a), f(st, b)
        self.obligation(st, cmp('ne', y, 0), 'arithmetic', 'division by zero')
        rem = op.endswith('rem')
        if isc(x) and isc(y):
            q = abs(x)//abs(y); q = q if (x < 0) == (y < 0) else -q
            return IntV(x - q*y if rem else q, w)
        if not rem:
            if same(x, y) or self.proves(st, T(x) == T(y)): return IntV(1, w)
            if self.proves(st, T(x) == -T(y)): return IntV(-1, w)
        nn = b_and(cmp('ge', x, 0), cmp('gt', y, 0))
        small = b_and(nn, cmp('lt', x, y))
        if self.proves(st, small): return IntV(x, w, a.lo, a.hi) if rem else IntV(0, w)
        if isc(y) and y > 0:
            if self.proves(st, cmp('ge', x, 0)):
                r = T(x) % y if rem else T(x) / y
            else:
                q = z3.If(T(x) >= 0, T(x)/y, -((-T(x))/y)); r = T(x) - q*y if rem else q
            lo, hi = (0, y-1) if rem else (None, None)
            if not rem and a.hi is not None: lo, hi = (0 if self.proves(st, cmp('ge', x, 0)) else -(abs(a.hi)+1)), abs(a.hi)
            if rem and not self.proves(st, cmp('ge', x, 0)): lo = -(y-1)
            return IntV(simp(r), w, lo, hi)
        # symbolic divisor: name quotient and remainder
        if self.proves(st, nn):
            sd = syn_div(x, T(y))
            if sd and self.proves(st, z3.And(T(sd[1]) >= 0, T(sd[1]) < T(y))):
                return IntV(sd[1], w, 0, None) if rem else IntV(sd[0], w, 0, None)
            q, r = self.divmod(st, x, y)
            return IntV(r, w, 0, None) if rem else IntV(q, w, 0, None)
        if sg and self.proves(st, T(y) > 0):
            if self.proves(st, T(x) < 0):
                q, r = self.divmod(st, simp(-T(x)), y); return IntV(simp(-r), w) if rem else IntV(simp(-q), w)
            raise Split([T(x) >= 0, T(x) < 0])
        if sg: raise Split([T(y) > 0, T(y) < 0]) if not self.proves(st, T(y) < 0) else Unsupported('division by a negative unknown')
        raise Unsupported('division by unknown')
    def divmod(self, st, x, y):
        q = QD(T(x), T(y)); r = QM(T(x), T(y))
        m = mul(q, y)
        st.assume(z3.And(T(x) == T(m) + r, r >= 0, r < T(y), q >= 0, q <= T(x)))
        return q, r
    def ibin(self, st, op, a, b, w):
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1:
            if op == 'and': return b_and(a, b)
            if op == 'or': return b_or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isc(b): return b_not(a) if b else a
                if isc(a): return b_not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        def iv(t, lo, hi):
            if not isc(t) and (lo is None or hi is None or lo < -(1 << (w+3)) or hi > (1 << (w+3))):
                r = IntV(t, w, lo, hi)
                return r
            return IntV(t, w, lo, hi)
        if op == 'add':
            lo = a.lo+b.lo if None not in (a.lo, b.lo) else None; hi = a.hi+b.hi if None not in (a.hi, b.hi) else None
            return iv(add(a.t, b.t), lo, hi)
        if op == 'sub':
            lo = a.lo-b.hi if None not in (a.lo, b.hi) else None; hi = a.hi-b.lo if None not in (a.hi, b.lo) else None
            return iv(sub(a.t, b.t), lo, hi)
        if op == 'mul':
            x, y = a.t, b.t
            if not isc(x) and not isc(y):
                for p, q in ((a, b), (b, a)):
                    for c in (0, 1, -1):
                        if self.proves(st, T(p.t) == c):
                            return IntV(mul(c, q.t), w, *(sorted((c*q.lo, c*q.hi)) if None not in (q.lo, q.hi) else (None, None)))
                x, y = self.u(st, a), self.u(st, b)
            t = mul(x, y)
            lo = hi = None
            if None not in (a.lo, a.hi, b.lo, b.hi) and (isc(a.t) or isc(b.t)):
                c = [p*q for p in (a.lo, a.hi) for q in (b.lo, b.hi)]; lo, hi = min(c), max(c)
            return iv(t, lo, hi)
        if op in ('udiv', 'sdiv', 'urem', 'srem'): return self.divide(st, op, a, b, w)
        if op == 'shl' and isc(b.t): return self.ibin(st, 'mul', a, IntV(1 << b.t, w), w)
        if op == 'lshr' and isc(b.t): return self.divide(st, 'udiv', a, IntV(1 << b.t, w, ), w) if b.t < w-1 else IntV(simp(T(self.u(st, a)) / (1 << b.t)), w, 0, 1)
        if op == 'ashr' and isc(b.t): return IntV(simp(T(self.s(st, a)) / (1 << b.t)), w)
        if isc(a.t) and isc(b.t):
            x, y = a.t % (1 << w), b.t % (1 << w)
            return IntV({'and': x & y, 'or': x | y, 'xor': x ^ y}.get(op, 0), w)
        if op == 'and' and isc(b.t) and ((b.t % (1 << w)) & ((b.t % (1 << w))+1)) == 0:
            m = (b.t % (1 << w)) + 1; return IntV(simp(T(self.u(st, a)) % m), w, 0, m-1)
        if op == 'xor' and isc(b.t) and b.t % (1 << w) == (1 << w)-1: return IntV(sub(-1, a.t), w)
        f = z3.Function('bv_%s%d' % (op, w), I, I, I); r = f(T(self.u(st, a)), T(self.u(st, b)))
        st.assume(z3.And(r >= 0, r < (1 << w)))
        return IntV(r, w, 0, (1 << w)-1)
    def icmp(self, st, pred, a, b):
        if isinstance(a, PtrV) or isinstance(b, PtrV) or isinstance(a, FnV) or isinstance(b, FnV):
            if isinstance(a, FnV) or isinstance(b, FnV): return {'eq': False, 'ne': True}[pred]
            if not (isinstance(a, PtrV) and isinstance(b, PtrV)): raise Unsupported('pointer comparison')
            if a.obj != b.obj:
                if pred == 'eq': return False
                if pred == 'ne': return True
                raise Unsupported('ordering of pointers to different objects')
            if a.obj is None: return {'eq': True, 'ne': False}[pred]
            o = st.objs.get(a.obj); es = o.esize if isinstance(o, ArrObj) else 1
            if a.off == b.off: x, y = a.idx, b.idx
            else: x, y = add(mul(a.idx, es), a.off), add(mul(b.idx, es), b.off)
            p = {'eq': 'eq', 'ne': 'ne', 'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge', 'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge'}[pred]
            return self.track(cmp(p, x, y), x, y)
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of undef')
        if isc(a) or isc(b) or (z3.is_expr(a) and z3.is_bool(a)):  # i1
            if pred == 'eq': return simp(T(a) == T(b))
            if pred == 'ne': return simp(T(a) != T(b))
            raise Unsupported('i1 compare')
        M = 1 << a.w
        if pred in ('eq', 'ne'):
            def inr(v, lo, hi): return v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi
            if (inr(a, 0, M-1) and inr(b, 0, M-1)) or (inr(a, -M//2, M//2-1) and inr(b, -M//2, M//2-1)): x, y = a.t, b.t
            else: x, y = self.u(st, a), self.u(st, b)
            return self.track(cmp(pred, x, y), x, y)
        f = self.u if pred[0] == 'u' else self.s
        x, y = f(st, a), f(st, b)
        if pred[0] == 's' and self.bounds is not None: self.signed_terms += [x, y]
        return self.track(cmp(pred[1:], x, y), x, y)
    signed_terms = []
    def track(self, c, x, y):
        if self.bounds is not None: self.bounds.append((x, y))
        return c
    def instr_val(self, st, i):
        op = i.op; ev = self.ev
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = ev(st, i.ops[0]); b = ev(st, i.ops[1])
            if i.ty.k != ir.KINT: raise Unsupported('vector arithmetic')
            if isinstance(a, PackV) and op == 'lshr' and isinstance(b, IntV) and isc(b.t) and b.t % 8 == 0: return PackV({q-b.t//8: y for q, y in a.parts.items() if q >= b.t//8})
            if isinstance(a, PackV) or isinstance(b, PackV): raise Unsupported('arithmetic on a coerced aggregate')
            if isinstance(a, PD) and op == 'sdiv': return self.pdiff_div(st, a, b)
            if isinstance(a, PI) and isinstance(b, PI) and op == 'sub': return self.pdiff(st, a.p, b.p)
            if isinstance(a, PD): a = IntV(a.t(), 64)
            if isinstance(a, (PI, PD)) or isinstance(b, (PI, PD)): raise Unsupported('pointer arithmetic on integers')
            return self.ibin(st, op, a, b, i.ty.w)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return FP.bin(op, ev(st, i.ops[0]), ev(st, i.ops[1]))
        if op == 'fneg': return FP.un('fneg', ev(st, i.ops[0]))
        if op == 'icmp': return self.icmp(st, i.x['pred'], ev(st, i.ops[0]), ev(st, i.ops[1]))
        if op == 'fcmp': return FP.cmp(i.x['pred'], ev(st, i.ops[0]), ev(st, i.ops[1]))
        if op == 'getelementptr':
            return self.gep(st, ev(st, i.ops[0]), i.x['sty'], [ev(st, o) for o in i.ops[1:]])
        if op in ('zext', 'sext', 'trunc'):
            v = ev(st, i.ops[0]); w = i.ty.w
            if v is UNDEF: return UNDEF
            if isinstance(v, PackV):
                if op == 'trunc' and 0 in v.parts and v.parts[0][1]*8 == w: return v.parts[0][0]
                raise Unsupported('conversion of a coerced aggregate')
            if isc(v) or (z3.is_expr(v) and z3.is_bool(v)):
                r = self.zext(v, w)
                return r if op == 'zext' else IntV(sub(0, r.t), w, -1, 0)
            if isinstance(v, PD): v = IntV(v.t(), 64)
            if op == 'zext':
                t = self.u(st, v); return IntV(t, w, 0, min((1 << v.w)-1, v.hi if (v.lo is not None and v.lo >= 0 and v.hi is not None) else (1 << v.w)-1))
            if op == 'sext':
                t = self.s(st, v); H = 1 << (v.w-1)
                lo, hi = -H, H-1
                if v.lo is not None and v.hi is not None and v.lo >= -H and v.hi < H: lo, hi = v.lo, v.hi
                return IntV(t, w, lo, hi)
            if w == 1:
                if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi <= 1:
                    if z3.is_expr(v.t) and z3.is_app(v.t) and v.t.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.t.arg(1)) and z3.is_int_value(v.t.arg(2)):
                        return simp(v.t == 1)
                    return cmp('eq', v.t, 1)
                return simp(T(v.t) % 2 == 1)
            return IntV(v.t, w, v.lo, v.hi)
        if op in ('bitcast', 'freeze', 'addrspacecast'): return ev(st, i.ops[0])
        if op == 'ptrtoint': return PI(ev(st, i.ops[0]))
        if op == 'inttoptr':
            v = ev(st, i.ops[0])
            if isinstance(v, PI): return v.p
            raise Unsupported('inttoptr')
        if op in ('sitofp', 'uitofp'):
            v = ev(st, i.ops[0]); so = F64 if i.ty.k == ir.KDOUBLE else F32
            if isc(v) or (z3.is_expr(v) and z3.is_bool(v)): v = self.zext(v, 8)
            t = self.s(st, v) if op == 'sitofp' else self.u(st, v)
            if isc(t) and abs(t) < (1 << 24): return FP.const(float(t), 64 if so is F64 else 32)
            r = FP.fn('i2f_' + so.name(), I, so)(T(t))
            st.assume(z3.Not(isnan[so.name()](r)))
            st.assume(z3.Implies(z3.And(T(t) >= -(1 << 24), T(t) <= (1 << 24)), ordf[so.name()](r) == z3.ToReal(T(t))))
            return r
        if op in ('fptosi', 'fptoui'):
            v = ev(st, i.ops[0]); w = i.ty.w
            r = FP.fn('f2i_%s_%d%s' % (v.sort().name(), w, op[4]), v.sort(), I)(v)
            lo, hi = (-(1 << (w-1)), (1 << (w-1))-1) if op == 'fptosi' else (0, (1 << w)-1)
            st.assume(z3.And(r >= lo, r <= hi))
            # truncation towards zero when representable
            o = ordf[v.sort().name()](v); fl = z3.ToInt(o); tr = z3.If(o >= 0, fl, -z3.ToInt(-o))
            st.assume(z3.Implies(z3.And(z3.Not(fnan(v)), tr >= lo, tr <= hi), r == tr))
            if w == 1: raise Unsupported('fp to bool')
            return IntV(r, w, lo, hi)
        if op in ('fpext', 'fptrunc'):
            v = ev(st, i.ops[0]); so = F64 if op == 'fpext' else F32
            if v.sort() == so: return v
            r = FP.fn(op, v.sort(), so)(v)
            if op == 'fpext':
                st.assume(z3.And(fnan(r) == fnan(v), ordf[so.name()](r) == ordf[v.sort().name()](v)))
            else: st.assume(z3.Implies(fnan(v), fnan(r)))
            return r
        if op == 'select':
            c = ev(st, i.ops[0]); a = ev(st, i.ops[1]); b = ev(st, i.ops[2])
            return self.select(st, c, a, b)
        if op == 'extractvalue':
            v = ev(st, i.ops[0])
            for j in i.x['idx']: v = v[j]
            return v
        if op == 'insertvalue':
            def ins(a, idx, v):
                a = list(a)
                a[idx[0]] = v if len(idx) == 1 else ins(a[idx[0]], idx[1:], v)
                return a
            return ins(ev(st, i.ops[0]), i.x['idx'], ev(st, i.ops[1]))
        raise Unsupported('instruction ' + op)
    def select(self, st, c, a, b):
        if c is True: return a
        if c is False: return b
        if a is UNDEF and b is UNDEF: return UNDEF
        if isinstance(a, IntV) and isinstance(b, IntV):
            lo = min(a.lo, b.lo) if None not in (a.lo, b.lo) else None; hi = max(a.hi, b.hi) if None not in (a.hi, b.hi) else None
            return IntV(ite(c, a.t, b.t), a.w, lo, hi)
        if isinstance(a, PtrV) and isinstance(b, PtrV) and a.obj == b.obj and a.off == b.off and a.obj is not None: return PtrV(a.obj, a.off, ite(c, a.idx, b.idx), a.gen)
        def sc(x): return isc(x) or (z3.is_expr(x))
        if sc(a) and sc(b): return simp(z3.If(c, T(a), T(b))) if not z3.is_expr(a) or z3.is_bool(T(a)) else z3.If(c, a, b)
        if self.proves(st, c): return a
        if self.proves(st, z3.Not(c)): return b
        raise Split([c, z3.Not(c)])
    def pdiff(self, st, p, q):
        if p.obj is None and q.obj is None: return IntV(0, 64)
        if p.obj != q.obj: raise Unsupported('difference of unrelated pointers')
        o = st.objs[p.obj]; es = o.esize if isinstance(o, ArrObj) else 1
        return PD(sub(p.idx, q.idx), es, p.off-q.off)
    def pdiff_div(self, st, d, b):
        if d.es == b.t and d.rem == 0: return IntV(d.n, 64, -MAXLEN*2, MAXLEN*2)
        if isinstance(d.n, int) and isinstance(b.t, int) and (d.n*d.es+d.rem) % b.t == 0: return IntV((d.n*d.es+d.rem)//b.t, 64)
        raise Unsupported('pointer difference')

    # ---------- control
    def start(self, st, fname, args):
        F = self.mod.fn(fname)
        if F is None: raise Unsupported('no body for ' + fname)
        fr = Frame(); fr.fn = F; fr.blk = F.entry; fr.prev = None; fr.ip = 0; fr.regs = {}; fr.dest = None; fr.norm = None; fr.unroll = {}; fr.site = None
        for (r, ty), a in zip(F.params, args): fr.regs[r] = a
        st.frames.append(fr)
        return st
    def run(self, st, stop=None):
        out = []; work = [st]
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exceeded')
            try:
                nxt = self.step(s, stop, out)
            except Infeasible: continue
            if nxt: work.extend(reversed(nxt))
        return out
    def jump(self, s, target, stop, out):
        """returns list of states to continue"""
        fr = s.frames[-1]
        fr.prev = fr.blk
        if stop is not None and len(s.frames) == stop.depth:
            if target == stop.header:
                self.goto(s, target); out.append(('back', s)); return []
            if target not in stop.body:
                s.pending = target; out.append(('exit', s)); return []
        self.goto(s, target)
        if target in fr.fn.loops: return self.at_header(s, target, stop, out)
        return [s]
    def goto(self, s, target):
        fr = s.frames[-1]; prev = fr.prev
        b = fr.fn.blocks[target]; vals = []; n = 0
        for i in b.ins:
            if i.op != 'phi': break
            n += 1
            for (pb, o) in i.x['inc']:
                if pb == prev: vals.append((i.id, self.ev(s, o))); break
            else: raise Unsupported('phi')
        for k, v in vals: fr.regs[k] = v
        fr.blk = target; fr.ip = n
    def fork(self, s, conds):
        """list of (state, index) for feasible conds"""
        res = []
        feas = []
        for j, c in enumerate(conds):
            if c is False: continue
            if c is True or self.feasible(s, c): feas.append((j, c))
        for n, (j, c) in enumerate(feas):
            t = s if n == len(feas)-1 else s.clone()
            try: t.assume(c)
            except Infeasible: continue
            res.append((t, j))
        self.npaths += max(0, len(res)-1)
        if self.npaths > self.maxpaths: raise Unsupported('path budget exceeded')
        return res
    def step(self, s, stop, out):
        """execute until a control transfer"""
        while True:
            fr = s.frames[-1]; i = fr.fn.blocks[fr.blk].ins[fr.ip]; op = i.op
            try:
                if op == 'br':
                    if not i.ops: return self.jump(s, i.x['succ'][0], stop, out)
                    c = self.ev(s, i.ops[0])
                    if c is UNDEF: raise Unsupported('branch on undef')
                    if isc(c): return self.jump(s, i.x['succ'][0 if c else 1], stop, out)
                    res = []
                    for t, j in self.fork(s, [c, z3.Not(c)]):
                        res += self.tryjump(t, i.x['succ'][j], stop, out)
                    return res
                if op == 'switch':
                    v = self.ev(s, i.ops[0]); conds = []; tg = []
                    for o, b in i.x['cases']:
                        conds.append(simp(self.icmp(s, 'eq', v, self.ev(s, o)))); tg.append(b)
                    conds.append(b_and(*[b_not(c) for c in conds])); tg.append(i.x['default'])
                    res = []
                    for t, j in self.fork(s, conds): res += self.tryjump(t, tg[j], stop, out)
                    return res
                if op == 'ret':
                    v = self.ev(s, i.ops[0]) if i.ops else None
                    return self.do_ret(s, v, stop, out)
                if op == 'unreachable':
                    out.append(('crash', s)); return []
                if op == 'resume': return []
                if op in ('call', 'invoke'):
                    r = self.call(s, i, stop, out)
                    if r is None: continue
                    return r
                if op == 'store':
                    self.store(s, self.ev(s, i.ops[1]), self.ev(s, i.ops[0]), self.sty(i.ops[0], s)); fr.ip += 1; continue
                if op == 'load':
                    v = self.load(s, self.ev(s, i.ops[0]), i.ty); fr.regs[i.id] = v; fr.ip += 1; continue
                if op == 'alloca':
                    n = self.ev(s, i.ops[0]).t; ty = i.x['aty']
                    o = CellObj(ty.size*n, 'local in ' + short(fr.fn.dem)); fr.regs[i.id] = PtrV(s.new(o)); self.prefill(s, o, ty); fr.ip += 1; continue
                if op == 'landingpad': return []
                fr.regs[i.id] = self.instr_val(s, i); fr.ip += 1
            except Split as e:
                return [t for t, j in self.fork(s, e.conds)]
    def prefill(self, s, o, ty, off=0):
        pass
    def tryjump(self, t, tgt, stop, out):
        try: return self.jump(t, tgt, stop, out)
        except Infeasible: return []
    def sty(self, o, s):
        if o.ty is not None: return o.ty
        # register: find type from value
        v = s.frames[-1].regs[o.v]
        return self.regty(s.frames[-1].fn, o.v)
    def regty(self, fn, r):
        if isinstance(r, str): return fn.params[int(r[1:])][1]
        m = getattr(self, '_rt', None)
        if m is None: m = self._rt = {}
        if fn.name not in m:
            m[fn.name] = {i.id: i.ty for b in fn.blocks.values() for i in b.ins}
        return m[fn.name][r]
    def do_ret(self, s, v, stop, out):
        fr = s.frames.pop()
        if not s.frames or fr.dest == 'stop':
            s.ret = v; out.append(('ret', s)); return []
        c = s.frames[-1]
        c.regs[fr.dest] = v
        return self.after_call(s, fr.norm, stop, out)
    def after_call(self, s, norm, stop, out):
        if norm is None:
            s.frames[-1].ip += 1; return [s]
        return self.jump(s, norm, stop, out)
    def call(self, s, i, stop, out):
        fr = s.frames[-1]; cal = i.x['cal']
        norm = i.x.get('norm')
        name = i.x['callee']
        if name is None:
            v = self.ev(s, cal)
            if isinstance(v, FnV): name = v.name
            else: raise Unsupported('indirect call')
        if name.startswith('llvm.'):
            r = self.intrinsic(s, name, i)
            fr.regs[i.id] = r; fr.ip += 1; return None
        dem = self.mod.dem.get(name, name)
        args = [self.ev(s, o) if o.k != 'md' else None for o in i.ops]
        m = self.contracts.get(name) if self.contracts else None
        if m is None: m = self.models.find(name, dem, self)
        if m is not None:
            res = m(self, s, args, dem, i)
            if res is None: res = [(s, None)]
            outs = []
            for t, v in res:
                if t is None: continue
                if isinstance(v, str) and v in ('#error', '#crash'):
                    out.append((v[1:], t)); continue
                if isinstance(v, Tail):       # continue with a real call
                    outs += self.push(t, v.name, v.args, i, norm); continue
                t.frames[-1].regs[i.id] = v
                outs += self.after_call(t, norm, stop, out)
            return outs
        return self.push(s, name, args, i, norm)
    def push(self, s, name, args, i, norm):
        F = self.mod.fn(name)
        if F is None: raise Unsupported('call of external ' + self.mod.dem.get(name, name))
        if len(s.frames) > 60: raise Unsupported('call depth')
        self.inlined.add(F.dem)
        nf = Frame(); nf.fn = F; nf.blk = F.entry; nf.prev = None; nf.ip = 0; nf.regs = {}; nf.dest = i.id if i is not None else 'stop'; nf.norm = norm; nf.unroll = {}
        nf.site = (s.frames[-1].fn.name, i.id) if s.frames and i is not None else None
        for (r, ty), a in zip(F.params, args): nf.regs[r] = a
        s.frames.append(nf)
        return [s]
    def intrinsic(self, s, name, i):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stack')): return None
        ev = self.ev
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, q, n = [ev(s, o) for o in i.ops[:3]]
            if not isc(n.t): raise Unsupported('memcpy of unknown size')
            self.memcpy(s, d, q, n.t); return None
        if name.startswith('llvm.memset'):
            d, v, n = [ev(s, o) for o in i.ops[:3]]
            if isc(n.t) and isc(v.t) and v.t == 0 and isinstance(s.objs[d.obj], CellObj):
                o = s.w(d.obj); self.models.memset0(self, s, o, d, n.t); return None
            raise Unsupported('memset')
        if name.startswith('llvm.expect'): return ev(s, i.ops[0])
        m = re.match(r'llvm\.(fabs|floor|ceil|round|sqrt|trunc|rint|nearbyint|exp|log|sin|cos)\.f(\d+)', name)
        if m:
            v = ev(s, i.ops[0]); return self.models.fpun(self, s, m.group(1), v)
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if m:
            a, b = ev(s, i.ops[0]), ev(s, i.ops[1]); f = self.u if m.group(1)[0] == 'u' else self.s
            x, y = f(s, a), f(s, b); c = cmp('gt' if m.group(1).endswith('max') else 'lt', x, y)
            return IntV(ite(c, x, y), a.w, *( (0, (1 << a.w)-1) if m.group(1)[0] == 'u' else (-(1 << (a.w-1)), (1 << (a.w-1))-1)))
        if name.startswith('llvm.abs.'):
            a = ev(s, i.ops[0]); x = self.s(s, a); return IntV(ite(cmp('ge', x, 0), x, sub(0, x)), a.w, 0, 1 << (a.w-1))
        m = re.match(r'llvm\.(copysign|pow|fma|fmuladd|maxnum|minnum)\.f(\d+)', name)
        if m:
            vs = [ev(s, o) for o in i.ops]
            if m.group(1) == 'fmuladd': return FP.bin('fadd', FP.bin('fmul', vs[0], vs[1]), vs[2])
            so = vs[0].sort(); return FP.fn(m.group(1) + '_' + so.name(), *([so]*(len(vs)+1)))(*vs)
        if name.startswith('llvm.trap'): raise Unsupported('trap')
        raise Unsupported('intrinsic ' + name)

    # ---------- loops
    def at_header(self, s, h, stop, out):
        fr = s.frames[-1]; body = fr.fn.loops[h]
        entry = fr.prev not in body
        if entry: fr.unroll.pop(h, None)
        n = fr.unroll.get(h, 0)
        if n < self.opts.get('unroll', 10) and self.probe(s, h, body):
            fr.unroll[h] = n+1
            return [s]
        res = []
        for t in self.summarize(s, h, body):
            tgt = t.pending; t.pending = None
            # perform the jump in the outer context
            f = t.frames[-1]
            if isinstance(tgt, tuple): res.append(t); continue
            if stop is not None and len(t.frames) == stop.depth:
                if tgt == stop.header:
                    self.goto(t, tgt); out.append(('back', t)); continue
                if tgt not in stop.body:
                    t.pending = tgt; out.append(('exit', t)); continue
            try:
                self.goto(t, tgt)
                if tgt in f.fn.loops: res += self.at_header(t, tgt, stop, out)
                else: res.append(t)
            except Infeasible: pass
        return res
    def probe(self, s, h, body):
        """does the first exit test of this iteration fold to a constant?"""
        t = s.clone(); t.log = None
        save = (self.mode, self.bounds, self.npaths); self.mode = 'dry'; self.bounds = None
        depth = len(t.frames); ok = False; steps = 0
        try:
            while True:
                steps += 1
                if steps > 3000: break
                fr = t.frames[-1]; i = fr.fn.blocks[fr.blk].ins[fr.ip]
                if i.op == 'br' and i.ops:
                    c = self.ev(t, i.ops[0])
                    isexit = len(t.frames) == depth and any(x not in body for x in i.x['succ'])
                    if not isc(c):
                        break
                    if isexit: ok = True; break
                    tgt = i.x['succ'][0 if c else 1]
                elif i.op == 'br': tgt = i.x['succ'][0]
                else:
                    if i.op in ('switch', 'unreachable', 'resume'): break
                    nx = self.step1(t)
                    if nx is None: break
                    t = nx; continue
                if len(t.frames) == depth and (tgt == h or tgt not in body): break
                fr.prev = fr.blk; self.goto(t, tgt)
                if tgt in fr.fn.loops: break
        except (Unsupported, Infeasible, Split): ok = False
        finally: self.mode, self.bounds, self.npaths = save
        return ok
    def step1(self, t):
        """single non-branching instruction; None if forking"""
        fr = t.frames[-1]; i = fr.fn.blocks[fr.blk].ins[fr.ip]
        if i.op == 'ret':
            if len(t.frames) == 1: return None
            v = self.ev(t, i.ops[0]) if i.ops else None
            o = []; r = self.do_ret_np(t, v)
            return r
        if i.op in ('call', 'invoke'):
            o = []
            r = self.call(t, i, None, o)
            if r is None: return t
            return r[0] if len(r) == 1 and not o else None
        if i.op == 'store':
            self.store(t, self.ev(t, i.ops[1]), self.ev(t, i.ops[0]), self.sty(i.ops[0], t)); fr.ip += 1; return t
        if i.op == 'load': fr.regs[i.id] = self.load(t, self.ev(t, i.ops[0]), i.ty); fr.ip += 1; return t
        if i.op == 'alloca': fr.regs[i.id] = PtrV(t.new(CellObj(i.x['aty'].size, ''))); fr.ip += 1; return t
        if i.op == 'landingpad': return None
        fr.regs[i.id] = self.instr_val(t, i); fr.ip += 1; return t
    def do_ret_np(self, t, v):
        fr = t.frames.pop(); c = t.frames[-1]; c.regs[fr.dest] = v
        if fr.norm is None: c.ip += 1
        else:
            c.prev = c.blk; self.goto(t, fr.norm)
            if fr.norm in c.fn.loops: return None
        return t
    def summarize(self, s, h, body):
        from .loops import summarize
        return summarize(self, s, h, body)

class Tail:
    def __init__(s, name, args): s.name = name; s.args = args
class PI:
    def __init__(s, p): s.p = p
class PD:
    """pointer difference: n elements of size es (+rem bytes)"""
    def __init__(s, n, es, rem): s.n = n; s.es = es; s.rem = rem
    def t(s): return add(mul(s.n, s.es), s.rem)

def conjuncts(c):
    if z3.is_expr(c) and z3.is_and(c):
        r = []
        for x in c.children(): r += conjuncts(x)
        return r
    return [c]
def skolemize_not(q):
    """not(forall xs. P) -> not P[sk]"""
    if not q.is_forall(): return z3.Not(q)
    n = q.num_vars(); sk = [fresh('sk_' + q.var_name(j), q.var_sort(j)) for j in range(n)]
    body = z3.substitute_vars(q.body(), *reversed(sk))
    if z3.is_quantifier(body): return skolemize_not(body)
    if z3.is_implies(body) and z3.is_quantifier(body.arg(1)):
        return z3.And(body.arg(0), skolemize_not(body.arg(1)))
    return z3.Not(body)
def short(d):
    """demangled name without template arguments and parameters"""
    q = strip(d)
    return q
_sc = {}
def strip(d):
    if d in _sc: return _sc[d]
    s = d
    s = re.sub(r'operator(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>|\(\))', lambda m: 'operator@' + ''.join('%02x' % ord(c) for c in m.group(1)), s)
    out = []; depth = 0; par = 0
    for c in s:
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif depth == 0:
            if c == '(': par += 1
            if par == 0: out.append(c)
            if c == ')': par -= 1
    r = ''.join(out).strip()
    r = re.sub(r'\s+(const|&|&&)*\s*$', '', r)
    r = re.sub(r'\[abi:\w+\]', '', r)
    r = re.sub(r'^decltype\s*', '', r)
    # drop return type: last space-separated token not being part of "operator X"
    m = re.search(r'(\S*operator\s*(new|delete|\S+)?(\s*\S+)*)$', r)
    if m and 'operator' in r: r = r[max(r.rfind(' ', 0, r.find('operator'))+1, 0):]
    else: r = r.split(' ')[-1]
    r = re.sub(r'@((?:[0-9a-f]{2})+)', lambda m: bytes.fromhex(m.group(1)).decode(), r)
    _sc[d] = r
    return r
def targs(d, cls):
    """template arguments of the first occurrence of cls<...> in d"""
    j = d.find(cls + '<')
    if j < 0: return []
    j += len(cls)+1; depth = 0; cur = ''; res = []
    while j < len(d):
        c = d[j]
        if c in '<({[': depth += 1
        if c in ')}]': depth -= 1
        if c == '>':
            if depth == 0: res.append(cur.strip()); return res
            depth -= 1
        if c == ',' and depth == 0: res.append(cur.strip()); cur = ''
        else: cur += c
        j += 1
    return res
