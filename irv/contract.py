"""Contracts on harness entry points and the verification driver."""
import z3, time, traceback, os, sys, multiprocessing as mp
from .core import *
from .exec import Exec, State, dbg
from .models import Models
from . import algo, strings
from . import ir

class A:
    """argument descriptor"""
    def __init__(s, name, typ, **k): s.name = name; s.typ = typ; s.k = k
def Vec(name, dim, kind, **k): return A(name, 'vec', dim=dim, kind=kind, **k)
def View(name, dim, parent, **k): return A(name, 'view', dim=dim, parent=parent, **k)
def Int(name, kind='u64', **k): return A(name, 'int', kind=kind, **k)
def Flt(name, kind='f64', **k): return A(name, 'fp', kind=kind, **k)
def Bool(name, **k): return A(name, 'bool', **k)
def Str(name, **k): return A(name, 'str', **k)
def Ref(name, kind, **k): return A(name, 'ref', kind=kind, **k)      # reference to scalar

class VI:
    """snapshot of a vec / view / string / scalar"""
    def __init__(s): s.len = None; s.arr = None; s.dims = []; s.target = None; s.val = None; s.kind = None
    def __getitem__(s, k):
        return z3.Select(s.arr, T(k))

class Case:
    def __init__(s, spec): s.spec = spec; s.old = {}; s.new = {}; s.ret = None; s.ptr = {}; s.st0 = None
    def __getattr__(s, n):
        if n in s.__dict__.get('old', {}): return s.old[n]
        raise AttributeError(n)

class Spec:
    def __init__(s, entry, args, post, pre=None, err=None, hints=None, props=None, opts=None, extra_models=None, lemmas=None, doc='', frame=True, ghosts=None, harness=None, on_sort=None, on_part=None):
        s.entry = entry; s.args = args; s.post = post; s.pre = pre; s.err = err; s.hints = hints or []; s.opts = opts or {}
        s.extra = extra_models; s.lemmas = lemmas; s.doc = doc; s.frame = frame; s.ghosts = ghosts; s.harness = harness; s.on_sort = on_sort; s.on_part = on_part

K = z3.Int('k'); J = z3.Int('j')
def forall(f, *vs, pats=None):
    vs = vs or (K,)
    kw = {}
    if pats: kw['patterns'] = [p if isinstance(p, z3.PatternRef) else p for p in pats]
    return z3.ForAll(list(vs), f, **kw)
def inr(k, lo, hi): return z3.And(T(lo) <= k, k < T(hi))
def prod(xs):
    r = 1
    for x in xs: r = mul(r, x)
    return r

def mkvec(ex, st, a):
    D = a.k['dim']; k = KINDS[a.k['kind']]
    o = CellObj(24+8*D+8, a.name)
    dims = []
    for d in range(D):
        t = z3.Int('%s_d%d' % (a.name, d)); st.assume(z3.And(t >= 0, t <= MAXLEN)); dims.append(t)
    ln = z3.Int('%s_n' % a.name) if D > 1 else dims[0]
    arr = z3.Const('%s_a' % a.name, z3.ArraySort(I, k.sort))
    ao = ArrObj(k.size, {0: (k, arr)}, ln, a.name)
    st.assume(z3.And(ln >= 0, ln <= MAXLEN))
    if D > 1: st.assume(ln == prod(dims))
    if D > 2:       # no overflow in partial products of the dimensions (follows from the size unless an extent is zero)
        for q in range(D):
            for r in range(q+2, D+1):
                if r - q < D: st.assume(T(prod(dims[q:r])) <= MAXLEN)
        if D == 3: st.assume(T(mul(dims[0], dims[2])) <= MAXLEN)
    if k.name == 'bool': st.assume(z3.ForAll([K], z3.And(arr[K] >= 0, arr[K] <= 1), patterns=[arr[K]]))
    elif k.w: st.assume(z3.ForAll([K], z3.And(arr[K] >= k.lo, arr[K] <= k.hi), patterns=[arr[K]]))
    if a.k.get('nonempty'): st.assume(ln > 0)
    ai = st.new(ao)
    o.cells[0] = (VecV(ai), 24)
    for d in range(D): o.cells[24+8*d] = (IntV(dims[d], 64, 0, MAXLEN), 8)
    oid = st.new(o); o.cells[24+8*D] = (PtrV(oid), 8)
    return oid, ai
def mkview(ex, st, a, poid, pai):
    """view over the elements of a parent vec: pointers idx[k], 0<=idx[k]<len(parent)"""
    D = a.k['dim']; o = CellObj(8+24+8*D+8, a.name); dims = []
    for d in range(D):
        t = z3.Int('%s_d%d' % (a.name, d)); st.assume(z3.And(t >= 0, t <= MAXLEN)); dims.append(t)
    ln = z3.Int('%s_n' % a.name) if D > 1 else dims[0]
    arr = z3.Const('%s_a' % a.name, z3.ArraySort(I, I)); ao = ArrObj(8, {0: (KINDS['ptr'], arr)}, ln, a.name); ao.target = {0: (pai, 0)}
    st.assume(z3.And(ln >= 0, ln <= MAXLEN))
    if D > 1: st.assume(ln == prod(dims))
    pl = st.objs[pai].len
    st.assume(z3.ForAll([K], z3.Implies(inr(K, 0, ln), z3.And(arr[K] >= 0, arr[K] < T(pl))), patterns=[arr[K]]))
    ai = st.new(ao)
    o.cells[0] = (PtrV(poid), 8); o.cells[8] = (VecV(ai), 24)
    for d in range(D): o.cells[32+8*d] = (IntV(dims[d], 64, 0, MAXLEN), 8)
    oid = st.new(o); o.cells[32+8*D] = (PtrV(oid), 8)
    return oid, ai
def snap(ex, st, a, p):
    v = VI()
    if a.typ in ('vec', 'view'):
        base = 0 if a.typ == 'vec' else 8
        o = st.objs[p.obj]; ao = st.objs[o.cells[base][0].obj]
        v.len = ao.len; v.arr = ao.arr; v.kind = ao.kind; v.obj = o.cells[base][0].obj
        v.target = ao.target.get(0)
        v.dims = [ex.u(st, o.cells[base+24+8*d][0]) for d in range(a.k['dim'])]
        if a.typ == 'view': v.parent = o.cells[0][0]
    elif a.typ == 'str': v.val = ex.getstr(st, p)
    elif a.typ == 'ref':
        c = st.objs[p.obj].cells[0][0]
        k = KINDS[a.k['kind']]
        v.val = ex.canon(st, c, k) if isinstance(c, IntV) else c
    return v

def verify(mod, spec, budget=600):
    """returns dict with obligations and failures"""
    ex = Exec(mod, Models(spec.extra), opts=spec.opts); ex.entry = spec.entry; ex.side = []
    ex.deadline = time.time()+budget; NLX['on'] = bool(spec.opts.get('nlx'))
    res = {'entry': spec.entry, 'doc': spec.doc}
    t0 = time.time()
    try:
        st = State(); c = Case(spec); argv = []
        F = mod.fn(spec.entry)
        if F is None: raise Unsupported('entry %s missing' % spec.entry)
        made = {}
        for a in spec.args:
            if a.typ == 'vec': made[a.name] = mkvec(ex, st, a); p = PtrV(made[a.name][0])
            elif a.typ == 'view':
                po, pa = made[a.k['parent']]; made[a.name] = mkview(ex, st, a, po, pa); p = PtrV(made[a.name][0])
            elif a.typ == 'int':
                k = KINDS[a.k['kind']]; t = z3.Int('arg_' + a.name); st.assume(z3.And(t >= k.lo, t <= k.hi)); p = IntV(t, k.w, k.lo, k.hi)
                v = VI(); v.val = t; c.old[a.name] = v
            elif a.typ == 'fp': p = z3.Const('arg_' + a.name, KINDS[a.k['kind']].sort); v = VI(); v.val = p; c.old[a.name] = v
            elif a.typ == 'bool': p = z3.Bool('arg_' + a.name); v = VI(); v.val = p; c.old[a.name] = v
            elif a.typ == 'str':
                s = z3.Const('arg_' + a.name, STR); st.assume(z3.And(slen(s) >= 0, slen(s) <= MAXLEN))
                st.assume(z3.ForAll([K], z3.And(sch(s, K) >= -128, sch(s, K) <= 127), patterns=[sch(s, K)]))
                o = CellObj(32, a.name); o.cells[0] = (StrV(s), 32); p = PtrV(st.new(o))
            elif a.typ == 'ref':
                k = KINDS[a.k['kind']]; o = CellObj(k.size, a.name); t = z3.Const('arg_' + a.name, k.sort)
                if k.w: st.assume(z3.And(t >= k.lo, t <= k.hi)); o.cells[0] = (IntV(t, k.w, k.lo, k.hi), k.size)
                else: o.cells[0] = (t, k.size)
                p = PtrV(st.new(o))
            c.ptr[a.name] = p; argv.append(p)
            if a.typ in ('vec', 'view', 'str', 'ref'): c.old[a.name] = snap(ex, st, a, p)
        if any(a.k.get('kind') == 'str' or a.typ == 'str' for a in spec.args): st.qpc.append(algo.SAX)
        for ax in (spec.lemmas(c) if spec.lemmas else []): st.assume(ax)
        if spec.ghosts:
            for g in spec.ghosts(c): add_ghost(ex, st, g)
        ex.on_sort = (lambda s, rec: [add_ghost(ex, s, g) for g in spec.on_sort(c, s, rec)]) if spec.on_sort else None
        ex.on_part = (lambda s, rec: [add_ghost(ex, s, g) for g in spec.on_part(c, s, rec)]) if spec.on_part else None
        if spec.pre:
            for f in spec.pre(c): st.assume(T(f))
        # vacuity: the precondition must not be contradictory
        r, m, dt, be = ex.full_unsat(st, z3.BoolVal(True), 3000)
        if r == 'unsat': raise Unsupported('contradictory precondition')
        ex.hints = [(lambda env, h=h: h(c, env)) for h in spec.hints]
        c.st0 = st.clone()
        err = spec.err(c) if spec.err else z3.BoolVal(False)
        err, may = err if isinstance(err, tuple) else (err, err)      # (error required, error allowed)
        err, may = T(err), T(may)
        ex.start(st, spec.entry, argv)
        outs = ex.run(st)
        outs += ex.side
        nret = nerr = 0; reach = 0
        for kind, t in outs:
            t.frames = t.frames or []
            if kind == 'ret':
                nret += 1
                c.new = {a.name: snap(ex, t, a, c.ptr[a.name]) for a in spec.args if a.typ in ('vec', 'view', 'str', 'ref')}
                rv = t.ret; c.rawret = rv
                c.ret = rv
                c.ex = ex; c.st = t
                if spec.err: ex_ob(ex, t, z3.Not(err), 'returns normally only when no error is required')
                for lab, f, *lem in spec.post(c):
                    nf = len(ex.failed); ex_ob(ex, t, T(f), lab)
                    if lem and len(ex.failed) == nf: t.assume(T(f))      # a discharged postcondition may serve the next ones
                fr = spec.frame
                if fr:
                    for a in spec.args:
                        if a.typ in ('vec', 'view') and not a.k.get('out'):
                            o, n = c.old[a.name], c.new[a.name]
                            ex_ob(ex, t, frame_eq(o, n), 'frame: %s unchanged' % a.name)
                r, m, dt, be = ex.full_unsat(t, z3.BoolVal(True), 1500)
                if r != 'unsat': reach += 1
            elif kind == 'error':
                nerr += 1
                if ex.full_unsat(t, z3.BoolVal(True), 500)[0] == 'unsat': continue
                ex_ob(ex, t, may, 'error raised only when required')
            elif kind == 'crash':
                ex_ob(ex, t, z3.BoolVal(False), 'no abnormal termination')
        res.update(status='ok', nret=nret, nerr=nerr, reach=reach)
        if nret and not reach: raise Unsupported('no return path is satisfiable (vacuous)')
        if not nret and not nerr: raise Unsupported('no path reaches an end')
    except Unsupported as e:
        res.update(status='unsupported', reason=str(e)[:500])
        if DEBUGT(): traceback.print_exc()
    except Exception as e:
        res.update(status='unsupported', reason='internal: %s: %s' % (type(e).__name__, str(e)[:300]))
        if DEBUGT(): traceback.print_exc()
    res['obls'] = [(o.name, o.kind, o.ok, round(o.time, 3), o.backend) for o in ex.obls]
    res['failed'] = [dict(name=o.name, goal=o.goal, model=o.model) for o in ex.failed]
    res['time'] = round(time.time()-t0, 2); res['smt_time'] = round(STATS.t, 2); res['queries'] = STATS.q
    res['inlined'] = sorted(ex.inlined); res['trusted'] = sorted(ex.trusted)
    res['loops'] = {'%s/%s' % k: v for k, v in ex.loops_done.items()}
    return res
def add_ghost(ex, st, g):
    for lab, hyp, f in g.goals:
        t = State(); [t.assume(T(x)) for x in st.pc + st.qpc + hyp]
        ex_ob(ex, t, T(f), 'ghost %s: %s' % (g.name, lab), 'lemma')
    for ax in g.axioms: st.assume(T(ax))
def DEBUGT(): return os.environ.get('IRV_DEBUG')
def frame_eq(o, n):
    cs = [T(o.len) == T(n.len)] + [T(a) == T(b) for a, b in zip(o.dims, n.dims)]
    if not o.arr.eq(n.arr):
        cs.append(z3.ForAll([K], z3.Implies(inr(K, 0, o.len), n[K] == o[K]), patterns=[n[K]]))
    return z3.And(cs)
def ex_ob(ex, t, f, lab, kind='postcondition'):
    try: ex.obligation(t.clone(), f, kind, lab)
    except Infeasible: pass
def dims_ok(v):
    """data/dimension agreement"""
    return T(v.len) == T(prod(v.dims))
