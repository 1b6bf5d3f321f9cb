"""Loop summarisation by inductive invariants (Houdini over candidate templates)."""
import z3, time
from .core import *
from .exec import Loop, dbg, short, QD

class LV:
    """loop-modified variable; name, sort class and accessor in a header state"""
    __slots__ = ('kind', 'key', 'signed', 'ekind')
    def __init__(s, kind, key, signed=False, ekind=None): s.kind = kind; s.key = key; s.signed = signed; s.ekind = ekind
    def __repr__(s): return '%s%s' % (s.kind, s.key)
    def raw(s, st, depth):
        k = s.key
        if k[0] == 'reg': return st.frames[depth-1].regs.get(k[1])
        if k[0] == 'cell':
            o = st.objs[k[1]]; c = o.cells.get(k[2]); return c[0] if c else None
        if k[0] == 'len': return st.objs[k[1]].len
        if k[0] == 'arr': return st.objs[k[1]].comps[k[2]][1]
        if k[0] == 'vlen': return st.objs[st.objs[k[1]].cells[k[2]][0].obj].len
        if k[0] == 'varr': return st.objs[st.objs[k[1]].cells[k[2]][0].obj].comps[0][1]
    def val(s, ex, st, depth):
        v = s.raw(st, depth)
        if s.kind == 'int':
            if isinstance(v, IntV): return ex.s(st, v) if s.signed else ex.u(st, v)
            return v
        if s.kind == 'ptr': return v.idx
        if s.kind == 'str': return v.s
        return v

class Cand:
    __slots__ = ('key', 'f', 'quant', 'prio')
    def __init__(s, key, f, quant=False, prio=0): s.key = key; s.f = f; s.quant = quant; s.prio = prio

def set_raw(st, lv, v, depth):
    k = lv.key
    if k[0] == 'reg': st.frames[depth-1].regs[k[1]] = v
    elif k[0] == 'cell': st.w(k[1]).cells[k[2]] = (v, st.objs[k[1]].cells[k[2]][1])
    elif k[0] == 'len': st.w(k[1]).len = v
    elif k[0] == 'arr':
        o = st.w(k[1]); o.comps[k[2]] = (o.comps[k[2]][0], v)

def havoc(ex, s0, mod, depth, signed):
    """clone of s0 with every location in mod replaced by a fresh unknown; returns state, LVs"""
    st = s0.clone(); st.log = set(); lvs = []
    for m in sorted(mod, key=str):
        if m[0] == 'reg': cur = s0.frames[depth-1].regs.get(m[1])
        elif m[0] == 'cell':
            if m[1] not in s0.objs: continue
            c = s0.objs[m[1]].cells.get(m[2]); cur = c[0] if c else None
            if cur is None: continue        # dead before the loop: written before read each iteration, or unsupported read
        elif m[0] == 'vec':
            c = s0.objs.get(m[1])
            if c is None or m[2] not in c.cells: continue
            oid = c.cells[m[2]][0].obj; o = s0.objs[oid].copy(); o.gen = uid()
            o.len = fresh('hl', I); st.assume(z3.And(o.len >= 0, o.len <= MAXLEN))
            for off, (k, a) in list(o.comps.items()): o.comps[off] = (k, fresh('ha', a.sort()))
            st.w(m[1]).cells[m[2]] = (VecV(st.new(o)), 24)
            lvs.append(LV('int', ('vlen', m[1], m[2]))); lvs.append(LV('arr', ('varr', m[1], m[2]), ekind=o.kind)); continue
        elif m[0] == 'len':
            if m[1] not in s0.objs: continue
            t = fresh('hl', I); st.assume(z3.And(t >= 0, t <= MAXLEN)); st.w(m[1]).len = t
            lvs.append(LV('int', ('len', m[1]))); continue
        elif m[0] == 'arr':
            if m[1] not in s0.objs: continue
            o = st.w(m[1]); k, a = o.comps[m[2]]; o.comps[m[2]] = (k, fresh('ha', a.sort()))
            if k.name == 'ptr' and m[2] in ex_targets(ex): o.target[m[2]] = ex_targets(ex)[m[2]]
            lvs.append(LV('arr', ('arr', m[1], m[2]), ekind=k)); continue
        elif m[0] == 'gen':
            if m[1] in s0.objs: st.w(m[1]).gen = uid()
            continue
        elif m[0] == 'dead':
            if m[1] in s0.objs: st.w(m[1]).alive = False
            continue
        elif m[0] == 'tgt':
            if m[1] in s0.objs: st.w(m[1]).target[m[2]] = m[3]
            continue
        else: raise Unsupported('havoc ' + str(m))
        if isinstance(cur, IntV):
            sg = signed.get(m, cur.w <= 32)
            t = fresh('h%s' % m[1] if m[0] == 'reg' else 'hc', I); w = cur.w
            lo, hi = (-(1 << (w-1)), (1 << (w-1))-1) if sg else (0, (1 << w)-1)
            st.assume(z3.And(t >= lo, t <= hi)); lv = LV('int', m, sg); set_raw(st, lv, IntV(t, w, lo, hi), depth); lvs.append(lv)
        elif isinstance(cur, PtrV):
            if cur.obj is None or not isinstance(s0.objs.get(cur.obj), (ArrObj, StrChars)):
                lv = LV('cptr', m); lvs.append(lv)      # must stay constant: checked at back edges
                continue
            t = fresh('hp', I); st.assume(z3.And(t >= -MAXLEN, t <= MAXLEN)); lv = LV('ptr', m); set_raw(st, lv, PtrV(cur.obj, cur.off, t, st.objs[cur.obj].gen if isinstance(st.objs[cur.obj], ArrObj) else None), depth); lvs.append(lv)
        elif isinstance(cur, bool) or (z3.is_expr(cur) and z3.is_bool(cur)):
            lv = LV('bool', m); set_raw(st, lv, fresh('hb', z3.BoolSort()), depth); lvs.append(lv)
        elif z3.is_expr(cur):
            lv = LV('fp', m); set_raw(st, lv, fresh('hf', cur.sort()), depth); lvs.append(lv)
        elif isinstance(cur, StrV):
            t = fresh('hs', STR); st.assume(z3.And(slen(t) >= 0, slen(t) <= MAXLEN)); lv = LV('str', m); set_raw(st, lv, StrV(t), depth); lvs.append(lv)
        elif cur is UNDEF or cur is None:
            if m[0] == 'reg': set_raw(st, LV('x', m), UNDEF, depth)
        else: raise Unsupported('havoc of %r' % (cur,))
    return st, lvs
def ex_targets(ex): return getattr(ex, '_tgts', {})

def term_vars(t, _c={}):
    if isc(t): return frozenset()
    k = t.get_id()
    if k in _c: return _c[k][1]
    r = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(x.decl().name())
        st.extend(x.children())
    r = frozenset(r); _c[k] = (t, r)
    return r

def summarize(ex, s0, h, body):
    fr = s0.frames[-1]; depth = len(s0.frames); fn = fr.fn
    lp = Loop(); lp.depth = depth; lp.header = h; lp.body = body
    ctx = (tuple((f.fn.name, f.site) for f in s0.frames), h)
    outer_log = s0.log
    mode = ex.mode; bounds = ex.bounds
    phis = [i.id for i in fn.blocks[h].ins if i.op == 'phi']
    # registers defined in the body are recomputed in every iteration; only phis carry state
    mod = {('reg', r) for r in phis}
    signed = {}
    # --- modified set
    btrack = []
    ex.mode = 'dry'
    try:
        for rnd in range(8):
            hs, lvs = havoc(ex, s0, mod, depth, signed)
            symsg = {}
            ex.bounds = []; ex.signed_terms = []
            np = ex.npaths
            outs = ex.run(hs, lp)
            ex.npaths = np
            btrack = ex.bounds; sgt = ex.signed_terms
            new = set()
            for kind, t in outs:
                if kind != 'back': continue
                for e in t.log:
                    if e[0] in ('cell', 'vec', 'arr', 'len', 'gen', 'dead') and e[1] in s0.objs: new.add(e)
            # pointer arrays: learn their target
            for kind, t in outs:
                if kind != 'back': continue
                for e in list(new):
                    if e[0] == 'arr' and s0.objs[e[1]].comps[e[2]][0].name == 'ptr':
                        tg = t.objs[e[1]].target.get(e[2])
                        if tg is not None and tg != s0.objs[e[1]].target.get(e[2]):
                            if isinstance(tg, tuple) and tg[0] not in s0.objs: raise Unsupported('pointer to loop-local object')
                            new.add(('tgt', e[1], e[2], tg))
            if new <= mod: break
            mod |= new
        else: raise Unsupported('modified set does not stabilise')
        # signedness of 64 bit counters: compared with a signed predicate in the body
        svars = set()
        for t in sgt: svars |= term_vars(t)
        hs, lvs = havoc(ex, s0, mod, depth, signed)
        ex.bounds = []; ex.signed_terms = []
        names = {}
        for lv in lvs:
            if lv.kind == 'int' and lv.key[0] in ('reg', 'cell'):
                names[str(lv.raw(hs, depth).t)] = lv
        np = ex.npaths
        outs = ex.run(hs, lp)
        ex.npaths = np
        btrack = ex.bounds
        for t in ex.signed_terms:
            for n in term_vars(t):
                if n in names: signed[names[n].key] = True
        # check that never-changing pointers do not change, objects keep kind
        for kind, t in outs:
            if kind != 'back': continue
            for lv in lvs:
                if lv.kind == 'cptr':
                    a, b = lv.raw(s0, depth), lv.raw(t, depth)
                    if not (isinstance(b, PtrV) and a.obj == b.obj and a.off == b.off and same(a.idx, b.idx)): raise Unsupported('pointer variable changes object in loop')
                if lv.kind == 'ptr':
                    a, b = lv.raw(s0, depth), lv.raw(t, depth)
                    if not (isinstance(b, PtrV) and a.obj == b.obj and a.off == b.off): raise Unsupported('pointer variable changes object in loop')
    finally:
        ex.mode = mode; ex.bounds = bounds
    if mode == 'dry':
        hs, lvs = havoc(ex, s0, mod, depth, signed)
        if outer_log is not None: hs.log |= outer_log
        hs.log |= {m for m in mod if m[0] not in ('reg', 'tgt')}
        return [t for k, t in ex.run(hs, lp) if k == 'exit']
    # --- candidates
    hs, lvs = havoc(ex, s0, mod, depth, signed)
    cands = gen_cands(ex, s0, hs, lvs, depth, btrack, ctx)
    t0 = time.time()
    entry = s0.clone()
    alive = []
    for c in cands:
        try: f = c.f(entry)
        except (KeyError, AttributeError, TypeError) as e: continue
        if f is None: continue
        if isc(f):
            if f: alive.append(c)
            continue
        if ex.valid(entry, f, 1500): alive.append(c)
    dbg('loop %s/%s: %d/%d candidates hold on entry (%.1fs)' % (short(fn.dem), fn.blocks[h].name, len(alive), len(cands), time.time()-t0))
    def assume_all(st, cs):
        for c in cs:
            f = c.f(st)
            if f is not None: st.assume(f)
    ex.mode = 'quiet'
    try:
        for phase in (0, 1):
            while True:
                hst = hs.clone(); hst.log = None
                use = alive
                assume_all(hst, use)
                np = ex.npaths; sv = ex.bounds; ex.bounds = None
                outs = ex.run(hst, lp)
                ex.npaths = np; ex.bounds = sv
                backs = [t for k, t in outs if k == 'back']
                drop = set()
                for c in alive:
                    if c.quant != (phase == 1): continue
                    for t in backs:
                        f = c.f(t)
                        if f is None or not ex.valid(t, f, 3000 if not c.quant else 6000):
                            if DUMP and DUMP in str(c.key): dump(ex, t, f)
                            drop.add(c.key); break
                if not drop: break
                dbg("  phase %d drop %d: %s" % (phase, len(drop), sorted(map(str,drop))))
                alive = [c for c in alive if c.key not in drop]
            # after quantified candidates were dropped ground ones may fail: re-run phase 0 at the end
        while True:
            hst = hs.clone(); hst.log = None; assume_all(hst, alive)
            np = ex.npaths; sv = ex.bounds; ex.bounds = None; outs = ex.run(hst, lp); ex.npaths = np; ex.bounds = sv
            backs = [t for k, t in outs if k == 'back']
            drop = set()
            for c in alive:
                for t in backs:
                    f = c.f(t)
                    if f is None or not ex.valid(t, f, 8000): drop.add(c.key); break
            if not drop: break
            alive = [c for c in alive if c.key not in drop]
    finally: ex.mode = mode
    if mode == 'on': ex.loops_done[(fn.dem, fn.blocks[h].name)] = [str(c.key) for c in alive]
    dbg('loop %s/%s: invariants (%.1fs): %s' % (short(fn.dem), fn.blocks[h].name, time.time()-t0, [c.key for c in alive]))
    if mode == 'on':
        from .exec import Obl
        terminate(ex, fn, h, lvs, hst, backs, depth)
        for c in alive: ex.obls.append(Obl(name='%s | %s | loop invariant %s' % (ex.entry, short(fn.dem), c.key), kind='invariant', ok=True, time=0.0, backend='z3', fn=fn.dem))
    fin = hs.clone(); fin.log = set(outer_log) if outer_log is not None else None
    if fin.log is not None: fin.log |= {m for m in mod if m[0] not in ('reg', 'tgt')}
    assume_all(fin, alive)
    sv = ex.bounds; ex.bounds = None
    outs = ex.run(fin, lp)
    ex.bounds = sv
    res = []
    for k, t in outs:
        if k == 'exit': res.append(t)
        elif k in ('error', 'crash'): ex.side.append((k, t))
    return res

NP_ = (1 << 64) - 1
def terminate(ex, fn, h, lvs, hst, backs, depth):
    """a bounded integer measure changes strictly in one direction along every way back to the loop head"""
    from .exec import Obl
    import time as _t
    t0 = _t.time(); V = lambda lv, st: T(lv.val(ex, st, depth))
    ints = [lv for lv in lvs if lv.kind in ('int', 'ptr')]; strs = [lv for lv in lvs if lv.kind == 'str']
    grow = lambda lv: lv.kind == 'int' and lv.key[0] in ('len', 'vlen')
    ms = []
    for lv in ints:
        if not grow(lv): ms.append((str(lv) + ' increases', lambda st, lv=lv: -V(lv, st)))
    for lv in ints: ms.append((str(lv) + ' decreases', lambda st, lv=lv: V(lv, st)))
    for lv in ints:
        if lv.kind == 'int' and not grow(lv): ms.append((str(lv) + ' decreases to the not-found value', lambda st, lv=lv: z3.If(V(lv, st) == NP_, 0, V(lv, st) + 1)))
    for r in strs: ms.append(('length of %s decreases' % r, lambda st, r=r: slen(V(r, st))))
    for r in strs:
        for lv in ints:
            if not grow(lv): ms.append(('length of %s minus %s decreases' % (r, lv), lambda st, r=r, lv=lv: slen(V(r, st)) - V(lv, st)))
    for a in ints:
        for b in ints:
            if a is not b and not grow(b): ms.append(('%s - %s decreases' % (a, b), lambda st, a=a, b=b: V(a, st) - V(b, st)))
    found = None
    if not backs: found = 'no iteration is repeated'
    def const(m):
        try: ds = [z3.simplify(m(t) - m(hst)) for t in backs]
        except Exception: return None
        return all(z3.is_int_value(d) for d in ds) and all(d.as_long() < 0 for d in ds)
    for lab, m in ms:       # counters: the difference is a constant
        if found: break
        if const(m): found = lab
    for lab, m in ms[:40]:
        if found or _t.time() > ex.deadline: break
        try: m0 = m(hst)
        except Exception: continue
        ok = True
        for t in backs:
            f = m(t) < m0
            if not ex.valid(t, f, 3000 if ex.opts.get('terminates') else 800): ok = False; break
        if ok: found = lab
    o = Obl(name='%s | %s | termination of loop %s: %s' % (ex.entry, short(fn.dem), fn.blocks[h].name, found), kind='termination', ok=bool(found), time=_t.time()-t0, backend='z3', fn=fn.dem)
    if found or ex.opts.get('terminates'): ex.obls.append(o)
    if not found:
        dbg('NOTERM %s %s' % (short(fn.dem), fn.blocks[h].name))
        if ex.opts.get('terminates'): o.goal = 'no measure found'; o.model = None; ex.failed.append(o)
def gen_cands(ex, s0, hs, lvs, depth, btrack, ctx):
    out = []; seen = set()
    def add_c(key, f, quant=False):
        if key in seen: return
        seen.add(key); out.append(Cand(key, f, quant))
    ints = [lv for lv in lvs if lv.kind in ('int', 'ptr')]
    arrs = [lv for lv in lvs if lv.kind == 'arr']
    hv = set()
    for lv in lvs:
        v = lv.raw(hs, depth)
        t = v.t if isinstance(v, IntV) else v.idx if isinstance(v, PtrV) else v.s if isinstance(v, StrV) else v
        if z3.is_expr(t): hv |= term_vars(t)
    # reference terms: loop-invariant operands of comparisons evaluated in the body
    refs = []; rid = set()
    def ref(t):
        t = simp(t) if not isc(t) else t
        k = t if isc(t) else t.get_id()
        if k in rid: return
        if not isc(t) and term_vars(t) & hv: return
        if not isc(t) and len(term_vars(t)) > 6: return
        rid.add(k); refs.append(t)
    ref(0)
    for x, y in btrack: ref(x); ref(y)
    for oid, o in s0.objs.items():
        if isinstance(o, ArrObj) and o.alive and not (o.name or '').startswith('lit:'): ref(o.len)
    refs = refs[:24]
    V = lambda lv, st: lv.val(ex, st, depth)
    for lv in ints:
        e = V(lv, s0)
        add_c(('>=e', str(lv)), lambda st, lv=lv, e=e: cmp('ge', V(lv, st), e))
        add_c(('<=e', str(lv)), lambda st, lv=lv, e=e: cmp('le', V(lv, st), e))
        if lv.kind == 'int' and lv.key[0] in ('reg', 'cell') and NP_ in rid: add_c(('<=e or npos', str(lv)), lambda st, lv=lv, e=e: z3.Or(T(V(lv, st)) == NP_, T(V(lv, st)) <= T(e)))
        for n, r in enumerate(refs):
            rs = str(r)
            add_c(('<=', str(lv), rs), lambda st, lv=lv, r=r: cmp('le', V(lv, st), r))
            add_c(('>=', str(lv), rs), lambda st, lv=lv, r=r: cmp('ge', V(lv, st), r))
    lean = ex.opts.get('lean')
    for i1 in range(len(ints) if not lean else 0):
        for i2 in range(len(ints)):
            if i1 == i2: continue
            a, b = ints[i1], ints[i2]; ea, eb = V(a, s0), V(b, s0)
            if i1 < i2:
                add_c(('diff', str(a), str(b)), lambda st, a=a, b=b, ea=ea, eb=eb: cmp('eq', sub(V(a, st), V(b, st)), sub(ea, eb)))
                add_c(('sum', str(a), str(b)), lambda st, a=a, b=b, ea=ea, eb=eb: cmp('eq', add(V(a, st), V(b, st)), add(ea, eb)))
            add_c(('leq', str(a), str(b)), lambda st, a=a, b=b, ea=ea, eb=eb: cmp('le', V(a, st), V(b, st)))
    # frames: array content unchanged outside / beyond a counter
    k = z3.Int('k')
    for A in arrs if not lean else []:
        a0 = V(A, s0)
        for lv in ints:
            if lv.kind == 'int' and lv.key[0] in ('len', 'vlen'): pass
            add_c(('frame>=', str(A), str(lv)), lambda st, A=A, lv=lv, a0=a0: z3.ForAll([k], z3.Implies(k >= T(V(lv, st)), z3.Select(V(A, st), k) == z3.Select(a0, k)), patterns=[z3.Select(V(A, st), k)]) if not V(A, st).eq(a0) else True, True)
            add_c(('frame<', str(A), str(lv)), lambda st, A=A, lv=lv, a0=a0: z3.ForAll([k], z3.Implies(k < T(V(lv, st)), z3.Select(V(A, st), k) == z3.Select(a0, k)), patterns=[z3.Select(V(A, st), k)]) if not V(A, st).eq(a0) else True, True)
    # contract supplied hints
    env = HintEnv(ex, s0, lvs, depth, refs)
    for hn, hf in enumerate(ex.hints):
        for item in hf(env):
            key, f = item[0], item[1]
            q = item[2] if len(item) > 2 else True
            add_c(('hint', hn) + (key if isinstance(key, tuple) else (key,)), f, q)
    return out

class HintEnv:
    def __init__(s, ex, s0, lvs, depth, refs):
        s.ex = ex; s.s0 = s0; s.depth = depth; s.refs = refs
        s.ints = [lv for lv in lvs if lv.kind in ('int', 'ptr')]
        s.arrs = [lv for lv in lvs if lv.kind == 'arr']
        s.fps = [lv for lv in lvs if lv.kind == 'fp']
        s.bools = [lv for lv in lvs if lv.kind == 'bool']
        s.strs = [lv for lv in lvs if lv.kind == 'str']
        s.lvs = lvs
    @property
    def outer(s):
        """integer unknowns fixed during this loop that are counters of enclosing loops"""
        r = {}
        mine = set()
        for lv in s.lvs:
            v = lv.raw(s.s0, s.depth)
        cells = [c[0] for o in s.s0.objs.values() if hasattr(o, 'cells') for c in o.cells.values()] + [v for f in s.s0.frames for v in f.regs.values()]
        for v in cells:
            t = v.t if isinstance(v, IntV) else v.idx if isinstance(v, PtrV) else None
            if t is None or isc(t): continue
            if z3.is_const(t) and '!' in t.decl().name() and t.decl().name()[0] == 'h': r[t.get_id()] = t
        return list(r.values())[:8]
    def val(s, lv, st): return lv.val(s.ex, st, s.depth)
    def entry(s, lv): return lv.val(s.ex, s.s0, s.depth)
import os
DUMP = os.environ.get('IRV_DUMP')
def dump(ex, t, f):
    s = z3.SimpleSolver(); s.add(FP.axioms); s.add(t.pc); s.add(t.qpc); s.add(z3.Not(f))
    open('/tmp/w/dump.smt2', 'w').write(s.to_smt2())
    print('DUMPED', f)
