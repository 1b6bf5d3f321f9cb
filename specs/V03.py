from irv.contract import *
from irv.lib import *
from irv.core import mul, QD, QM
from irv.loops import term_vars
BOUNDED = 'every selection (scalar, index list with negative and out of range entries, all four kinds of range, placeholder) of 1-d to 3-d arrays with extents 0 to 4, const and non-const, through operator[], operator(), safe, and through views of views; reading, pointer identity, filling, and assigning'
ORACLE_FLAGS = ['-std=c++14']
ASSUME = ['an index list entry below -extent selects some element of the array or raises an error (the statement leaves it open)', 'safe[] is specified only for indices inside the array (its documented precondition)']
def must(i, n): return z3.Or(T(i) >= T(n), T(n) == 0)
def may(i, n): return z3.Or(must(i, n), T(i) < -T(n))
def pos(i, n): return z3.If(T(i) >= 0, T(i), T(i) + T(n))
def named(i, n): return z3.And(T(i) < T(n), T(i) >= -T(n))
# ---- one selector per dimension: (extent, position of the k-th selected, condition that k is named, must-error, may-error, list name)
class S: isrng = False; scal = None
def full(): 
    def f(c, n): s = S(); s.ext = n; s.at = lambda k: k; s.ok = lambda k: True; s.must = s.may = z3.BoolVal(False); s.lst = None; return s
    return f
def rng(b, e):
    def f(c, n):
        s = S(); lo = T(c.old[b].val) if b else z3.IntVal(0); hi = T(c.old[e].val) if e else T(n) - 1
        s.ext = hi + 1 - lo if b else hi + 1
        s.at = (lambda k: T(k) + lo) if b else (lambda k: k); s.ok = lambda k: True
        s.must = z3.Or(*([lo >= T(n)] if b else []), *([hi >= T(n)] if e else []), *([lo > hi + 1] if b and e else []))
        if b and c.old[b].val.sort() == I: s.must = z3.Or(s.must, lo < 0, *( [hi < 0] if e else []))
        s.may = s.must; s.lst = None; s.isrng = True; return s
    return f
def span(b, n_):
    """range b-_-(b+n-1), n >= 0"""
    def f(c, n):
        s = S(); lo = T(c.old[b].val); m = T(c.old[n_].val); s.ext = m; s.at = lambda k: T(k) + lo; s.ok = lambda k: True
        s.must = z3.Or(lo >= T(n), lo + m > T(n)); s.may = s.must; s.lst = None; s.isrng = True; return s
    return f
def spans(*ps): return lambda c: [z3.And(T(c.old[n].val) + T(c.old[b].val) >= 1, T(c.old[n].val) <= MAXLEN, T(c.old[b].val) <= MAXLEN) for b, n in ps]
def ids(name):
    def f(c, n):
        s = S(); e = el(c, name); v = c.old[name]; s.ext = v.len; s.lst = (e, v.len, n)
        par = [a.k.get('parent') for a in c.spec.args if a.name == name][0]; un = (c.old[par or name].kind.lo == 0)
        s.at = (lambda k: e(k)) if un else (lambda k: pos(e(k), n)); s.ok = (lambda k: True) if un else (lambda k: named(e(k), n))
        s.must = z3.Exists([K], z3.And(inr(K, 0, v.len), must(e(K), n))); s.may = s.must if un else z3.Exists([K], z3.And(inr(K, 0, v.len), may(e(K), n))); return s
    return f
def one(name):
    def f(c, n):
        s = S(); i = c.old[name].val; s.ext = None; un = [a.k['kind'] for a in c.spec.args if a.name == name][0][0] == 'u'
        neg = any(a.k.get('neg') for a in c.spec.args if a.name == name)
        s.at = lambda k: (T(i) + T(n) if neg else T(i)); s.ok = (lambda k: True) if un else (lambda k: named(i, n)); s.scal = z3.Not(must(i, n)); s.must = must(i, n); s.may = s.must if un else may(i, n); s.lst = None; return s
    return f
def sel(c, v, ss, flat=False):
    """combine selectors: dims of the result, flat position in v of the k-th selected element"""
    o = c.old[v]; d = [o.len] if flat else o.dims; r = S(); r.s = [f(c, n) for f, n in zip(ss, d)]
    outs = [s for s in r.s if s.ext is not None]; r.dims = [s.ext for s in outs]; r.n = prod(r.dims)
    ext = [s.ext for s in outs]
    def coords(k):
        if len(ext) == 1: return [k]
        if len(ext) == 2: return [QD(T(k), T(ext[1])), QM(T(k), T(ext[1]))]
        if len(ext) == 3: q = QD(T(k), T(ext[2])); return [QD(q, T(ext[1])), QM(q, T(ext[1])), QM(T(k), T(ext[2]))]
    def at(k):
        x = coords(k); p = 0
        it = iter(x)
        for s, n in zip(r.s, d): p = (T(mul(p, n)) if not isinstance(p, int) else 0) + T(s.at(next(it) if s.ext is not None else None))
        return z3.simplify(p) if False else p
    def ok(k):
        x = iter(coords(k)); return z3.And([T(s.ok(next(x) if s.ext is not None else None)) for s in r.s])
    # indices of an inner dimension are only looked at when the outer dimensions select something; range bounds always are
    prev = []; mu = []
    for s in r.s:
        mu.append(s.must if s.isrng else z3.And(s.must, *[T(e) > 0 for e in prev]))
        if s.ext is not None: prev.append(s.ext)
    r.at = at; r.ok = ok; r.must = z3.Or(mu); r.may = z3.Or([s.may for s in r.s])
    return r
def sel_err(v, ss, flat=False, extra=None):
    def f(c):
        r = sel(c, v, ss, flat); x, y = extra(c, r) if extra else (z3.BoolVal(False), z3.BoolVal(False))
        return z3.Or(r.must, x), z3.Or(r.may, y)
    return f
def SEL(c):
    if not hasattr(c, '_sel'): c._sel = sel(c, *c.spec.sel)
    return c._sel
def pv(c):
    """value of the k-th selected element, before"""
    r = SEL(c); v = c.spec.sel[0]; e = el(c, v); return lambda k: e(r.at(k))
def hp(c, a, k): r = SEL(c); return z3.Implies(r.ok(k), a[k] == (el0(c)(r.at(k))))
def el0(c):
    """pointer value of element p of the array indexed (through a view: the view's own pointers)"""
    v = c.spec.sel[0]; par = [a.k.get('parent') for a in c.spec.args if a.name == v][0]
    return (lambda p: c.old[v][p]) if par else (lambda p: p)
def hv(c, a, k): r = SEL(c); return z3.Implies(r.ok(k), a[k] == pv(c)(k))
def hlist(c, env):
    for s in SEL(c).s:
        if s.lst:
            e, n, ext = s.lst
            for i in env.ints: yield (('list<', str(i), str(ext), str(n)), lambda st, i=i, e=e, ext=ext: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), z3.Not(must(e(K), ext))), patterns=[e(K)]))
def hbound(c, env):
    o = c.old[c.spec.sel[0]]; par = [a.k.get('parent') for a in c.spec.args if a.name == c.spec.sel[0]][0]; n = T(c.old[par].len if par else o.len)
    for A in env.arrs:
        if A.ekind.name != 'ptr': continue
        for i in env.ints: yield (('ptr in range', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), z3.And(env.val(A, st)[K] >= 0, env.val(A, st)[K] < n)), patterns=[env.val(A, st)[K]]))
def hcnt(c, env):
    """running counter of a nested loop: (number of rows done) * (row length)"""
    ext = SEL(c).dims
    for i in env.ints:
        for j in env.ints:
            if i is j: continue
            p = 1
            for e in reversed(ext[1:]):
                p = mul(p, e); yield (('rows', str(i), str(j), str(p)), lambda st, i=i, j=j, p=p: T(env.val(i, st)) == T(mul(T(env.val(j, st)), p)), False)
def hinner(c, env):
    """once something was visited, the indices of the inner dimensions have been checked"""
    for k, s in enumerate(SEL(c).s[1:]):
        for i in env.ints:
            if s.scal is not None: yield (('checked', k, str(i)), lambda st, i=i, s=s: z3.Implies(T(env.val(i, st)) > 0, s.scal), False)
            if s.lst:
                e, n, ext = s.lst
                yield (('list checked', k, str(i)), lambda st, i=i, e=e, n=n, ext=ext: z3.Implies(T(env.val(i, st)) > 0, z3.ForAll([K], z3.Implies(inr(K, 0, n), z3.Not(must(e(K), ext))), patterns=[e(K)])))
def hstride(c, env):
    """strided iterators: position of the iterator after i steps"""
    r = SEL(c)
    for i in env.ints:
        for j in env.ints:
            if i is not j: yield (('stride', str(i), str(j)), lambda st, i=i, j=j: T(env.val(i, st)) == T(r.at(T(env.val(j, st)))), False)
def sign(f):
    def g(c):
        r = [T(c.old[a.name].val) < 0 if a.k.get('neg') else T(c.old[a.name].val) >= 0 for a in c.spec.args if a.typ == 'int' and a.k.get('neg') is not None]
        x = SEL(c)
        if len(x.dims) > 1: r += [z3.And(T(x.n) >= 0, T(x.n) <= MAXLEN)] if any(s.lst or s.isrng for s in x.s) else []      # the selection fits in memory
        return r + (list(f(c)) if f else [])
    return g
def read(entry, args, v, ss, flat=False, kind='i32', pre=None, noerr=False, doc=''):
    def post(c):
        r = SEL(c); n = c.new['out']
        return [('dimensions match content', dims_ok(n)), ('dimensions of the selection', z3.And([T(a) == T(b) for a, b in zip(n.dims, r.dims)])), ('element k is the k-th selected', forall(z3.Implies(z3.And(inr(K, 0, n.len), r.ok(K)), n[K] == pv(c)(K))))]
    nd = sum(1 for f in ss if f.__qualname__.split('.')[0] != 'one')
    so = KINDS[kind].sort
    s = Spec(entry, args + [Vec('out', nd, kind, out=1)], post, pre=sign(pre), err=None if noerr else sel_err(v, ss, flat), hints=[h_prefix(hp), h_prefix(hv, sort=so), hlist, hbound, hcnt, hinner] + ([hstride] if 'stride' in entry else []), doc=doc)
    s.sel = (v, ss, flat); return s
def last(c):
    """ghost: last(i, p) = last j < i whose selection is element p, or -1"""
    if hasattr(c, '_last'): return c._last
    r = SEL(c); f = z3.Function('lastsel', I, I, I); g = Ghost('lastsel'); g.f = f; q = z3.Int('q'); p = z3.Int('p'); j = K; A = z3.Function('selat', I, I); at = lambda k: A(T(k))
    g.axioms += [z3.ForAll([p], f(0, p) == -1, patterns=[f(0, p)]), z3.ForAll([q, p], z3.Implies(q >= 0, f(q+1, p) == z3.If(at(q) == p, q, f(q, p))), patterns=[f(q+1, p)])]
    b = lambda t: z3.ForAll([p], z3.And(f(t, p) >= -1, f(t, p) < t, z3.Implies(f(t, p) >= 0, at(f(t, p)) == p)), patterns=[f(t, p)])
    g.lemma('last selection', b); g.axioms.append(z3.ForAll([q, p], z3.Implies(q >= 0, z3.And(f(q, p) >= -1, f(q, p) < q, z3.Implies(f(q, p) >= 0, at(f(q, p)) == p))), patterns=[f(q, p)]))
    m = lambda t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), f(t, at(j)) >= j), patterns=[at(j)])
    g.lemma('selected elements are found', m); c._found = m
    g.axioms.append(z3.ForAll([j], z3.Implies(j >= 0, at(j) == el0(c)(r.at(j))), patterns=[at(j)]))
    c._last = g; return g
def allok(r, N):
    f = r.ok(K); return forall(z3.Implies(inr(K, 0, N), f)) if K.decl().name() in term_vars(f) else f
def write(entry, args, v, ss, src=None, flat=False, conv=lambda x: x, pre=None, par=None, extra=None, doc=''):
    """v(selection) = x (scalar) or = array: every selected element receives the value of its last selection, all others are unchanged"""
    P = par or v
    def src_(c): return src(c) if src else (lambda k: conv(c.old['x'].val))
    def post(c):
        r = SEL(c); o, n = c.old[P], c.new[P]; g = last(c); N = T(r.n); w = src_(c)
        okall = allok(r, N)
        return [('size and dimensions unchanged', z3.And([T(o.len) == T(n.len)] + [T(a) == T(b) for a, b in zip(o.dims, n.dims)])),
                ('selected elements are written, the others keep their value', z3.Implies(okall, forall(z3.Implies(inr(J, 0, o.len), n[J] == z3.If(g.f(N, J) < 0, o[J], w(g.f(N, J)))), J)))]
    def hw(c, env):
        g = last(c); o = c.old[P]; w = src_(c); r = SEL(c); N = T(r.n)
        okall = allok(r, N)
        for A in env.arrs:
            if A.ekind.sort != o.arr.range(): continue
            for i in env.ints:
                def f(st, A=A, i=i):
                    a = env.val(A, st); t = T(env.val(i, st))
                    return z3.Implies(okall, z3.ForAll([J], z3.Implies(inr(J, 0, o.len), a[J] == z3.If(g.f(t, J) < 0, o[J], w(g.f(t, J)))), patterns=[a[J]]))
                yield (('written', str(A), str(i)), f)
    s = Spec(entry, args, post, pre=sign(pre), err=sel_err(v, ss, flat, extra), hints=[h_prefix(hp), hlist, hw, hbound, hcnt, hinner] + ([hstride] if 'stride' in entry else []), ghosts=lambda c: [last(c)], doc=doc)
    s.sel = (v, ss, flat); return s
def V(d, k='i32', **q): return Vec('v', d, k, **q)
U1 = lambda n='ids': Vec(n, 1, 'u64')
I1 = lambda n='ids', k='i64': Vec(n, 1, k)
P1 = Vec('p', 1, 'i32'); PO = Vec('p', 1, 'i32', out=1)
def inb(c): e = el(c, 'ids'); return [forall(z3.Implies(inr(K, 0, c.old['ids'].len), z3.And(e(K) >= 0, e(K) < T(c.old['v'].len))), pats=[e(K)])]
def wsrc(c): e = el(c, 'w'); return lambda k: e(k)
def wlen(c, r): return T(c.old['w'].len) != T(r.n), z3.Or([T(a) != T(b) for a, b in zip(c.old['w'].dims, r.dims)])
b2i = lambda b: z3.If(b, 1, 0)
X = Int('x', 'i32')
def strrow(c): d = c.old['v'].dims[1]; b = T(mul(c.old['i'].val, d)); return b, b + T(d)
def strpost(c):
    o, n = c.old['v'], c.new['v']; b, e = strrow(c)
    return [('size and dimensions unchanged', z3.And([T(o.len) == T(n.len)] + [T(x) == T(y) for x, y in zip(o.dims, n.dims)])), ('the row is written, other elements keep their value', forall(z3.Implies(inr(K, 0, o.len), n[K] == z3.If(inr(K, b, e), c.old['x'].val, o[K]))))]
def strh(c, env):
    o = c.old['v']; b, e = strrow(c)
    for A in env.arrs:
        for i in env.ints: yield (('row', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], env.val(A, st)[K] == z3.If(inr(K, b, env.val(i, st)), c.old['x'].val, o[K]), patterns=[env.val(A, st)[K]]))
SPECS = [
    read('h_ids', [V(1), U1()], 'v', [ids('ids')], True, doc='v[ids]'),
    read('h_ids_nc', [V(1), U1()], 'v', [ids('ids')], True, doc='v[ids], non-const'),
    read('h_ids_i', [V(1, 'f64'), I1()], 'v', [ids('ids')], True, 'f64', doc='v[ids] with signed indices'),
    read('h_ids_i32', [V(1), I1(k='i32')], 'v', [ids('ids')], True, doc='v[ids] with int indices'),
    read('h_ids_flat2', [V(2), U1()], 'v', [ids('ids')], True, doc='flat v[ids] of a 2-d array'),
    read('h_ids_view', [V(1), Vec('p', 1, 'u64'), View('ids', 1, 'p')], 'v', [ids('ids')], True, doc='v[view of indices]'),
    read('h_ids_viewc', [V(1), Vec('p', 1, 'u64'), View('ids', 1, 'p')], 'v', [ids('ids')], True, doc='v[view of indices], const'),
    read('h_ids_s', [V(1, 'str'), U1()], 'v', [ids('ids')], True, 'str', doc='v[ids] of strings'),
    read('h_ids_b', [V(1, 'bool'), U1()], 'v', [ids('ids')], True, 'bool', doc='v[ids] of booleans'),
    read('h_pids', [V(1), U1()], 'v', [ids('ids')], doc='v(ids)'),
    read('h_pids_i', [V(1), I1()], 'v', [ids('ids')], doc='v(ids), signed'),
    read('h_sids', [V(1), U1()], 'v', [ids('ids')], True, pre=inb, noerr=True, doc='safe[ids]'),
    read('h_sids_nc', [V(1), U1()], 'v', [ids('ids')], True, pre=inb, noerr=True, doc='safe[ids], non-const'),
    read('h_full', [V(1)], 'v', [full()], doc='v[_]'),
    read('h_full2', [V(2)], 'v', [full()], True, doc='v[_] of a 2-d array'),
    read('h_left', [V(1), Int('e')], 'v', [rng(None, 'e')], doc='v[_-e]'),
    read('h_right', [V(1), Int('b')], 'v', [rng('b', None)], doc='v[b-_]'),
    read('h_lr', [V(1), Int('b'), Int('e')], 'v', [rng('b', 'e')], doc='v[b-_-e]'),
    read('h_lr_c', [V(2, 'f64'), Int('b'), Int('e')], 'v', [rng('b', 'e')], True, 'f64', doc='v[b-_-e] of a const 2-d array'),
    read('h_lr_i', [V(1), Int('b', 'i32'), Int('e', 'i32')], 'v', [rng('b', 'e')], doc='v[b-_-e], signed bounds'),
    read('h_pfull', [V(1)], 'v', [full()], doc='v(_)'),
    read('h_pleft', [V(1), Int('e')], 'v', [rng(None, 'e')], doc='v(_-e)'),
    read('h_plr', [V(1), Int('b'), Int('e')], 'v', [rng('b', 'e')], doc='v(b-_-e)'),
    read('h_row', [V(2), Int('i', 'i64', neg=0)], 'v', [one('i'), full()], doc='v(i, _)'),
    read('h_row_n', [V(2), Int('i', 'i64', neg=1)], 'v', [one('i'), full()], doc='negative index: v(i, _)'),
    read('h_row_u', [V(2), Int('i')], 'v', [one('i'), full()], doc='v(i, _), unsigned'),
    read('h_col', [V(2), Int('j', 'i64', neg=0)], 'v', [full(), one('j')], doc='v(_, j)'),
    read('h_col_n', [V(2), Int('j', 'i64', neg=1)], 'v', [full(), one('j')], doc='negative index: v(_, j)'),
    read('h_col_u', [V(2), Int('j')], 'v', [full(), one('j')], doc='v(_, j), unsigned'),
    read('h_all2', [V(2)], 'v', [full(), full()], doc='v(_, _)'),
    read('h_row_lr', [V(2), Int('i'), Int('b'), Int('e')], 'v', [one('i'), rng('b', 'e')], doc='v(i, b-_-e)'),
    read('h_col_lr', [V(2), Int('b'), Int('e'), Int('j')], 'v', [rng('b', 'e'), one('j')], doc='v(b-_-e, j)'),
    read('h_row_ids', [V(2), Int('i'), U1()], 'v', [one('i'), ids('ids')], doc='v(i, ids)'),
    read('h_col_ids', [V(2), U1(), Int('j')], 'v', [ids('ids'), one('j')], doc='v(ids, j)'),
    read('h_ids_full', [V(2), U1()], 'v', [ids('ids'), full()], doc='v(ids, _)'),
    read('h_full_ids', [V(2), U1()], 'v', [full(), ids('ids')], doc='v(_, ids)'),
    read('h_ids_ids', [V(2), U1('a'), U1('b')], 'v', [ids('a'), ids('b')], doc='v(a, b) with two index lists'),
    read('h_rect', [V(2), Int('a'), Int('m'), Int('p'), Int('n')], 'v', [span('a', 'm'), span('p', 'n')], pre=spans(('a', 'm'), ('p', 'n')), doc='v(a-_-b, p-_-q)'),
    read('h_3_i', [V(3), Int('i')], 'v', [one('i'), full(), full()], doc='v(i, _, _)'),
    read('h_3_j', [V(3), Int('j')], 'v', [full(), one('j'), full()], doc='v(_, j, _)'),
    read('h_3_k', [V(3), Int('k')], 'v', [full(), full(), one('k')], doc='v(_, _, k)'),
    read('h_3_ij', [V(3), Int('i'), Int('j')], 'v', [one('i'), one('j'), full()], doc='v(i, j, _)'),
    read('h_3_ik', [V(3), Int('i'), Int('k')], 'v', [one('i'), full(), one('k')], doc='v(i, _, k)'),
    read('h_3_jk', [V(3), Int('j'), Int('k')], 'v', [full(), one('j'), one('k')], doc='v(_, j, k)'),
    write('h_set_ids', [V(1, out=1), U1(), X], 'v', [ids('ids')], flat=True, doc='v[ids] = x'),
    write('h_set_ids_i', [V(1, 'f64', out=1), I1(), Flt('x')], 'v', [ids('ids')], flat=True, doc='v[ids] = x, signed'),
    write('h_set_ids_b', [V(1, 'bool', out=1), U1(), Bool('x')], 'v', [ids('ids')], flat=True, conv=b2i, doc='v[ids] = x, booleans'),
    write('h_set_ids_s', [V(1, 'str', out=1), U1(), Str('x')], 'v', [ids('ids')], flat=True, doc='v[ids] = x, strings'),
    write('h_set_pids', [V(1, out=1), U1(), X], 'v', [ids('ids')], doc='v(ids) = x'),
    write('h_put_ids', [V(1, out=1), U1(), Vec('w', 1, 'i32')], 'v', [ids('ids')], src=wsrc, flat=True, extra=wlen, doc='v[ids] = w'),
    write('h_put_ids_f', [V(1, 'f64', out=1), U1(), Vec('w', 1, 'f32')], 'v', [ids('ids')], src=lambda c: (lambda k: FP.fn('fpext', F32, F64)(c.old['w'][k])), flat=True, extra=wlen, doc='v[ids] = w, converted from float'),
    write('h_put_view', [V(1, out=1), U1(), P1, View('w', 1, 'p')], 'v', [ids('ids')], src=wsrc, flat=True, extra=wlen, doc='v[ids] = view'),
    write('h_set_lr', [V(1, out=1), Int('b'), Int('e'), X], 'v', [rng('b', 'e')], doc='v[b-_-e] = x'),
    write('h_put_lr', [V(1, out=1), Int('b'), Int('e'), Vec('w', 1, 'i32')], 'v', [rng('b', 'e')], src=wsrc, extra=wlen, doc='v[b-_-e] = w'),
    write('h_set_row', [V(2, out=1), Int('i', 'i64', neg=0), X], 'v', [one('i'), full()], doc='v(i, _) = x'),
    write('h_set_row_n', [V(2, out=1), Int('i', 'i64', neg=1), X], 'v', [one('i'), full()], doc='negative index: v(i, _) = x'),
    write('h_put_row', [V(2, out=1), Int('i'), Vec('w', 1, 'i32')], 'v', [one('i'), full()], src=wsrc, extra=wlen, doc='v(i, _) = w'),
    write('h_set_col', [V(2, out=1), Int('j', 'i64', neg=0), X], 'v', [full(), one('j')], doc='v(_, j) = x'),
    write('h_set_col_n', [V(2, out=1), Int('j', 'i64', neg=1), X], 'v', [full(), one('j')], doc='negative index: v(_, j) = x'),
    write('h_put_col', [V(2, out=1), Int('j'), Vec('w', 1, 'i32')], 'v', [full(), one('j')], src=wsrc, extra=wlen, doc='v(_, j) = w'),
    write('h_set_ids_full', [V(2, out=1), U1(), X], 'v', [ids('ids'), full()], doc='v(ids, _) = x'),
    write('h_set_full_ids', [V(2, out=1), U1(), X], 'v', [full(), ids('ids')], doc='v(_, ids) = x'),
    write('h_set_ids_ids', [V(2, out=1), U1('a'), U1('b'), X], 'v', [ids('a'), ids('b')], doc='v(a, b) = x'),
    write('h_put_rect', [V(2, out=1), Int('a'), Int('m'), Int('p'), Int('n'), Vec('w', 2, 'i32')], 'v', [span('a', 'm'), span('p', 'n')], pre=spans(('a', 'm'), ('p', 'n')), src=wsrc, extra=wlen, doc='v(a-_-b, p-_-q) = w'),
    write('h_set_3', [V(3, out=1), Int('i'), Int('k'), X], 'v', [one('i'), full(), one('k')], doc='v(i, _, k) = x'),
    read('h_stride_col', [V(2), Int('j')], 'v', [full(), one('j')], doc='iteration over v.stride(_, j)'),
    Spec('h_stride_row', [V(2, out=1), Int('i'), X], strpost, err=lambda c: must(c.old['i'].val, c.old['v'].dims[0]), hints=[strh], doc='writing through v.stride(i, _)'),
    read('h_vv_ids', [P1, View('v', 1, 'p'), U1()], 'v', [ids('ids')], True, doc='view[ids]'),
    read('h_vv_lr', [P1, View('v', 1, 'p'), Int('b'), Int('e')], 'v', [rng('b', 'e')], doc='view[b-_-e]'),
    read('h_vv_row', [Vec('p', 2, 'i32'), View('v', 2, 'p'), Int('i')], 'v', [one('i'), full()], doc='view(i, _)'),
    read('h_vv_col', [Vec('p', 2, 'i32'), View('v', 2, 'p'), Int('j')], 'v', [full(), one('j')], doc='view(_, j)'),
    write('h_vv_set', [PO, View('v', 1, 'p'), U1(), X], 'v', [ids('ids')], flat=True, par='p', doc='view[ids] = x'),
]
