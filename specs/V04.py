from specs.V03 import *
BOUNDED = 'every statement of the list (v = v[b], v[a] = v[b], const views, views of views, ranges, rows and columns, compound forms with arrays, views and own elements) on arrays of up to 3 (thorough: all pairs) elements and on random arrays of up to 200, compared with the same statement whose right-hand side was copied first; int, double and string elements; address sanitizer on'
ASSUME = ['a destination view of a compound assignment designates each element at most once (otherwise the element is updated several times, as documented for repeated indices)']
ORACLE_FLAGS = ['-std=c++14']
SPECS = []
def whole(entry, args, v, ss, flat=False, nd=1, doc=''):
    """v = selection of v"""
    def post(c):
        r = SEL(c); n = c.new[v]
        return [('dimensions match content', dims_ok(n)), ('dimensions of the selection', z3.And([T(a) == T(b) for a, b in zip(n.dims, r.dims)])), ('element k is the old value of the k-th selected', forall(z3.Implies(inr(K, 0, n.len), n[K] == pv(c)(K))))]
    def hs(c, env):
        for A in env.arrs:
            if A.ekind.sort != c.old[v].arr.range(): continue
            for i in env.ints: yield (('pre', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == pv(c)(K)), patterns=[env.val(A, st)[K]]))
    s = Spec(entry, args, post, pre=sign(None), err=sel_err(v, ss, flat), hints=[h_prefix(hp), hs, hlist, hbound, hcnt, hinner], doc=doc); s.sel = (v, ss, flat); SPECS.append(s)
def through(c, n):
    """element access of a view argument in terms of the old values of its parent"""
    return el(c, n)
def hcopy(src):
    """a temporary holds the old values of the source"""
    def h(c, env):
        f = src(c)
        for A in env.arrs:
            if A.ekind.sort != f(K).sort(): continue
            for i in env.ints: yield (('copied', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == f(K)), patterns=[env.val(A, st)[K]]))
    return h
def wr(entry, args, v, ss, src, flat=False, par=None, extra=None, pre=None, op=None, doc='', ptr2=None):
    """destination selection of v receives src(k) (or op(old, src(k))), src being read from the old values"""
    P = par or v
    val = (lambda c, J_, k: op(c.old[P][J_], src(c)(k))) if op else (lambda c, J_, k: src(c)(k))
    def post(c):
        r = SEL(c); o, n = c.old[P], c.new[P]; g = last(c); N = T(r.n)
        return [('size and dimensions unchanged', z3.And([T(o.len) == T(n.len)] + [T(a) == T(b) for a, b in zip(o.dims, n.dims)])),
                ('destination elements receive the value computed from the old contents, the others keep theirs', forall(z3.Implies(inr(J, 0, o.len), n[J] == z3.If(g.f(N, J) < 0, o[J], val(c, J, g.f(N, J)))), J))]
    def hw(c, env):
        g = last(c); o = c.old[P]
        for A in env.arrs:
            if A.ekind.sort != o.arr.range(): continue
            for i in env.ints:
                yield (('written', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([J], z3.Implies(inr(J, 0, o.len), env.val(A, st)[J] == z3.If(g.f(T(env.val(i, st)), J) < 0, o[J], val(c, J, g.f(T(env.val(i, st)), J)))), patterns=[env.val(A, st)[J]]))
    def hp2(c, env):
        if ptr2 is None: return
        f = ptr2(c)
        for A in env.arrs:
            if A.ekind.name != 'ptr': continue
            for i in env.ints: yield (('source pointers', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == f(K)), patterns=[env.val(A, st)[K]]))
    def pr(c):
        r = list(sign(pre)(c))
        if op:       # destinations are distinct
            a = lambda k: el0(c)(SEL(c).at(k)); N = T(SEL(c).n)
            r.append(z3.ForAll([K, J], z3.Implies(z3.And(0 <= K, K < J, J < N), a(K) != a(J)), patterns=[z3.MultiPattern(a(K), a(J))]))
        return r
    def hl2(c, env):
        for nm in [a.name for a in c.spec.args if a.name in ('b',) and a.typ == 'vec']:
            e = el(c, nm)
            for i in env.ints: yield (('list2<', str(i)), lambda st, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), z3.Not(must(e(K), c.old['v'].len))), patterns=[e(K)]))
    s = Spec(entry, args, post, pre=pr, err=sel_err(v, ss, flat, extra) if not (par and not extra) else None, hints=[h_prefix(hp), hlist, hl2, hcopy(src), hp2, hw, hbound, hcnt, hinner], ghosts=lambda c: [last(c)], doc=doc)
    s.sel = (v, ss, flat); SPECS.append(s)
def VO(d, k='i32'): return Vec('v', d, k, out=1)
def anyof(n, ext): return lambda c: z3.Exists([K], z3.And(inr(K, 0, c.old[n].len), must(c.old[n][K], ext(c))))
vlen = lambda c: c.old['v'].len
def lendiff(n, m=None):
    def f(c, r): x = T(c.old[n].len) != T(r.n); return x, x
    return f
def b_err(c, r): x = z3.Or(anyof('b', vlen)(c), T(c.old['b'].len) != T(r.n)); return x, x
# ---- whole array
whole('h_perm', [VO(1), U1()], 'v', [ids('ids')], True, doc='v = v[ids]')
whole('h_perm_c', [VO(1, 'f64'), U1()], 'v', [ids('ids')], True, doc='v = const view of v')
whole('h_perm_s', [VO(1, 'str'), U1()], 'v', [ids('ids')], True, doc='v = v[ids], strings')
whole('h_perm_b', [VO(1, 'bool'), U1()], 'v', [ids('ids')], True, doc='v = v[ids], booleans')
whole('h_perm_p', [VO(1), U1()], 'v', [ids('ids')], doc='v = v(ids)')
whole('h_sub', [VO(1), Int('b'), Int('e')], 'v', [rng('b', 'e')], doc='v = v[b-_-e]')
whole('h_self', [VO(1)], 'v', [full()], doc='v = v[_]')
whole('h_rows', [VO(2), U1()], 'v', [ids('ids'), full()], doc='v = v(ids, _)')
whole('h_assign_self', [VO(1)], 'v', [full()], doc='v = v')
def fv(c):
    n = c.new['p']; w = el(c, 'w')
    return [('dimensions match content', dims_ok(n)), ('size of the view', T(n.len) == T(c.old['w'].len)), ('element k is the old value designated by the view', forall(z3.Implies(inr(K, 0, n.len), n[K] == w(K))))]
for e in ('h_from_view', 'h_from_cview'): SPECS.append(Spec(e, [PO, View('w', 1, 'p')], fv, hints=[hcopy(lambda c: el(c, 'w')), h_prefix(lambda c, a, k: a[k] == c.old['w'][k])], doc='p = view of p'))
# ---- through a view
olds = lambda c: (lambda k: c.old['v'][k])
at_b = lambda c: (lambda k: c.old['v'][c.old['b'][k]])
wr('h_vset_self', [VO(1), U1()], 'v', [ids('ids')], olds, True, extra=lendiff('v'), doc='v[ids] = v')
wr('h_vset_view', [VO(1), U1('a'), U1('b')], 'v', [ids('a')], at_b, True, extra=b_err, ptr2=lambda c: (lambda k: c.old['b'][k]), doc='v[a] = v[b]')
wr('h_vset_cview', [VO(1, 'f64'), U1('a'), U1('b')], 'v', [ids('a')], at_b, True, extra=b_err, ptr2=lambda c: (lambda k: c.old['b'][k]), doc='v[a] = const v[b]')
wr('h_vset_sview', [VO(1, 'str'), U1('a'), U1('b')], 'v', [ids('a')], at_b, True, extra=b_err, ptr2=lambda c: (lambda k: c.old['b'][k]), doc='v[a] = v[b], strings')
wr('h_vset_vv', [PO, View('w', 1, 'p'), View('u', 1, 'p')], 'w', [full()], lambda c: el(c, 'u'), par='p', extra=lendiff('u'), doc='view = other view of the same array')
wr('h_vset_pv', [PO, View('w', 1, 'p')], 'w', [full()], lambda c: (lambda k: c.old['p'][k]), par='p', extra=lendiff('p'), doc='view = its own array')
def w_err(c, r): x = z3.Or(z3.Exists([K], z3.And(inr(K, 0, c.old['ids'].len), must(c.old['ids'][K], c.old['w'].len))), T(c.old['ids'].len) != T(r.n)); return x, x
wr('h_vset_vview', [PO, View('w', 1, 'p'), U1()], 'w', [full()], lambda c: (lambda k: c.old['p'][c.old['w'][c.old['ids'][k]]]), par='p', extra=w_err, ptr2=lambda c: (lambda k: c.old['w'][c.old['ids'][k]]), doc='view = selection of itself')
SPECS[-1].hints.append(lambda c, env: [(('ids<', str(i)), lambda st, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), z3.Not(must(c.old['ids'][K], c.old['w'].len))), patterns=[c.old['ids'][K]])) for i in env.ints])
def i_err(c, r): x = must(c.old['i'].val, c.old['v'].len); return x, x
def ip_err(c, r): x = must(c.old['i'].val, c.old['p'].len); return x, x
def iw_err(c, r): x = must(c.old['i'].val, c.old['w'].len); return x, x
wr('h_vset_elem', [VO(1), U1(), Int('i')], 'v', [ids('ids')], lambda c: (lambda k: c.old['v'][T(c.old['i'].val)]), True, extra=i_err, doc='v[ids] = v[i]')
def sh_err(c, r): x = z3.Or(T(c.old['d'].val) >= T(vlen(c)), T(c.old['d'].val) + T(c.old['n'].val) > T(vlen(c))); return x, x
wr('h_shiftl', [VO(1), Int('b'), Int('n'), Int('d')], 'v', [span('b', 'n')], lambda c: (lambda k: c.old['v'][T(k) + T(c.old['d'].val)]), extra=sh_err, pre=spans(('b', 'n'), ('d', 'n')), ptr2=lambda c: (lambda k: k + T(c.old['d'].val)), doc='overlapping ranges of the same array')
def row(c, k): return T(mul(c.old['j'].val, c.old['v'].dims[1])) + T(k)
def j_err(d): return lambda c, r: (lambda x: (x, x))(must(c.old['j'].val, c.old['v'].dims[d]))
wr('h_row_row', [VO(2), Int('i'), Int('j')], 'v', [one('i'), full()], lambda c: (lambda k: c.old['v'][row(c, k)]), extra=j_err(0), ptr2=lambda c: (lambda k: row(c, k)), doc='v(i, _) = v(j, _)')
def col(c, k): return T(mul(k, c.old['v'].dims[1])) + T(c.old['j'].val)
def jc_err(c, r): x = must(c.old['j'].val, c.old['v'].dims[1]); return z3.And(x, T(c.old['v'].dims[0]) > 0), x
wr('h_col_col', [VO(2), Int('i'), Int('j')], 'v', [full(), one('i')], lambda c: (lambda k: c.old['v'][col(c, k)]), extra=jc_err, ptr2=lambda c: (lambda k: col(c, k)), doc='v(_, i) = v(_, j)')
SPECS[-1].hints.append(lambda c, env: [(('j checked', str(i)), lambda st, i=i: z3.Implies(T(env.val(i, st)) > 0, z3.Not(must(c.old['j'].val, c.old['v'].dims[1]))), False) for i in env.ints])
# ---- compound
fadd = lambda a, b: FP.bin('fadd', a, b)
fsub = lambda a, b: FP.bin('fsub', a, b)
fmul = lambda a, b: FP.bin('fmul', a, b)
fdiv = lambda a, b: FP.bin('fdiv', a, b)
wr('h_add_view', [VO(1, 'f64'), U1('b')], 'v', [full()], at_b, op=fadd, extra=b_err, ptr2=lambda c: (lambda k: c.old['b'][k]), doc='v += v[ids]')
wr('h_sub_cview', [VO(1, 'f64'), U1('b')], 'v', [full()], at_b, op=fsub, extra=b_err, ptr2=lambda c: (lambda k: c.old['b'][k]), doc='v -= const v[ids]')
wr('h_mul_self', [VO(1, 'f64')], 'v', [full()], olds, op=fmul, doc='v *= v')
elem = lambda c: (lambda k: c.old['v'][T(c.old['i'].val)])
wr('h_add_elem', [VO(1, 'f64'), Int('i')], 'v', [full()], elem, op=fadd, extra=i_err, doc='v += v[i]')
wr('h_div_elem', [VO(1, 'f64'), Int('i')], 'v', [full()], elem, op=fdiv, extra=i_err, doc='v /= v[i]')
wr('h_add_elem_i', [VO(1, 'u64'), Int('i')], 'v', [full()], elem, op=lambda a, b: (a + b) % (1 << 64), extra=i_err, doc='v += v[i], integers')
wr('h_vadd_self', [Vec('p', 1, 'f64', out=1), View('w', 1, 'p')], 'w', [full()], lambda c: (lambda k: c.old['p'][k]), par='p', op=fadd, extra=lendiff('p'), doc='view += its own array')
wr('h_vadd_vv', [Vec('p', 1, 'f64', out=1), View('w', 1, 'p'), View('u', 1, 'p')], 'w', [full()], lambda c: el(c, 'u'), par='p', op=fsub, extra=lendiff('u'), doc='view -= other view of the same array')
wr('h_vadd_elem', [Vec('p', 1, 'f64', out=1), View('w', 1, 'p'), Int('i')], 'w', [full()], lambda c: (lambda k: c.old['p'][T(c.old['i'].val)]), par='p', op=fmul, extra=ip_err, doc='view *= element of the array')
wr('h_vadd_velem', [Vec('p', 1, 'f64', out=1), View('w', 1, 'p'), Int('i')], 'w', [full()], lambda c: (lambda k: c.old['p'][c.old['w'][T(c.old['i'].val)]]), par='p', op=fadd, extra=iw_err, doc='view += element of the view')
wr('h_vadd_ids', [VO(1, 'f64'), U1('a'), U1('b')], 'v', [ids('a')], at_b, True, op=fadd, extra=b_err, ptr2=lambda c: (lambda k: c.old['b'][k]), doc='v[a] += v[b]')
