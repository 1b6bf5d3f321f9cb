from irv.contract import *
from irv.lib import *
from irv.core import mul, QD, QM
BOUNDED = 'all functions on all arrays up to 5 elements over three values and not-a-number, random larger ones, 2-d arrays and views; every axis of 2-d and 3-d arrays with extents 0..3 and random 3-d and 4-d ones'
ASSUME = ['sums of integers are specified for arrays of at most 2^31 elements (no overflow)', 'percentile: arrays of at most 2^24 elements and a product p*n that is not not-a-number', 'percentiles with more than two fractions at once: bounded stand-in only']
SPECS = []
def more(x, y):
    so = x.sort()
    if so == I: return x > y
    return z3.And(z3.Not(fnan(x)), z3.Or(fnan(y), flt(y, x)))
# ---- extremes
def ext(c, v, n, r, lt, first):
    """r: position of the extreme of v(0..n-1) for the order lt (not-a-number values last)"""
    q = [('valid position', inr(r, 0, n)), ('no element is beyond the extreme', forall(z3.Implies(inr(K, 0, n), z3.Not(lt(v(K), v(r)))))) ]
    if first: q.append(('the first of them', forall(z3.Implies(z3.And(0 <= K, K < r), z3.Or(isnan_(v(r)), lt(v(r), v(K)))))))
    else: q.append(('the last of them', forall(z3.Implies(z3.And(r < K, K < T(n)), z3.Or(isnan_(v(r)), isnan_(v(K)), lt(v(r), v(K)))))))
    return q
def extv(c, v, n, x, lt): return [('value of an element', z3.Not(forall(z3.Implies(inr(K, 0, n), v(K) != x)))), ('no element is beyond the extreme', forall(z3.Implies(inr(K, 0, n), z3.Not(lt(v(K), x)))))]
def h_ext(c, env): yield from h_ext_(env, el(c, 'v'), T(c.old['v'].len), el(c, 'v'), ('min', less), ('max', more))
def h_ext_(env, v, N, pat, *orders, tag=()):
    V = lambda x, st: T(env.val(x, st))
    for i in env.ints:
        yield (tag+('nan<', str(i)), lambda st, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < V(i, st)), isnan_(v(K))), patterns=[pat(K)]))
        yield (tag+('<N', str(i)), lambda st, i=i: z3.And(0 <= V(i, st), V(i, st) < N), True)
        for r in env.ints:
            if r is i: continue
            for o in (0, 1):
                for nm, lt in orders:
                    yield (tag+(nm, o, str(i), str(r)), lambda st, i=i, r=r, lt=lt, o=o: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < V(i, st)+o), z3.Not(lt(v(K), v(V(r, st))))), patterns=[pat(K)]))
                    if o == 0: yield (tag+(nm+'1', str(i), str(r)), lambda st, i=i, r=r, lt=lt: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < V(r, st)), lt(v(V(r, st)), v(K))), patterns=[pat(K)]))
                    if not tag: yield (tag+(nm+'2', o, str(i), str(r)), lambda st, i=i, r=r, lt=lt, o=o: z3.ForAll([K], z3.Implies(z3.And(V(r, st) < K, K < V(i, st)+o), z3.Or(isnan_(v(K)), lt(v(V(r, st)), v(K)))), patterns=[pat(K)]))
                yield (tag+('<', o, str(i), str(r)), lambda st, i=i, r=r, o=o: z3.And(V(r, st) >= 0, V(r, st) < V(i, st)+o), True)
            yield (tag+('nn', str(r)), lambda st, r=r: z3.Not(isnan_(v(V(r, st)))), True)
empty = lambda c: T(c.old['v'].len) == 0
R = lambda c: unat(c, c.ret)
def fv(c, x): return T(c.ex.canon(c.st, x, KINDS['i32'])) if isinstance(x, IntV) else x
def add_ext(s, k, d, view=False):
    A_ = [Vec('p', 1, k), View('v', 1, 'p')] if view else [Vec('v', d, k)]
    def sp(e, post, extra=[], **kw): SPECS.append(Spec('h_%s_%s' % (e, s), A_ + extra, post, err=empty, hints=[h_ext], doc='%s (%s, %d-d)' % (e, 'view' if view else k, d), **kw))
    V = lambda c: el(c, 'v'); N = lambda c: c.old['v'].len; nv = lambda c, n: c.new[n].val
    sp('min_id', lambda c: ext(c, V(c), N(c), R(c), less, 1))
    sp('max_id', lambda c: ext(c, V(c), N(c), R(c), more, 1))
    sp('minmax_ids', lambda c: ext(c, V(c), N(c), T(nv(c, 'a')), less, 1) + ext(c, V(c), N(c), T(nv(c, 'b')), more, 0), [Ref('a', 'u64'), Ref('b', 'u64')])
    if view: return
    sp('min', lambda c: extv(c, V(c), N(c), fv(c, c.ret), less)); sp('max', lambda c: extv(c, V(c), N(c), fv(c, c.ret), more))
    sp('minp', lambda c: ext(c, V(c), N(c), T(nv(c, 'id')), less, 1) + [('value at that position', V(c)(T(nv(c, 'id'))) == fv(c, c.ret))], [Ref('id', 'u64')])
    sp('maxp', lambda c: ext(c, V(c), N(c), T(nv(c, 'id')), more, 1) + [('value at that position', V(c)(T(nv(c, 'id'))) == fv(c, c.ret))], [Ref('id', 'u64')])
    sp('minmax', lambda c: extv(c, V(c), N(c), T(nv(c, 'a')), less) + extv(c, V(c), N(c), T(nv(c, 'b')), more), [Ref('a', k), Ref('b', k)])
    sp('minmaxp', lambda c: ext(c, V(c), N(c), T(nv(c, 'ia')), less, 1) + ext(c, V(c), N(c), T(nv(c, 'ib')), more, 0) + [('values at these positions', z3.And(V(c)(T(nv(c, 'ia'))) == T(nv(c, 'a')), V(c)(T(nv(c, 'ib'))) == T(nv(c, 'b'))))], [Ref('a', k), Ref('b', k), Ref('ia', 'u64'), Ref('ib', 'u64')])
add_ext('i', 'i32', 1); add_ext('d', 'f64', 1); add_ext('d2', 'f64', 2); add_ext('view', 'f64', 1, True)
# ---- counting and summing
def gcount(c):
    if not hasattr(c, '_g'): v = el(c, 'v'); c._g = count('trues', lambda k: v(k) != 0, lambda k: v(k))
    return c._g
def fold(name, v, pat, zero, step, lo=None, hi=None):
    """f(0) = zero, f(k+1) = step(f(k), v(k))"""
    z = zero if z3.is_expr(zero) else z3.IntVal(zero); so = z.sort(); f = z3.Function(name, I, so); g = Ghost(name); g.f = f; j = z3.Int('j')
    g.axioms = [f(z3.IntVal(0)) == z, z3.ForAll([j], z3.Implies(j >= 0, f(j+1) == step(f(j), v(j))), patterns=[z3.MultiPattern(f(j), pat(j)), f(j+1)])]
    if lo is not None:
        g.lemma(name + ' bounds', lambda t: z3.And(f(t) >= t*lo, f(t) <= t*hi)); g.axioms.append(z3.ForAll([j], z3.Implies(j >= 0, z3.And(f(j) >= j*lo, f(j) <= j*hi)), patterns=[f(j)]))
    return g
def h_fold(g):
    def h(c, env):
        G = g(c)
        for i in env.ints:
            for x in list(env.ints) + list(env.fps):
                if x is not i and (x in env.fps) == (G.f.range() != I): 
                    yield (('fold', str(x), str(i)), lambda st, x=x, i=i: T(env.val(x, st)) == G.f(T(env.val(i, st))), True)
                    if x in env.ints: yield (('folds', str(x), str(i)), lambda st, x=x, i=i: T(env.val(x, st)) == z3.If(G.f(T(env.val(i, st))) < 0, G.f(T(env.val(i, st))) + (1 << 64), G.f(T(env.val(i, st)))), True)
    return h
SPECS += [Spec('h_count', [Vec('v', 1, 'bool')], lambda c: [('number of true elements', R(c) == gcount(c).f(T(c.old['v'].len)))], ghosts=lambda c: [gcount(c)], hints=[h_fold(gcount)], doc='count'),
          Spec('h_count2', [Vec('v', 2, 'bool')], lambda c: [('number of true elements', R(c) == gcount(c).f(T(c.old['v'].len)))], ghosts=lambda c: [gcount(c)], hints=[h_fold(gcount)], doc='count (2-d)'),
          Spec('h_count_view', [Vec('p', 1, 'bool'), View('v', 1, 'p')], lambda c: [('number of true elements', R(c) == gcount(c).f(T(c.old['v'].len)))], ghosts=lambda c: [gcount(c)], hints=[h_fold(gcount)], doc='count (view)')]
def gsum(lo, hi):
    def f(c):
        if not hasattr(c, '_g'): v = el(c, 'v'); c._g = fold('sum', v, v, 0, lambda a, b: a + b, lo, hi)
        return c._g
    return f
small = lambda c: [T(c.old['v'].len) <= 1 << 31]
gi, gu = gsum(-(1 << 31), (1 << 31)-1), gsum(0, 255)
SPECS += [Spec('h_total_i', [Vec('v', 1, 'i32')], lambda c: [('sum of all the elements', T(c.ex.s(c.st, c.ret)) == gi(c).f(T(c.old['v'].len)))], pre=small, ghosts=lambda c: [gi(c)], hints=[h_fold(gi)], doc='total of integers'),
          Spec('h_total_u', [Vec('v', 2, 'u8')], lambda c: [('sum of all the elements', R(c) == gu(c).f(T(c.old['v'].len)))], pre=small, ghosts=lambda c: [gu(c)], hints=[h_fold(gu)], doc='total of unsigned integers (2-d)')]
def gfsum(val):
    def f(c):
        if not hasattr(c, '_g'): v = el(c, 'v'); c._g = fold('fsum', lambda k: val(c, k), v, FP.const(0.0, 64), lambda a, b: FP.bin('fadd', a, b))
        return c._g
    return f
# ---- element-wise
def ew(a, b, lt):
    def rel(c, n, k): x, y = a(c, k), b(c, k); return z3.Implies(z3.Not(z3.Or(isnan_(x), isnan_(y))), z3.And(z3.Or(n == x, n == y), z3.Not(lt(x, n)), z3.Not(lt(y, n))))
    return rel
def ew_post(rel, first):
    def p(c): n = c.new['out']; o = c.old[first]; return [('dimensions of the operand', z3.And(dims_ok(n), *[T(a) == T(b) for a, b in zip(n.dims, o.dims)])), ('every element is the extreme of the two at its position', forall(z3.Implies(inr(K, 0, o.len), rel(c, n[K], K))))]
    return p
va = lambda c, k: c.old['a'][k]; vb = lambda c, k: c.old['b'][k]; vx = lambda c, k: T(c.old['x'].val)
for s, k, d, mk in (('i', 'i32', 1, Int), ('d', 'f64', 2, Flt)):
    for nm, lt in (('min', less), ('max', more)):
        O = [Vec('out', d, k, out=1)]; so = None if k == 'i32' else KINDS[k].sort
        r = ew(va, vb, lt); SPECS.append(Spec('h_e%s_%s' % (nm, s), [Vec('a', d, k), Vec('b', d, k)] + O, ew_post(r, 'a'), err=lambda c: z3.Or([T(x) != T(y) for x, y in zip(c.old['a'].dims, c.old['b'].dims)]), hints=[h_prefix(lambda c, a, q, r=r: r(c, a[q], q), so)], doc='%s of two arrays' % nm))
        r = ew(va, vx, lt); SPECS.append(Spec('h_e%ss_%s' % (nm, s), [Vec('a', d, k), mk('x', k)] + O, ew_post(r, 'a'), hints=[h_prefix(lambda c, a, q, r=r: r(c, a[q], q), so)], doc='%s of an array and a value' % nm))
        SPECS.append(Spec('h_s%se_%s' % (nm, s), [mk('x', k), Vec('a', d, k)] + O, ew_post(r, 'a'), hints=[h_prefix(lambda c, a, q, r=r: r(c, a[q], q), so)], doc='%s of a value and an array' % nm))
# ---- sums of real numbers, in order
fadd = lambda a, b: FP.bin('fadd', a, b); n2f = lambda n: FP.fn('i2f_F64', I, F64)(T(n))
gd = gfsum(lambda c, k: el(c, 'v')(k)); gdi = gfsum(lambda c, k: n2f(el(c, 'v')(k)))
N_ = lambda c: T(c.old['v'].len)
SPECS += [Spec('h_total_d', [Vec('v', 1, 'f64')], lambda c: [('sum of all the elements', c.ret == gd(c).f(N_(c)))], ghosts=lambda c: [gd(c)], hints=[h_fold(gd)], doc='total of reals'),
          Spec('h_mean_d', [Vec('v', 1, 'f64', nonempty=1)], lambda c: [('sum of all the elements over their number', c.ret == FP.bin('fdiv', gd(c).f(N_(c)), n2f(N_(c))))], ghosts=lambda c: [gd(c)], hints=[h_fold(gd)], doc='mean of reals'),
          Spec('h_mean_i', [Vec('v', 2, 'i32', nonempty=1)], lambda c: [('sum of all the elements over their number', c.ret == FP.bin('fdiv', gdi(c).f(N_(c)), n2f(N_(c))))], ghosts=lambda c: [gdi(c)], hints=[h_fold(gdi)], doc='mean of integers (2-d)')]
# ---- along a dimension: result k is taken from the elements at(k, 0..extent-1)
def axis(c, d):
    """extent of the dimension, and position of the j-th element reduced into result k"""
    ds = c.old['v'].dims; inner = prod(ds[d+1:]); outer = prod(ds[:d]); E = ds[d]
    if not hasattr(c, '_at'):
        f = z3.Function('at', I, I, I); g = Ghost('position along the dimension'); c._at = (f, g); k, j = K, J
        one = isc(inner) and inner == 1
        q, r = (k, z3.IntVal(0)) if one else (z3.IntVal(0), k) if d == 0 else (QD(k, T(inner)), QM(k, T(inner)))
        df = f(k, j) == T(mul(mul(q, E), inner)) + T(mul(j, inner)) + r
        g.axioms = [z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, 0 <= j), df), patterns=[f(k, j)])]
        hyp = z3.And(0 <= k, k < T(mul(outer, inner)), 0 <= j, j < T(E)); steps = []
        def goal(l, x): g.goals.append((l, [hyp, df, T(inner) >= 1, T(E) >= 1, T(outer) >= 1] + steps, x)); steps.append(x)
        g.goals.append(('extents are positive', [hyp, T(inner) >= 0, T(E) >= 0, T(outer) >= 0], z3.And(T(inner) >= 1, T(E) >= 1, T(outer) >= 1)))
        EI = mul(E, inner)
        goal('group', z3.And(0 <= q, q < T(outer), 0 <= r, r < T(inner)))
        goal('groups before', T(mul(q, EI)) + T(EI) <= T(mul(outer, EI)))
        goal('rows before', T(mul(j, inner)) + T(inner) <= T(EI))
        goal('bound', z3.And(0 <= f(k, j), f(k, j) < T(c.old['v'].len)))
        g.axioms.append(z3.ForAll([k, j], z3.Implies(hyp, z3.And(0 <= f(k, j), f(k, j) < T(c.old['v'].len))), patterns=[f(k, j)]))
    return E, c._at[0]
def gat(d):
    def f(c): axis(c, d); return [c._at[1]]
    return f
def others(c, d): return [x for i, x in enumerate(c.old['v'].dims) if i != d]
def rdims(c, d): n = c.new['out']; o = others(c, d); return [('dimensions match content', dims_ok(n)), ('the dimension is removed, the others stay', z3.And([T(a) == T(b) for a, b in zip(n.dims, o)]))]
def red_post(d, val):
    def p(c):
        n = c.new['out']; return rdims(c, d) + [('every element is reduced from exactly its own elements, in order', forall(z3.Implies(inr(K, 0, n.len), n[K] == val(c, K))))]
    return p
def h_red(d, val, out=None):
    def h(c, env):
        E, at = axis(c, d); v = c.old['v']
        yield from h_prefix(lambda c, a, k: a[k] == val(c, k), KINDS[out].sort if out else None)(c, env)
        for x in env.outer:
            yield from ((('o', str(x)) + q[0],) + q[1:] for q in h_prefix(lambda c, a, j, x=x: a[j] == at(x, j))(c, env))
            yield from ((('w', str(x)) + q[0],) + q[1:] for q in h_prefix(lambda c, a, j, x=x: a[j] == v[at(x, j)], v.arr.range() if v.arr.range() != I else None)(c, env))
    return h
qpre = lambda d: lambda c: [T(c.old['q'].val) < T(c.old['v'].dims[d])]
sel = lambda d: lambda c, k: c.old['v'][axis(c, d)[1](k, c.old['q'].val)]
for D in (2, 3):
    for d in range(D):
        V_ = lambda k, o: [Vec('v', D, k), Vec('out', D-1, o, out=1)]
        SPECS.append(Spec('h_red%d_%d' % (D, d), [Vec('v', D, 'i32'), Int('q'), Vec('out', D-1, 'i32', out=1)], red_post(d, sel(d)), pre=qpre(d), ghosts=gat(d), hints=[h_red(d, sel(d))], doc='reduce along dimension %d of %d: the function sees the elements of its slice in order (any position q)' % (d, D)))
        if D == 3: continue
        ext_ = lambda c, k, d=d: T(c.old['v'].dims[d])
        SPECS.append(Spec('h_redn%d_%d' % (D, d), V_('i32', 'u64'), red_post(d, ext_), ghosts=gat(d), hints=[h_red(d, ext_)], doc='reduce along dimension %d of %d: the slice has the extent of that dimension' % (d, D)))

# the first extreme of every slice (a finite non-empty sequence has one)
def gext(d, lt):
    def f(c):
        E, at = axis(c, d); v = c.old['v']; w = z3.Function('extreme', I, I); g = Ghost('first extreme of a slice'); c._w = w; np = T(prod(others(c, d)))
        g.axioms = [z3.ForAll([K], z3.Implies(z3.And(inr(K, 0, np), T(E) >= 1), inr(w(K), 0, E)), patterns=[w(K)]),
                    z3.ForAll([K, J], z3.Implies(z3.And(inr(K, 0, np), inr(J, 0, E)), z3.And(z3.Not(lt(v[at(K, J)], v[at(K, w(K))])), z3.Implies(J < w(K), lt(v[at(K, w(K))], v[at(K, J)])))), patterns=[z3.MultiPattern(w(K), at(K, J))])]
        return [c._at[1], g]
    return f
def pext_h(d, lt, kind):
    def h(c, env):
        E, at = axis(c, d); v = c.old['v']; so = KINDS[kind].sort
        yield from h_prefix(lambda c, a, k: a[k] == v[at(k, c._w(k))], None if so == I else so)(c, env)
        for x in env.outer:
            yield from ((('w', str(x)) + q[0],) + q[1:] for q in h_prefix(lambda c, a, j, x=x: a[j] == v[at(x, j)], None if so == I else so)(c, env))
            yield from h_ext_(env, lambda k, x=x: v[at(x, k)], T(E), lambda k, x=x: at(x, k), ('ext', lt), tag=(str(x),))
    return h
def pext_post(d):
    def p(c):
        n = c.new['out']; E, at = axis(c, d); v = c.old['v']; return rdims(c, d) + [('every element is the extreme of exactly its own elements', forall(z3.Implies(inr(K, 0, n.len), n[K] == v[at(K, c._w(K))])))]
    return p
pext_err = lambda d: lambda c: z3.And(T(c.old['v'].dims[d]) == 0, *[T(x) > 0 for x in others(c, d)])
def gcnt2(d):
    def f(c):
        E, at = axis(c, d); v = c.old['v']; n = c._n = z3.Function('trues', I, I, I); g = Ghost('true elements of a slice')
        step = z3.If(v[at(K, J)] != 0, 1, 0)
        g.axioms = [z3.ForAll([K], n(K, 0) == 0, patterns=[n(K, 0)]), z3.ForAll([K, J], z3.Implies(J >= 0, n(K, J+1) == n(K, J) + step), patterns=[n(K, J+1), z3.MultiPattern(n(K, J), at(K, J))])]
        k = z3.Int('slice'); g.lemma('true elements of a slice, bounds', lambda t: z3.And(n(k, t) >= 0, n(k, t) <= t)); g.axioms.append(z3.ForAll([K, J], z3.Implies(J >= 0, z3.And(n(K, J) >= 0, n(K, J) <= J)), patterns=[n(K, J)]))
        return [c._at[1], g]
    return f
def pcnt_h(d):
    def h(c, env):
        E, at = axis(c, d); v = c.old['v']
        yield from h_prefix(lambda c, a, k: a[k] == c._n(k, T(E)))(c, env)
        for x in env.outer:
            yield from ((('w', str(x)) + q[0],) + q[1:] for q in h_prefix(lambda c, a, j, x=x: a[j] == v[at(x, j)])(c, env))
            for i in env.ints:
                for y in env.ints:
                    if y is not i: yield (('n', str(x), str(i), str(y)), lambda st, x=x, i=i, y=y: T(env.val(y, st)) == c._n(x, T(env.val(i, st))), True)
    return h
def pcnt_post(d):
    def p(c): n = c.new['out']; E, at = axis(c, d); return rdims(c, d) + [('every element counts exactly its own elements', forall(z3.Implies(inr(K, 0, n.len), n[K] == c._n(K, T(E)))))]
    return p
for D in (2, 3):
    for d in range(D):
        SPECS.append(Spec('h_pcount%d_%d' % (D, d), [Vec('v', D, 'bool'), Vec('out', D-1, 'u64', out=1)], pcnt_post(d), ghosts=gcnt2(d), hints=[pcnt_h(d)], doc='partial_count along dimension %d of %d' % (d, D)))
        if D == 3: continue
        SPECS.append(Spec('h_pmax%d_%d' % (D, d), [Vec('v', D, 'f64'), Vec('out', D-1, 'f64', out=1)], pext_post(d), err=pext_err(d), ghosts=gext(d, more), hints=[pext_h(d, more, 'f64')], doc='partial_max along dimension %d of %d' % (d, D)))
        SPECS.append(Spec('h_pmin%d_%d' % (D, d), [Vec('v', D, 'i32'), Vec('out', D-1, 'i32', out=1)], pext_post(d), err=pext_err(d), ghosts=gext(d, less), hints=[pext_h(d, less, 'i32')], doc='partial_min along dimension %d of %d' % (d, D)))
dim_err = lambda c: T(c.old['d'].val) >= 2
SPECS.append(Spec('h_red2_err', [Vec('v', 2, 'i32'), Int('d'), Vec('out', 1, 'i32', out=1)], lambda c: [('no result', z3.BoolVal(False))], pre=lambda c: [dim_err(c)], err=dim_err, doc='reduce: dimension that does not exist'))
SPECS.append(Spec('h_pcount2_err', [Vec('v', 2, 'bool'), Int('d'), Vec('out', 1, 'u64', out=1)], lambda c: [('no result', z3.BoolVal(False))], pre=lambda c: [dim_err(c)], err=dim_err, doc='partial_count: dimension that does not exist'))
# ---- ranks: the result is the element of rank r among n (not-a-number values rank last)
def gnan(c):
    if not hasattr(c, '_gn'): v = el(c, 'v'); c._gn = count('nans', lambda k: isnan_(v(k)), lambda k: v(k))
    return c._gn
def ranked(rank, x=None, extra=None):
    def f(c):
        v, N = el(c, 'v'), N_(c); x_ = c.ret if not isinstance(c.ret, IntV) else fv(c, c.ret); g = c.st.ghost.get('sorts')
        if not g: return [('not-a-number only without any number', z3.And(gnan(c).f(N) == N, isnan_(x_)))]
        P, Q = g[-1][:2]; r = T(rank(c))
        q = [('some element has a number', gnan(c).f(N) < N) if v(K).sort() != I else ('not empty', N > 0), ('valid rank', inr(r, 0, N)), ('an element', z3.And(inr(P(r), 0, N), v(P(r)) == x_)),
             ('the ranks are those of an ordering', forall(z3.Implies(inr(K, 0, N), z3.And(inr(Q(K), 0, N), P(Q(K)) == K)), pats=[Q(K)])),
             ('the elements of lower rank are not greater', forall(z3.Implies(z3.And(inr(K, 0, N), Q(K) < r), z3.Not(less(x_, v(K)))), pats=[Q(K)])),
             ('the elements of higher rank are not smaller', forall(z3.Implies(z3.And(inr(K, 0, N), Q(K) > r), z3.Not(less(v(K), x_))), pats=[Q(K)]))]
        if c.new['v'] is not None and c.spec_out:
            n = c.new['v']; q += [('dimensions match content', dims_ok(n)), ('same elements', z3.And(T(n.len) == N, forall(z3.Implies(inr(K, 0, N), n[K] == v(P(K))))))]
        return q
    return f
def outp(b, f):
    def g(c): c.spec_out = b; return f(c)
    return g
def h_nan(c, env): return h_fold(gnan)(c, env)
good = lambda c: N_(c) - gnan(c).f(N_(c))
halfn = lambda c: QD(good(c), z3.IntVal(2)); halfi = lambda c: QD(N_(c), z3.IntVal(2))
def pct(c):
    p = c.old['p'].val; x = ordf['F64'](FP.bin('fmul', n2f(good(c)), p)); n = good(c) - 1
    return z3.If(x < 0, 0, z3.If(x > z3.ToReal(n), n, z3.ToInt(x)))
def pctpre(c): return [N_(c) <= (1 << 24), z3.Not(fnan(FP.bin('fmul', n2f(good(c)), c.old['p'].val)))]
D_ = lambda d=1, **k: Vec('v', d, 'f64', **k)
gn = lambda c: [gnan(c)]
SPECS += [Spec('h_median_i', [Vec('v', 1, 'i32')], outp(0, ranked(halfi)), err=empty, doc='median of integers: the element of rank n/2'),
          Spec('h_median_d', [D_()], outp(0, ranked(halfn)), err=empty, ghosts=gn, hints=[h_nan], doc='median: the element of rank n/2 among the n that are numbers'),
          Spec('h_median_d2', [D_(2)], outp(0, ranked(halfn)), err=empty, ghosts=gn, hints=[h_nan], doc='median (2-d)'),
          Spec('h_inplace_median', [D_(out=1)], outp(1, ranked(halfn)), err=empty, ghosts=gn, hints=[h_nan], doc='inplace_median: as median; the array is rearranged'),
          Spec('h_percentile', [D_(), Flt('p')], outp(0, ranked(pct)), err=empty, pre=pctpre, ghosts=gn, hints=[h_nan], doc='percentile: the element of rank p*n (within the n numbers)'),
          Spec('h_inplace_percentile', [D_(out=1), Flt('p')], outp(1, ranked(pct)), err=empty, pre=pctpre, ghosts=gn, hints=[h_nan], doc='inplace_percentile')]
# ---- weighted percentile: the first element, in sorted order, at which the accumulated weight reaches the requested fraction of the total
def counts_(c, j): return z3.And(z3.Not(isnan_(el(c, 'v')(j))), z3.Not(isnan_(el(c, 'w')(j))))
def gtotw(c):
    if not hasattr(c, '_gt'):
        w = el(c, 'w'); c._gt = fold('total weight', lambda k: k, w, FP.const(0.0, 64), lambda a, k: z3.If(counts_(c, k), fadd(a, w(k)), a))
    return c._gt
def on_wp(c, st, rec):
    new = rec[3]; s = lambda j: z3.Select(new, j); w = el(c, 'w')
    c._ga = fold('weight so far', lambda k: k, s, FP.const(0.0, 64), lambda a, k: z3.If(counts_(c, s(k)), fadd(a, w(s(k))), a)); c._s = s
    return [c._ga]
def wfrac(c): return FP.bin('fmul', gtotw(c).f(N_(c)), c.old['p'].val if 'p' in [a.name for a in c.spec.args] else FP.const(0.5, 64))
def reached(c, k): return z3.And(counts_(c, c._s(k)), FP.cmp('oge', c._ga.f(k+1), wfrac(c)))
def h_wp(c, env):
    yield from h_fold(gtotw)(c, env)
    if not hasattr(c, '_ga'): return
    yield from ((('s',) + x[0],) + tuple(x[1:]) for x in h_fold(lambda c: c._ga)(c, env))
    for i in env.ints: yield (('notyet', str(i)), lambda st, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), z3.Not(reached(c, K))), patterns=[c._s(K)]))
def wppost(c):
    N = N_(c); x = c.ret; g = c.st.ghost.get('sorts')
    if not g: return [('not-a-number for a total weight of zero', z3.And(isnan_(x), feq(gtotw(c).f(N), FP.const(0.0, 64))))]
    s = c._s; v = el(c, 'v'); j = z3.Int('jw')
    first = lambda j: z3.And(0 <= j, j < N, reached(c, j), v(s(j)) == x, z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < j), z3.Not(reached(c, K))), patterns=[s(K)]))
    return [('positions in sorted order', forall(z3.Implies(z3.And(0 <= P_, P_ < Q_, Q_ < N), z3.Not(less(v(s(Q_)), v(s(P_))))), P_, Q_)),
            ('the first element that reaches the fraction', z3.Or(z3.Not(z3.ForAll([j], z3.Not(first(j)), patterns=[s(j)])), z3.And(isnan_(x), forall(z3.Implies(inr(K, 0, N), z3.Not(reached(c, K)))))))]
P_, Q_ = z3.Ints('p q')
wperr = lambda c: z3.Or(empty(c), T(c.old['v'].len) != T(c.old['w'].len))
SPECS += [Spec('h_wpercentile', [D_(), Vec('w', 1, 'f64'), Flt('p')], wppost, err=wperr, ghosts=lambda c: [gtotw(c)], on_sort=on_wp, hints=[h_wp, h_prefix(lambda c, a, k: a[k] == k)], doc='weighted_percentile'),
          Spec('h_wmedian', [D_(), Vec('w', 1, 'f64')], wppost, err=wperr, ghosts=lambda c: [gtotw(c)], on_sort=on_wp, hints=[h_wp, h_prefix(lambda c, a, k: a[k] == k)], doc='weighted_median: half of the total weight')]
# ---- several percentiles at once: each sorts the array left by the one before
def good2(c): n = gnan(c).f(N_(c)); return z3.If(n == N_(c), N_(c), N_(c) - n)
def pct2(c, p):
    x = ordf['F64'](FP.bin('fmul', n2f(good2(c)), c.old[p].val)); n = good2(c) - 1
    return z3.If(x < 0, 0, z3.If(x > z3.ToReal(n), n, z3.ToInt(x)))
def pcts(c):
    v, N, o = el(c, 'v'), N_(c), c.new['out']; g = c.st.ghost['sorts']
    P, Q = (lambda k: k), (lambda k: k); q = [('dimensions match content', dims_ok(o)), ('one value per fraction', T(o.len) == 2)]
    if len(g) != 2: raise Unsupported('no rank witness')
    for t, p in enumerate(('p', 'p2')):
        P0, Q0 = P, Q; P = lambda k, P0=P0, t=t: P0(g[t][0](k)); Q = lambda k, Q0=Q0, t=t: g[t][1](Q0(k)); r = z3.Int('rank of ' + p); x = o[z3.IntVal(t)]
        q += [('valid rank', inr(r, 0, N)), ('an element', z3.And(inr(P(r), 0, N), v(P(r)) == x)), ('the ranks are those of an ordering', forall(z3.Implies(inr(K, 0, N), z3.And(inr(Q(K), 0, N), P(Q(K)) == K)), pats=[Q(K)])),
              ('the elements of lower rank are not greater', forall(z3.Implies(z3.And(inr(K, 0, N), Q(K) < r), z3.Not(less(x, v(K)))), pats=[Q(K)])),
              ('the elements of higher rank are not smaller', forall(z3.Implies(z3.And(inr(K, 0, N), Q(K) > r), z3.Not(less(v(K), x))), pats=[Q(K)]))]
    return q
SPECS += [Spec('h_percentiles', [D_(), Flt('p'), Flt('p2'), Vec('out', 1, 'f64', out=1)], pcts, err=empty, pre=lambda c: [N_(c) <= (1 << 24)] + [f for p in ('p', 'p2') for f in (z3.Not(fnan(FP.bin('fmul', n2f(good2(c)), c.old[p].val))), z3.Int('rank of ' + p) == pct2(c, p))], ghosts=gn, hints=[h_nan], doc='percentiles: two fractions at once')]
