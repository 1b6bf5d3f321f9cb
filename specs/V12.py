from irv.contract import *
from irv.lib import *
from irv.core import mul
BOUNDED = 'all functions on all data sets up to 4 values over a grid with the edges and not-a-number, contiguous and separated bins, random larger data sets and bins (also reversed), two-dimensional histograms; bin construction for 1..40 bins'
ASSUME = ['counting or summing over a range does not depend on the order of its elements (std::partition permutes)', 'bins given to histogram() are disjoint', 'weighted, positional and two-dimensional histograms: bounded stand-in only', 'cumulative sums of integers do not overflow', 'in_bin_open with a single bin is left unspecified']
SPECS = []
fadd = lambda a, b: FP.bin('fadd', a, b); fsub = lambda a, b: FP.bin('fsub', a, b); fmul = lambda a, b: FP.bin('fmul', a, b)
half = lambda: FP.const(0.5, 64)
n2f = lambda n: FP.fn('i2f_F64', I, F64)(T(n))
isb = lambda c, n='b': T(c.old[n].dims[0]) == 2
lo = lambda b, i: b[T(i)]
hi = lambda b, i: b[T(b.dims[1]) + T(i)]
def le(x, y): return FP.cmp('ole', x, y) if x.sort() != I else x <= y
def lt(x, y): return flt(x, y) if x.sort() != I else x < y
inb = lambda x, b, i: z3.And(le(lo(b, i), x), lt(x, hi(b, i)))
O = lambda d, k: Vec('out', d, k, out=1)
def dims(c, *ds): n = c.new['out']; return ('dimensions', z3.And(dims_ok(n), *[T(a) == T(b) for a, b in zip(n.dims, ds)]))
def each(c, val, N, lab='elements'): n = c.new['out']; return (lab, forall(z3.Implies(inr(K, 0, N), n[K] == val(K))))
# ---- construction of bins
def h_bins(low, up, nb):
    def h(c, env):
        for A in env.arrs:
            if A.ekind.w and A.ekind.name != 'i32': continue
            for i in env.ints:
                yield (('low', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == low(c, K)), patterns=[env.val(A, st)[K]]))
                yield (('up', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(T(nb(c)) <= K, K < T(nb(c)) + T(env.val(i, st))), env.val(A, st)[K] == up(c, K - T(nb(c)))), patterns=[env.val(A, st)[K]]))
    return h
def bins_post(low, up, nb):
    return lambda c: [dims(c, 2, nb(c)), ('lower edges', forall(z3.Implies(inr(K, 0, nb(c)), c.new['out'][K] == low(c, K)))), ('upper edges', forall(z3.Implies(inr(K, 0, nb(c)), c.new['out'][T(nb(c)) + K] == up(c, K)))),
                      ('contiguous', forall(z3.Implies(inr(K, 0, T(nb(c))-1), c.new['out'][T(nb(c)) + K] == c.new['out'][K+1])))]
few = lambda c: T(c.old['v'].len) <= 1
for s, k in (('d', 'f64'), ('i', 'i32')):
    L_ = lambda c, k: c.old['v'][k]; U_ = lambda c, k: c.old['v'][k+1]; nb = lambda c: sub(c.old['v'].len, 1)
    SPECS.append(Spec('h_edges_' + s, [Vec('v', 1, k), O(2, k)], bins_post(L_, U_, nb), err=few, hints=[h_bins(L_, U_, nb)], doc='bins from their edges'))
V_ = lambda c, k: c.old['v'][k]; N_ = lambda c: T(c.old['v'].len)
mid = lambda c, k: fmul(half(), fadd(V_(c, k), V_(c, k+1)))
cl = lambda c, k: z3.If(k == 0, fsub(V_(c, 0), fmul(half(), fsub(V_(c, 1), V_(c, 0)))), mid(c, k-1))
cu = lambda c, k: z3.If(k == N_(c)-1, fadd(V_(c, N_(c)-1), fmul(half(), fsub(V_(c, N_(c)-1), V_(c, N_(c)-2)))), mid(c, k))
SPECS.append(Spec('h_centers', [Vec('v', 1, 'f64'), O(2, 'f64')], bins_post(cl, cu, lambda c: c.old['v'].len), err=few, hints=[h_bins(cl, cu, lambda c: c.old['v'].len)], doc='bins from their centers'))
mi = lambda c: c.old['mi'].val; ma = lambda c: c.old['ma'].val; nn = lambda c: c.old['n'].val
SPECS.append(Spec('h_bins1', [Flt('mi'), Flt('ma'), O(2, 'f64')], lambda c: [dims(c, 2, 1), ('edges', z3.And(c.new['out'][0] == mi(c), c.new['out'][1] == ma(c)))], doc='a single bin'))
step = lambda c: FP.bin('fdiv', fsub(ma(c), mi(c)), n2f(nn(c)))
bl = lambda c, k: fadd(mi(c), fmul(n2f(k), step(c))); bu = lambda c, k: fadd(mi(c), fmul(n2f(k+1), step(c)))
SPECS.append(Spec('h_binsn', [Flt('mi'), Flt('ma'), Int('n'), O(2, 'f64')], bins_post(bl, bu, nn), pre=lambda c: [T(nn(c)) <= 1 << 40], hints=[h_bins(bl, bu, nn)], doc='n bins of equal width'))
# ---- membership
two = lambda c, n='b': [z3.Implies(isb(c, n), T(c.old[n].len) == 2*T(c.old[n].dims[1]))]      # consequence of the size of b
tv = lambda c: T(c.old['t'].val); ib = lambda c: T(c.old['ib'].val)
bad1 = lambda c: T(c.old['b'].len) != 2
bad2 = lambda c: z3.Or(z3.Not(isb(c)), ib(c) >= T(c.old['b'].dims[1]))
def opn(c, x):
    b = c.old['b']; n = T(b.dims[1]); return z3.And(z3.Not(isnan_(x)), z3.Or(ib(c) == 0, le(lo(b, ib(c)), x)), z3.Or(ib(c) == n-1, lt(x, hi(b, ib(c)))))
def in1(c, x): b = c.old['b']; return z3.And(le(b[0], x), lt(x, b[1]))
in2 = lambda c, x: inb(x, c.old['b'], ib(c))
bool_ = lambda c: T(c.ret) if isinstance(c.ret, bool) else c.ret if z3.is_expr(c.ret) and z3.is_bool(c.ret) else (T(c.ret.t) != 0)
for e, a, f, er in (('h_in1', [Flt('t'), Vec('b', 1, 'f64')], in1, bad1), ('h_in1i', [Int('t', 'i32'), Vec('b', 1, 'i32')], in1, bad1), ('h_in2', [Flt('t'), Vec('b', 2, 'f64'), Int('ib')], in2, bad2), ('h_ino2', [Flt('t'), Vec('b', 2, 'f64'), Int('ib')], opn, bad2)):
    SPECS.append(Spec(e, a, lambda c, f=f: [('true exactly for values in the half-open bin', bool_(c) == f(c, tv(c)))], err=er, pre=(lambda c: [T(c.old['b'].dims[1]) != 1, z3.Not(isnan_(tv(c)))] + two(c)) if f is opn else two if f is in2 else None, doc='membership of a value'))
for e, D, a, f, er in (('h_vin1', 1, [Vec('b', 1, 'f64')], in1, bad1), ('h_vin1_2', 2, [Vec('b', 1, 'f64')], in1, bad1), ('h_vin2', 1, [Vec('b', 2, 'f64'), Int('ib')], in2, bad2), ('h_vino2', 1, [Vec('b', 2, 'f64'), Int('ib')], opn, bad2)):
    val = lambda c, k, f=f: z3.If(f(c, c.old['v'][k]), 1, 0)
    SPECS.append(Spec(e, [Vec('v', D, 'f64')] + a + [O(D, 'bool')], lambda c, val=val: [dims(c, *c.old['v'].dims), each(c, lambda k: val(c, k), c.old['v'].len, 'true exactly for values in the half-open bin')], err=er, pre=(lambda c: [T(c.old['b'].dims[1]) != 1] + two(c)) if f is opn else two if f is in2 else None, hints=[h_prefix(lambda c, a, k, val=val: a[k] == val(c, k))], doc='membership of every element'))
B2 = lambda c: c.old['b']
ce = lambda c, k: fmul(half(), fadd(hi(B2(c), k), lo(B2(c), k))); wi = lambda c, k: fsub(hi(B2(c), k), lo(B2(c), k))
nb2 = lambda c: T(B2(c).dims[1])
h_any = lambda val: h_prefix(lambda c, a, k: a[k] == val(c, k), F64)
h_b = [h_any(lambda c, k: hi(B2(c), k)), h_any(lambda c, k: lo(B2(c), k)), h_any(lambda c, k: fadd(hi(B2(c), k), lo(B2(c), k))), h_any(ce), h_any(wi), h_prefix(lambda c, a, k: a[k] == nb2(c) + k), h_prefix(lambda c, a, k: a[k] == k)]
SPECS += [Spec('h_center', [Vec('b', 2, 'f64'), O(1, 'f64')], lambda c: [dims(c, nb2(c)), each(c, lambda k: ce(c, k), nb2(c))], err=lambda c: z3.Not(isb(c)), pre=two, hints=h_b, doc='bin centers'),
          Spec('h_width', [Vec('b', 2, 'f64'), O(1, 'f64')], lambda c: [dims(c, nb2(c)), each(c, lambda k: wi(c, k), nb2(c))], err=lambda c: z3.Not(isb(c)), pre=two, hints=h_b, doc='bin widths'),
          Spec('h_center1', [Vec('b', 1, 'f64')], lambda c: [('value', c.ret == fmul(half(), fadd(B2(c)[1], B2(c)[0])))], err=bad1, doc='center of a bin'),
          Spec('h_width1', [Vec('b', 1, 'f64')], lambda c: [('value', c.ret == fsub(B2(c)[1], B2(c)[0]))], err=bad1, doc='width of a bin')]
# ---- cumulative sums
def gcum(rev, fp):
    def f(c):
        if not hasattr(c, '_g'):
            v = c.old['v']; n = T(v.len); at = lambda k: v[k]; so = F64 if fp else I
            if rev:
                f = z3.Function('cum', I, so); j = z3.Int('j'); g = Ghost('cumulative sum'); g.f = f
                g.axioms = [f(n) == (FP.const(0.0, 64) if fp else 0), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), f(j) == (fadd(f(j+1), v[j]) if fp else f(j+1) + v[j])), patterns=[z3.MultiPattern(f(j), v[j])])]; c._g = g
                return g
            f = z3.Function('cum', I, so); j = z3.Int('j'); g = Ghost('cumulative sum'); g.f = f; z = FP.const(0.0, 64) if fp else z3.IntVal(0)
            stp = fadd(f(j), at(j)) if fp else f(j) + at(j)
            g.axioms = [f(z3.IntVal(0)) == z, z3.ForAll([j], z3.Implies(j >= 0, f(j+1) == stp), patterns=[f(j+1)])]; c._g = g
        return c._g
    return f
for e, rev, fp in (('h_cumul', 0, 1), ('h_cumulr', 1, 1), ('h_cumul_i', 0, 0), ('h_cumulr_i', 1, 0)):
    g = gcum(rev, fp)
    val = lambda c, k, g=g, rev=rev: g(c).f(k) if rev else g(c).f(k+1)
    def h_rev(c, env, val=val, fp=fp):
        for A in env.arrs:
            if A.ekind.sort != (F64 if fp else I): continue
            for i in env.ints:
                yield (('rev', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(N_(c) - T(env.val(i, st)) <= K, K < N_(c)), env.val(A, st)[K] == val(c, K)), patterns=[env.val(A, st)[K]]))
                zr = FP.const(0.0, 64) if fp else z3.IntVal(0)
                yield (('zer', str(A), str(i)), lambda st, A=A, i=i, zr=zr: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < N_(c) - T(env.val(i, st))), env.val(A, st)[K] == zr), patterns=[env.val(A, st)[K]]))
    def pre(c, fp=fp, val=val):     # adding zero changes nothing (no overflow of integers)
        if fp: return []
        return [forall(z3.Implies(inr(K, 0, N_(c)), z3.And(val(c, K) >= -(1 << 63), val(c, K) < 1 << 63)), pats=[val(c, K)])]
    zero_ = lambda c: [z3.ForAll([z3.Const('fz', F64)], fadd(FP.const(0.0, 64), z3.Const('fz', F64)) == z3.Const('fz', F64), patterns=[fadd(FP.const(0.0, 64), z3.Const('fz', F64))])]
    SPECS.append(Spec(e, [Vec('v', 1, 'f64' if fp else 'i64'), O(1, 'f64' if fp else 'i64')], lambda c, val=val: [dims(c, N_(c)), each(c, lambda k: val(c, k), N_(c), 'sum of all the elements up to this one' )], pre=pre, ghosts=lambda c, g=g: [g(c)],
        hints=[h_rev] if rev else [h_prefix(lambda c, a, k, val=val: a[k] == val(c, k), F64 if fp else None), h_suffix(lambda c, a, k, fp=fp: a[k] == (FP.const(0.0, 64) if fp else 0), lambda c: N_(c), F64 if fp else None)], doc='cumulative sum' + (' from the end' if rev else '')))
# ---- histograms
def hist(kind, asz, pred, weight=None, wmax=0):
    """cnt(A, f, h, i): number (or weight) of the elements at positions f..h-1 of A that are in bin i"""
    def f(c):
        if hasattr(c, '_h'): return c._h
        AS = z3.ArraySort(I, KINDS[kind].sort); A, B = z3.Const('A', AS), z3.Const('B', AS); f0, h, m, i, q = z3.Ints('f0 h m i q')
        cnt = z3.Function('inbin', AS, I, I, I, I); g = Ghost('data in a bin'); g.f = cnt; g.kind = kind
        w = (lambda x: weight(c, x)) if weight else (lambda x: z3.IntVal(1)); P = lambda x, i: pred(c, x, i)
        g.axioms = [z3.ForAll([A, f0, i], cnt(A, f0, f0, i) == 0, patterns=[cnt(A, f0, f0, i)]),
                    z3.ForAll([A, f0, h, i], z3.Implies(h >= f0, cnt(A, f0, h+1, i) == cnt(A, f0, h, i) + z3.If(P(A[h], i), w(A[h]), 0)), patterns=[cnt(A, f0, h+1, i)] + ([z3.MultiPattern(cnt(A, f0, h, i), A[h])] if weight else []))]
        def lem(lab, F, vs, pats):
            g.axioms, ax = g.axioms[:2], g.axioms; g.lemma(lab, F, f0); g.axioms = ax; x = F(h); g.axioms.append(z3.ForAll(vs, z3.Implies(h >= f0, x), patterns=pats))
        if not weight: lem('all inside', lambda h: z3.Or(cnt(A, f0, h, i) == h - f0, z3.Exists([q], z3.And(f0 <= q, q < h, z3.Not(P(A[q], i))))), [A, f0, h, i], [cnt(A, f0, h, i)])
        lem('none inside', lambda h: z3.Or(cnt(A, f0, h, i) == 0, z3.Exists([q], z3.And(f0 <= q, q < h, P(A[q], i)))), [A, f0, h, i], [cnt(A, f0, h, i)])
        if not weight: lem('bounds', lambda h: z3.And(cnt(A, f0, h, i) >= 0, cnt(A, f0, h, i) <= h - f0), [A, f0, h, i], [cnt(A, f0, h, i)])
        g.goals.append(('split base', list(g.axioms[:2]) + [f0 <= m], cnt(A, f0, m, i) == cnt(A, f0, m, i) + cnt(A, m, m, i)))
        g.goals.append(('split step', list(g.axioms[:2]) + [f0 <= m, m <= h, cnt(A, f0, h, i) == cnt(A, f0, m, i) + cnt(A, m, h, i)], cnt(A, f0, h+1, i) == cnt(A, f0, m, i) + cnt(A, m, h+1, i)))
        g.axioms.append(z3.ForAll([A, f0, m, h, i], z3.Implies(z3.And(f0 <= m, m <= h), cnt(A, f0, h, i) == cnt(A, f0, m, i) + cnt(A, m, h, i)), patterns=[z3.MultiPattern(cnt(A, f0, m, i), cnt(A, m, h, i))]))
        lem('same elements', lambda h: z3.Or(cnt(A, f0, h, i) == cnt(B, f0, h, i), z3.Exists([q], z3.And(f0 <= q, q < h, A[q] != B[q]))), [A, B, f0, h, i], [z3.MultiPattern(cnt(A, f0, h, i), cnt(B, f0, h, i))])
        D = g.D = z3.Const('data', AS); v = asz(c); g.axioms.append(z3.ForAll([K], D[K] == v(K), patterns=[D[K]])); g.N = N_(c); c._h = g
        return g
    return f
def on_part(g):
    def f(c, st, rec):
        old, new, f0, m, l0 = rec; G = g(c); x = Ghost('order'); i = z3.Int('i')
        if new.sort() != G.D.sort(): return []
        x.axioms = [z3.ForAll([i], z3.And(G.f(new, f0, l0, i) == G.f(old, f0, l0, i), G.f(new, f0, l0, i) == G.f(new, f0, m, i) + G.f(new, m, l0, i)), patterns=[G.f(old, f0, l0, i), G.f(new, m, l0, i), G.f(new, f0, l0, i), G.f(new, f0, m, i), G.f(G.D, 0, G.N, i)])]
        return [x]
    return f
def h_hist(g, rest=True):
    def h(c, env):
        G = g(c); D, N = G.D, G.N
        tot = lambda k: G.f(D, 0, N, k)
        yield from h_prefix(lambda c, a, k: a[k] == tot(k))(c, env)
        for A in env.arrs:
            if A.ekind.sort != I: continue
            for i in env.ints:
                yield (('zero', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(T(env.val(i, st)) <= K, env.val(A, st)[K] == 0), patterns=[env.val(A, st)[K]]))
        for A in env.arrs if rest else ():
            if A.ekind.name != G.kind: continue
            for i in env.ints:
                for p in env.ints:
                    if p is i: continue
                    def f(st, A=A, i=i, p=p):
                        a = env.val(A, st); x = G.f(a, T(env.val(p, st)), N, K)
                        return z3.ForAll([K], z3.Implies(z3.And(T(env.val(i, st)) <= K, K < nb2(c)), x == tot(K)), patterns=[x, tot(K)])
                    yield (('rest', str(A), str(i), str(p)), f)
    return h
def disj(c, n='b'):
    b = c.old[n]; i, j = z3.Ints('i j'); return z3.ForAll([i, j], z3.Implies(z3.And(inr(i, 0, b.dims[1]), inr(j, 0, b.dims[1]), i != j), z3.Or(isnan_(lo(b, i)), isnan_(hi(b, i)), isnan_(lo(b, j)), isnan_(hi(b, j)), le(hi(b, i), lo(b, j)), le(hi(b, j), lo(b, i)))), patterns=[z3.MultiPattern(lo(b, i), lo(b, j))])
pre_h = lambda c: [disj(c)] + two(c)
def hist_post(g):
    return lambda c: [dims(c, nb2(c)), each(c, lambda k: g(c).f(g(c).D, 0, N_(c), k), nb2(c), 'number of data in every bin')]
for e, a, k in (('h_hist', [Vec('v', 1, 'f64')], 'f64'), ('h_hist_i', [Vec('v', 1, 'i32')], 'i32'), ('h_hist_2', [Vec('v', 2, 'f64')], 'f64'), ('h_hist_view', [Vec('p', 1, 'f64'), View('v', 1, 'p')], 'f64')):
    g = hist(k, lambda c: el(c, 'v'), lambda c, x, i: inb(x, c.old['b'], i)); so = KINDS[k].sort
    SPECS.append(Spec(e, a + [Vec('b', 2, k), O(1, 'u64')], hist_post(g), err=lambda c: z3.Not(isb(c)), pre=pre_h, ghosts=lambda c, g=g: [g(c)], on_part=on_part(g), hints=[h_hist(g), h_prefix(lambda c, a, k: a[k] == el(c, 'v')(k), None if so == I else so)], doc='histogram of counts'))
