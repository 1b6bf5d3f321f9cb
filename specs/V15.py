from irv.contract import *
from irv.lib import *
from irv.core import mul, QD, QM
BOUNDED = 'all image sizes up to 4x4 (flips up to 7x7), all margins up to 3, shifts and translations in [-9,9] plus extremes, all regions with corners in [-4,6], recentring on all positions in [-7,9] with all target sizes up to 4x3; random images up to 30x30; images and views'
ASSUME = ['shift, translate_integer, recenter and the image form of subregion are decided by the bounded stand-in only (standard algorithms over strided iterators; scatter through index lists)', 'margins, offsets and regions are far from the largest representable integer']
ORACLE_LIBS = ['-lcfitsio', '-lwcs', '-lfftw3', '-pthread']
HUGE = 1 << 40
val = lambda c, n: T(c.old[n].val)
def at(v, i, j): return v[T(mul(T(i), T(v.dims[1]))) + T(j)]
def image(c, n, k, M, src, lo, hi, off, dflt):
    """pixel k of an image with rows of M: source pixel (a - off0, b - off1) if lo <= (a, b) < hi, else the default"""
    a, b = QD(k, T(M)), QM(k, T(M))
    return n[k] == z3.If(z3.And(a >= lo[0], a < hi[0], b >= lo[1], b < hi[1]), at(src, a - off[0], b - off[1]), dflt)
def small(*names): return lambda c: [z3.And(val(c, n) >= -HUGE, val(c, n) <= HUGE) for n in names]
V_ = Vec('v', 2, 'i32'); R = Vec('r', 2, 'i32', out=1)
def enlarged(N, M, off):
    def post(c):
        o, n = c.old['v'], c.new['r']; a, b = off(c); p, q = T(o.dims[0]), T(o.dims[1])
        return [('dimensions match content', dims_ok(n)), ('size', z3.And(T(n.dims[0]) == N(c), T(n.dims[1]) == M(c))), ('every pixel', forall(z3.Implies(inr(K, 0, n.len), image(c, n, K, M(c), o, (a, b), (a + p, b + q), (a, b), val(c, 'def')))))]
    NN = lambda c: T(mul(N(c), M(c)))
    def hint(c, env):
        o = c.old['v']; a, b = off(c); p, q = T(o.dims[0]), T(o.dims[1]); M_ = M(c); x0 = env.outer
        for A in env.arrs:
            for i in env.ints:
                if i.kind == 'ptr': yield (('filled', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(inr(K, 0, env.val(i, st)), env.val(A, st)[K] == val(c, 'def')), patterns=[env.val(A, st)[K]])); continue
                yield (('rows', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(inr(K, 0, NN(c)), image(c, env.val(A, st), K, M_, o, (a, b), (a + T(env.val(i, st)), b + q), (a, b), val(c, 'def'))), patterns=[env.val(A, st)[K]]))
                for x in x0:
                    def f(st, A=A, i=i, x=x):
                        A_ = env.val(A, st); y = T(env.val(i, st)); r, s = QD(K, M_), QM(K, M_)
                        return z3.ForAll([K], z3.Implies(inr(K, 0, NN(c)), A_[K] == z3.If(z3.And(r >= a, s >= b, s < b + q, z3.Or(r < a + x, z3.And(r == a + x, s < b + y))), at(o, r - a, s - b), val(c, 'def'))), patterns=[A_[K]])
                    yield (('row part', str(A), str(i), str(x)), f)
    return post, hint
SPECS = []
e4 = enlarged(lambda c: val(c, 'n'), lambda c: val(c, 'm'), lambda c: (val(c, 'a'), val(c, 'b')))
SPECS += [Spec('h_enlarge', [V_, Int('a'), Int('b'), Int('n'), Int('m'), Int('def', 'i32'), R], e4[0], hints=[e4[1]], pre=lambda c: small('a', 'b', 'n', 'm')(c) + [T(c.old['v'].dims[0]) + val(c, 'a') <= val(c, 'n'), T(c.old['v'].dims[1]) + val(c, 'b') <= val(c, 'm'), T(mul(val(c, 'n'), val(c, 'm'))) <= MAXLEN], opts=dict(lean=1, nlx=1), doc='enlarge with four margins')]
def enl1():
    o2 = lambda c: c.old['v']; u = lambda c: val(c, 'a')
    return enlarged(lambda c: T(o2(c).dims[0]) + 2*u(c), lambda c: T(o2(c).dims[1]) + 2*u(c), lambda c: (u(c), u(c)))
def filled2(src, N, M, more=()):
    """r[k] == src(row, column) for k < rows*M + columns"""
    def hint(c, env):
        M_ = M(c)
        for A in env.arrs:
            for i in env.ints:
                yield (('rows', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(inr(K, 0, mul(T(env.val(i, st)), M_)), env.val(A, st)[K] == src(c, QD(K, M_), QM(K, M_))), patterns=[env.val(A, st)[K]]))
                for x in env.outer:
                    yield (('row part', str(A), str(i), str(x)), lambda st, A=A, i=i, x=x: z3.ForAll([K], z3.Implies(inr(K, 0, T(mul(x, M_)) + T(env.val(i, st))), env.val(A, st)[K] == src(c, QD(K, M_), QM(K, M_))), patterns=[env.val(A, st)[K]]))
    return hint
def exact(N, M, src, extra=()):
    def post(c):
        n = c.new['r']; e = z3.Or(N(c) == 0, M(c) == 0)
        return [('dimensions match content', dims_ok(n)), ('size', z3.If(e, T(n.len) == 0, z3.And(T(n.dims[0]) == N(c), T(n.dims[1]) == M(c)))), ('every pixel', forall(z3.Implies(inr(K, 0, n.len), n[K] == src(c, QD(K, M(c)), QM(K, M(c))))))]
    return post
n_, m_ = (lambda c: val(c, 'n')), (lambda c: val(c, 'm'))
shsrc = lambda c, a, b: at(c.old['v'], a + val(c, 'a'), b + val(c, 'b'))
d0, d1 = (lambda c: T(c.old['v'].dims[0])), (lambda c: T(c.old['v'].dims[1]))
SPECS += [Spec('h_shrink', [V_, Int('a'), Int('b'), Int('n'), Int('m'), R], exact(n_, m_, shsrc), hints=[filled2(shsrc, n_, m_)], pre=lambda c: [val(c, 'a') + n_(c) <= d0(c), val(c, 'b') + m_(c) <= d1(c), T(mul(n_(c), m_(c))) <= T(c.old['v'].len)], opts=dict(lean=1, nlx=1), doc='shrink with four margins'),
    Spec('h_shrink_out', [V_, Int('a'), Int('b'), Int('c'), Int('d'), R], lambda c: [('dimensions match content', dims_ok(c.new['r'])), ('empty', T(c.new['r'].len) == 0)], pre=lambda c: small('a', 'b', 'c', 'd')(c) + [z3.Or(val(c, 'a') + val(c, 'c') >= d0(c), val(c, 'b') + val(c, 'd') >= d1(c))], doc='shrink with margins that leave nothing'),
    ]
fx = lambda c, a, b: at(c.old['v'], a, d1(c) - 1 - b)
fy = lambda c, a, b: at(c.old['v'], d0(c) - 1 - a, b)
def divmods(c, env, forms, M_):
    """row and column of the pixels the loop body touches (facts about quotient and remainder)"""
    for i in env.ints:
        for x in env.outer:
            for n, f in enumerate(forms):
                def g(st, i=i, x=x, f=f):
                    r, s = f(x, T(env.val(i, st))); k = T(mul(r, M_)) + s; return z3.Implies(z3.And(r >= 0, s >= 0, s < M_), z3.And(QD(k, M_) == r, QM(k, M_) == s))
                yield (('divmod', n, str(i), str(x)), g, False)
def fxh(c, env):
    yield from divmods(c, env, [lambda x, y: (x, y), lambda x, y: (x, d1(c) - 1 - y)], d1(c))
    M_, v = d1(c), c.old['v']; a, b = QD(K, M_), QM(K, M_)
    for A in env.arrs:
        for i in env.ints:
            yield (('rows', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(inr(K, 0, v.len), env.val(A, st)[K] == z3.If(a < T(env.val(i, st)), fx(c, a, b), v[K])), patterns=[env.val(A, st)[K]]))
            for x in env.outer:
                def f(st, A=A, i=i, x=x):
                    y = T(env.val(i, st)); return z3.ForAll([K], z3.Implies(inr(K, 0, v.len), env.val(A, st)[K] == z3.If(z3.Or(a < x, z3.And(a == x, z3.Or(b < y, b >= M_ - y))), fx(c, a, b), v[K])), patterns=[env.val(A, st)[K]])
                yield (('row part', str(A), str(i), str(x)), f)
def fyh(c, env):
    yield from divmods(c, env, [lambda x, y: (x, y), lambda x, y: (d0(c) - 1 - x, y)], d1(c))
    M_, v, N_ = d1(c), c.old['v'], d0(c); a, b = QD(K, M_), QM(K, M_)
    for A in env.arrs:
        for i in env.ints:
            def g(st, A=A, i=i):
                y = T(env.val(i, st)); return z3.ForAll([K], z3.Implies(inr(K, 0, v.len), env.val(A, st)[K] == z3.If(z3.Or(a < y, a >= N_ - y), fy(c, a, b), v[K])), patterns=[env.val(A, st)[K]])
            yield (('rows', str(A), str(i)), g)
            for x in env.outer:
                def f(st, A=A, i=i, x=x):
                    y = T(env.val(i, st)); return z3.ForAll([K], z3.Implies(inr(K, 0, v.len), env.val(A, st)[K] == z3.If(z3.Or(a < x, a >= N_ - x, z3.And(z3.Or(a == x, a == N_ - 1 - x), b < y)), fy(c, a, b), v[K])), patterns=[env.val(A, st)[K]])
                yield (('row part', str(A), str(i), str(x)), f)
SPECS += [Spec('h_flip_x', [V_, R], exact(d0, d1, fx), hints=[fxh], opts=dict(lean=1, nlx=1), doc='flip_x'), Spec('h_flip_y', [V_, R], exact(d0, d1, fy), hints=[fyh], opts=dict(lean=1, nlx=1), doc='flip_y')]
def region(c):
    g = c.old['reg']; return [g[z3.IntVal(i)] for i in range(4)]
def covered(c): x0, y0, x1, y1 = region(c); return z3.Not(z3.Or(x0 >= d0(c), x1 < 0, x0 > x1, y0 >= d1(c), y1 < 0, y0 > y1))
# overlapping region: one contract per combination of sides that are clipped (low rows, low columns, high rows, high columns), see the harness
def par(c, n):
    N, M, Z = d0(c), d1(c), z3.IntVal(0); v = lambda x: val(c, x)
    return ((N if n & 5 == 5 else v('nn')), (Z if n & 1 else N - v('nn') if n & 4 else v('a0')), (v('lx') if n & 1 else Z), (v('hx') if n & 4 else Z),
            (M if n & 10 == 10 else v('mm')), (Z if n & 2 else M - v('mm') if n & 8 else v('b0')), (Z if not n & 2 else v('ly') if n & 8 else v('ny') - v('mm')), (v('ny') if n & 10 else v('mm')))
def casepre(n):
    def pre(c):
        nn, a0, lx, hx, mm, b0, ly, ny = par(c, n); hy = ny - ly - mm; b = lambda x, bit: x >= 1 if n & bit else x == 0
        return small('a0', 'nn', 'lx', 'hx', 'b0', 'mm', 'ly', 'ny')(c) + [nn >= 1, mm >= 1, a0 >= 0, b0 >= 0, a0 + nn <= d0(c), b0 + mm <= d1(c), b(lx, 1), b(ly, 2), b(hx, 4), b(hy, 8), T(mul(nn, mm)) <= T(c.old['v'].len), T(mul(lx, ny)) <= 1 << 60, T(mul(nn, ny)) <= 1 << 60]
    return pre
def subpre(c): return [z3.And(x >= -HUGE, x <= HUGE) for x in region(c)]
def rvk(n):
    def f(c, k): nn, a0, lx, hx, mm, b0, ly, ny = par(c, n); return T(mul(QD(k, mm) + a0, d1(c))) + QM(k, mm) + b0
    return f
def rrk(n):
    def f(c, k): nn, a0, lx, hx, mm, b0, ly, ny = par(c, n); return T(mul(QD(k, mm) + lx, ny)) + QM(k, mm) + ly
    return f
def subpost(n):
    def post(c):
        nn, a0, lx, hx, mm, b0, ly, ny = par(c, n); rv, rr = c.new['rv'], c.new['rr']
        return [('dimensions match content', z3.And(dims_ok(rv), dims_ok(rr))), ('number of pixels', z3.And(T(rv.len) == T(mul(nn, mm)), T(rr.len) == T(rv.len))),
                ('positions in the image', forall(z3.Implies(inr(K, 0, rv.len), rv[K] == rvk(n)(c, K)))), ('positions in the region', forall(z3.Implies(inr(K, 0, rr.len), rr[K] == rrk(n)(c, K))))]
    return post
SB = [V_] + [Int(x, 'i64') for x in ('a0', 'nn', 'lx', 'hx', 'b0', 'mm', 'ly', 'ny')] + [Vec('rv', 1, 'u64', out=1), Vec('rr', 1, 'u64', out=1)]
SA = [V_, Vec('reg', 1, 'i64'), Vec('rv', 1, 'u64', out=1), Vec('rr', 1, 'u64', out=1)]
four = lambda c: [T(c.old['reg'].len) == 4]
SPECS += [Spec('h_sub_none', SA, lambda c: [('dimensions match content', z3.And(dims_ok(c.new['rv']), dims_ok(c.new['rr']))), ('empty', z3.And(T(c.new['rv'].len) == 0, T(c.new['rr'].len) == 0))], err=lambda c: T(c.old['reg'].len) != 4, pre=lambda c: subpre(c) + [z3.Or(T(c.old['reg'].len) != 4, z3.Not(covered(c)))], doc='subregion (indices): no overlap, or not four components')]
for n in range(16):
    SPECS += [Spec('h_sub_%d' % n, SB, subpost(n), hints=[h_prefix(lambda c, a, k, n=n: a[k] == rvk(n)(c, k)), h_prefix(lambda c, a, k, n=n: a[k] == rrk(n)(c, k))], pre=casepre(n), opts=dict(lean=1, nlx=1), doc='subregion (indices): overlap, clipped sides: ' + (', '.join(x for i, x in enumerate(('low rows', 'low columns', 'high rows', 'high columns')) if n >> i & 1) or 'none'))]
