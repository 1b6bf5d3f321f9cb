from irv.contract import *
from irv.lib import *
from irv.core import mul, QD, QM
BOUNDED = 'interpolation (linear, with uncertainties, cubic spline on irregular and regular grids, bilinear, rebin) and integration (whole table, range, hinted, binned, cumulative) on all small tables at, between and beyond their points against an independent reference; degenerate sizes'
ASSUME = ['floating-point operations uninterpreted (commutative addition and multiplication); the segment containing a position exists (the table is finite and sorted)', 'tables are sorted and hold no not-a-number value (documented precondition)', 'splines, ranges of integration, bilinear maps on a grid, rebin: bounded stand-in only']
SPECS = []
B = lambda op: lambda a, b: FP.bin(op, a, b)
fa, fs, fm, fd = B('fadd'), B('fsub'), B('fmul'), B('fdiv')
ONE, HALF, Z = FP.const(1.0, 64), FP.const(0.5, 64), FP.const(0.0, 64)
def forms(y1, y2, x1, x2, x):
    """the equivalent ways of writing the straight line through (x1,y1) and (x2,y2)"""
    dx, d, dy = fs(x, x1), fs(x2, x1), fs(y2, y1); a = fd(dx, d)
    return [fa(y1, fd(fm(dy, dx), d)), fa(y1, fm(dy, a)), fa(y1, fm(fd(dy, d), dx)), fa(fm(y1, fs(ONE, a)), fm(y2, a)), fd(fa(fm(y1, fs(x2, x)), fm(y2, dx)), d)]
def sqr(a): return fm(a, a)
def eforms(e1, e2, x1, x2, x):
    a = fd(fs(x, x1), fs(x2, x1)); sq = FP.fn('ext_sqrt_' + F64.name(), F64, F64); u, w = fm(e1, fs(ONE, a)), fm(e2, a)
    return [sq(fa(sqr(u), sqr(w)))]
def seg(c, x='x'):
    if not hasattr(c, '_seg'):
        X = el(c, x); N = T(c.old[x].len); f = z3.Function('segment', X(K).sort(), I); g = Ghost('segment'); g.f = f; t = z3.Const('t', X(K).sort()); lt = less
        g.axioms = [z3.ForAll([t], z3.Implies(z3.And(N >= 2, z3.Not(isnan_(t))), z3.And(0 <= f(t), f(t) <= N-2, z3.Or(f(t) == 0, z3.Not(lt(t, X(f(t))))), z3.Or(f(t) == N-2, lt(t, X(f(t)+1))))), patterns=[f(t)])]
        c._seg = g
    return c._seg
def sorted_(c, *ps):
    x = el(c, 'x'); V = c.old['x']; N = V.len; i, j = z3.Ints('ii jj')
    r = [z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < T(N)), less(x(i), x(j))), patterns=[z3.MultiPattern(V[i], V[j])])]
    if x(K).sort() != I:
        r.append(z3.ForAll([K], z3.Implies(inr(K, 0, N), z3.Not(isnan_(x(K)))), patterns=[V[K]]))
        for p in ps:
            q = c.old[p]; r.append(z3.ForAll([K], z3.Implies(inr(K, 0, q.len), z3.Not(isnan_(q[K]))), patterns=[q[K]]) if q.val is None else z3.Not(isnan_(T(q.val))))
    return r
def bad(c, *o):
    x = c.old['x'].len; return z3.Or([T(x) < 2] + [T(c.old[n].len) != T(x) for n in ('y',) + o])
def at(c, r, p):
    y, x = el(c, 'y'), el(c, 'x'); s = seg(c).f(p); return z3.Or([r == f for f in forms(y(s), y(s+1), x(s), x(s+1), p)])
def eat(c, r, p):
    e, x = c.old['e'], c.old['x']; s = seg(c).f(p); return z3.Or([r == f for f in eforms(e[s], e[s+1], x[s], x[s+1], p)])
P = lambda c: T(c.old['p'].val); FV = lambda c, n: T(c.new[n].val)
LINE = 'value of the straight line through the two points of the segment containing the position'
ELINE = 'uncertainty from the two points of the segment containing the position'
G = lambda c: [seg(c)]
SPECS += [
    Spec('h_seg', [Flt('y1'), Flt('y2'), Flt('x1'), Flt('x2'), Flt('x')], lambda c: [('straight line through the two points', z3.Or([c.ret == f for f in forms(*[T(c.old[n].val) for n in ('y1', 'y2', 'x1', 'x2', 'x')])]))], doc='interpolate between two points'),
    Spec('h_s', [Vec('y', 1, 'f64'), Vec('x', 1, 'f64'), Flt('p')], lambda c: [(LINE, at(c, c.ret, P(c)))], pre=lambda c: sorted_(c, 'p'), err=bad, ghosts=G, doc='interpolate at a position'),
    Spec('h_s_view', [Vec('a', 1, 'f64'), View('y', 1, 'a'), Vec('b', 1, 'f64'), View('x', 1, 'b'), Flt('p')], lambda c: [(LINE, at(c, c.ret, P(c)))], pre=lambda c: sorted_(c, 'p'), err=bad, ghosts=G, doc='interpolate at a position (views)'),
    Spec('h_v', [Vec('y', 1, 'f64'), Vec('x', 1, 'f64'), Vec('p', 1, 'f64'), Vec('out', 1, 'f64', out=1)], lambda c: [('one value per position', z3.And(dims_ok(c.new['out']), T(c.new['out'].len) == T(c.old['p'].len))), (LINE, forall(z3.Implies(inr(K, 0, c.old['p'].len), at(c, c.new['out'][K], c.old['p'][K]))))], pre=lambda c: sorted_(c, 'p'), err=bad, ghosts=G, hints=[h_prefix(lambda c, a, k: at(c, a[k], c.old['p'][k]), F64)], doc='interpolate at many positions'),
    Spec('h_ve', [Vec('y', 1, 'f64'), Vec('e', 1, 'f64'), Vec('x', 1, 'f64'), Vec('p', 1, 'f64'), Vec('out', 1, 'f64', out=1), Vec('err', 1, 'f64', out=1)],
        lambda c: [('one value per position', z3.And(*[z3.And(dims_ok(c.new[o]), T(c.new[o].len) == T(c.old['p'].len)) for o in ('out', 'err')])), (LINE, forall(z3.Implies(inr(K, 0, c.old['p'].len), at(c, c.new['out'][K], c.old['p'][K])))), (ELINE, forall(z3.Implies(inr(K, 0, c.old['p'].len), eat(c, c.new['err'][K], c.old['p'][K]))))],
        pre=lambda c: sorted_(c, 'p'), err=lambda c: bad(c, 'e'), ghosts=G, hints=[h_prefix(lambda c, a, k: at(c, a[k], c.old['p'][k]), F64), h_prefix(lambda c, a, k: eat(c, a[k], c.old['p'][k]), F64)], doc='interpolate with uncertainties at many positions'),
]
# ---- integrals
def gint(c):
    if not hasattr(c, '_gi'):
        x, y = el(c, 'x'), el(c, 'y'); f = z3.Function('area', I, F64); g = Ghost('area'); g.f = f; j = z3.Int('j')
        term = lambda k: fm(fm(HALF, fa(y(k), y(k-1))), fs(x(k), x(k-1)))
        g.axioms = [f(z3.IntVal(1)) == Z, f(z3.IntVal(0)) == Z, z3.ForAll([j], z3.Implies(j >= 1, f(j+1) == fa(f(j), term(j))), patterns=[z3.MultiPattern(f(j), x(j)), f(j+1)])]
        c._gi = g
    return c._gi
def gbin(c):
    if not hasattr(c, '_gi'):
        x, y = el(c, 'x'), el(c, 'y'); f = z3.Function('area', I, F64); g = Ghost('area'); g.f = f; j = z3.Int('j'); M = T(c.old['x'].dims[1])
        g.axioms = [f(z3.IntVal(0)) == Z, z3.ForAll([j], z3.Implies(j >= 0, f(j+1) == fa(f(j), fm(y(j), fs(x(j+M), x(j))))), patterns=[z3.MultiPattern(f(j), y(j)), f(j+1)])]
        c._gi = g
    return c._gi
def gcum(rev):
    def f(c):
        if not hasattr(c, '_gi'):
            y = el(c, 'y'); N = T(c.old['y'].len); f = z3.Function('cumul', I, F64); g = Ghost('cumul'); g.f = f; j = z3.Int('j'); st = N-1 if rev else z3.IntVal(0)
            g.axioms = [z3.Implies(N > 0, f(st) == fa(Z, y(st))), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N, j != st), f(j) == fa(f(j+1 if rev else j-1), y(j))), patterns=[z3.MultiPattern(f(j), y(j))])]
            c._gi = g
        return c._gi
    return f
def h_acc(g, off=0):
    def h(c, env):
        Gf = g(c)
        for x in env.fps: yield (('zero', str(x)), lambda st, x=x: T(env.val(x, st)) == Z, True)
        for i in env.ints:
            for x in env.fps:
                for o in (0, 1): yield (('acc', o, str(x), str(i)), lambda st, x=x, i=i, o=o: T(env.val(x, st)) == Gf.f(T(env.val(i, st))+o), True)
            yield (('upto', str(i)), lambda st, i=i: z3.Or(T(env.val(i, st)) <= T(c.old['y'].len), T(env.val(i, st)) == 1), True)
    return h
n_ = lambda c: T(c.old['x'].len)
differ = lambda c: T(c.old['x'].len) != T(c.old['y'].len)
XY = [Vec('x', 1, 'f64'), Vec('y', 1, 'f64')]; O = [Vec('out', 1, 'f64', out=1)]
SPECS += [
    Spec('h_int', XY, lambda c: [('sum of the areas of all the segments', c.ret == gint(c).f(n_(c)))], err=differ, ghosts=lambda c: [gint(c)], hints=[h_acc(gint)], doc='integrate'),
    Spec('h_cumul', XY + O, lambda c: [('one value per point', z3.And(dims_ok(c.new['out']), T(c.new['out'].len) == n_(c))), ('sum of the areas of the segments before each point', forall(z3.Implies(inr(K, 0, n_(c)), c.new['out'][K] == gint(c).f(K+1))))], err=differ, ghosts=lambda c: [gint(c)], hints=[h_acc(gint), h_prefix(lambda c, a, k: a[k] == gint(c).f(k+1), F64)], doc='cumul of a tabulated function'),
    Spec('h_intb', [Vec('x', 2, 'f64'), Vec('y', 1, 'f64')], pre=lambda c: [z3.Implies(T(c.old['x'].dims[0]) == 2, T(mul(c.old['x'].dims[0], c.old['x'].dims[1])) == 2*T(c.old['x'].dims[1]))], post= lambda c: [('sum of the areas of all the bins', c.ret == gbin(c).f(T(c.old['y'].len)))], err=lambda c: z3.Or(T(c.old['x'].dims[0]) != 2, T(c.old['x'].dims[1]) != T(c.old['y'].len)), ghosts=lambda c: [gbin(c)], hints=[h_acc(gbin)], doc='integrate a binned function'),
]
for nm, rv, dd in (('h_cumul1', 0, 'cumul'), ('h_cumulr', 1, 'cumul_reverse')):
    g = gcum(rv); vv = lambda c, a, k, g=g: a[k] == g(c).f(k); zz = lambda c, a, k: a[k] == Z; NY = lambda c: c.old['y'].len
    def h_rev(c, env, vv=vv):
        for A in env.arrs:
            if A.ekind.sort != F64: continue
            for i in env.ints:
                for nm, lo, hi, v in (('head', 0, None, zz), ('tail', None, 0, vv)):
                    def f(st, A=A, i=i, nm=nm, v=v):
                        a = env.val(A, st); t = T(NY(c)) - T(env.val(i, st)); r = z3.And(0 <= K, K < t) if nm == 'head' else z3.And(t <= K, K < T(NY(c))); return z3.ForAll([K], z3.Implies(r, v(c, a, K)), patterns=[a[K]])
                    yield (('rev', nm, str(A), str(i)), f)
    SPECS.append(Spec(nm, [Vec('y', 1, 'f64')] + O, lambda c, g=g: [('one value per element', z3.And(dims_ok(c.new['out']), T(c.new['out'].len) == T(c.old['y'].len))), ('sum of the elements on its side of each position', forall(z3.Implies(inr(K, 0, c.old['y'].len), c.new['out'][K] == g(c).f(K))))], ghosts=lambda c, g=g: [g(c)], hints=[h_rev] if rv else [h_suffix(zz, NY, F64), h_prefix(vv, F64)], doc=dd))
# ---- maps
n2f = lambda n: FP.fn('i2f_F64', I, F64)(T(n))
def cell(c, strict):
    m = c.old['m']; A_, B_ = T(m.dims[0]), T(m.dims[1]); o = ordf['F64']; px, py = T(c.old['x'].val), T(c.old['y'].val)
    cl = lambda t, n: t if strict else z3.If(t < 0, z3.IntVal(0), z3.If(t >= n-1, n-2, t))
    s, t = cl(z3.ToInt(o(px)), A_), cl(z3.ToInt(o(py)), B_)
    inside = z3.And(s >= 0, s + 1 < A_, t >= 0, t + 1 < B_)
    i, j = z3.Ints('ci cj'); u, w = fs(px, n2f(i)), fs(py, n2f(j)); V1, V2, V3, V4 = m[T(mul(i, B_)) + j], m[T(mul(i, B_)) + j + 1], m[T(mul(i, B_)) + B_ + j], m[T(mul(i, B_)) + B_ + j + 1]
    f = fa(fa(fa(fm(fm(V1, fs(ONE, u)), fs(ONE, w)), fm(fm(V2, fs(ONE, u)), w)), fm(fm(V3, u), fs(ONE, w))), fm(fm(V4, u), w))
    return inside, i, j, s, t, f
def bilpost(strict):
    def p(c):
        inside, i, j, s, t, f = cell(c, strict); q = z3.ForAll([i, j], z3.Implies(z3.And(inside, i == s, j == t), c.ret == f))
        r = [('value interpolated between the four pixels around the position', q)]
        if strict: r.append(('default value where there are no four pixels around the position', z3.Implies(z3.Not(inside), c.ret == T(c.old['d'].val))))
        return r
    return p
def moderate(c):
    m = c.old['m']; A_, B_ = m.dims; i = z3.Int('ci'); P_ = T(mul(A_, B_))
    facts = [n2f(0) == Z, z3.Implies(T(A_) >= 2, P_ >= 2*T(B_)), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 2 <= T(A_), T(B_) >= 0), z3.And(T(mul(i, B_)) >= 0, T(mul(i, B_)) + 2*T(B_) <= P_, z3.Implies(i == 0, T(mul(i, B_)) == 0), z3.Implies(i == T(A_) - 2, T(mul(i, B_)) == P_ - 2*T(B_)))), patterns=[T(mul(i, B_))])]     # arithmetic of products
    o = ordf['F64']; return facts + [z3.And(z3.Not(fnan(T(c.old[n].val))), o(T(c.old[n].val)) > -(1 << 24), o(T(c.old[n].val)) < (1 << 24)) for n in 'xy']
SPECS += [
    Spec('h_bils', [Vec('m', 2, 'f64'), Flt('x'), Flt('y'), Flt('d')], bilpost(1), pre=moderate, doc='bilinear_strict'),
    Spec('h_bil', [Vec('m', 2, 'f64'), Flt('x'), Flt('y')], bilpost(0), pre=moderate, err=lambda c: z3.Or(T(c.old['m'].dims[0]) < 2, T(c.old['m'].dims[1]) < 2), doc='bilinear'),
]
