from irv.contract import *
from irv.lib import *
from irv.core import mul, FP, QD, QM
from irv.strings import scat
ORACLE_FLAGS = ['-std=c++14']
BOUNDED = 'every binary, compound, unary, comparison and logical operator and every vectorised function of math/base.hpp, for all combinations of array, scalar, temporary and view operands, over 2-d arrays with extents 0..3 and 5x7 with random values including NaN, infinity and -0, mixed element types and strings; operands of different dimensions (also of equal size)'
ASSUME = ['vectorised user functions are pure', 'unsigned divisors are not zero; signed additions do not overflow']
SPECS = []
b01 = lambda x: z3.If(x, z3.IntVal(1), z3.IntVal(0))
def ar(op): return lambda x, y: FP.bin(op, x, y)
def cp(p): return lambda x, y: b01(FP.cmp(p, x, y))
U64 = 1 << 64
def opnd(c, n):
    v = c.old[n]
    if v.val is not None: return lambda k: (b01(v.val) if z3.is_bool(v.val) else v.val)
    return el(c, n)
def ew(entry, args, f, ops, out='out', diff=True, pre=None, doc='', par=None):
    """out[k] = f(op0[k], op1[k], ...), dimensions of the first array operand; different dimensions raise an error"""
    arrs = [n for n in ops if any(a.name == n and a.typ in ('vec', 'view') for a in args)]
    def val(c):
        es = [opnd(c, n) for n in ops]; return lambda k: f(*[e(k) for e in es])
    def mism(c):
        if len(arrs) < 2: return z3.BoolVal(False)
        d0 = c.old[arrs[0]].dims
        return z3.Or([T(x) != T(y) for a in arrs[1:] for x, y in zip(d0, c.old[a].dims)])
    def post(c):
        n = c.new[out]; o = c.old[arrs[0]]; g = val(c)
        return [('dimensions match content', dims_ok(n)), ('dimensions of the operands', z3.And([T(a) == T(b) for a, b in zip(n.dims, o.dims)])),
                ('element k is the operation applied to the elements at k', forall(z3.Implies(inr(K, 0, n.len), n[K] == g(K))))]
    def post_view(c):       # destination is a view out of par: element idx[k] of the parent changes, others do not
        p0, p1 = c.old[par], c.new[par]; w = c.old[out]; g = val(c)
        return [('size and dimensions unchanged', z3.And([T(p0.len) == T(p1.len)] + [T(a) == T(b) for a, b in zip(p0.dims, p1.dims)])),
                ('designated element k is the operation applied to the elements at k', forall(z3.Implies(inr(K, 0, w.len), p1[w[K]] == g(K)))),
                ('the other elements are unchanged', forall(z3.Implies(z3.And(inr(J, 0, p0.len), z3.Not(z3.Exists([K], z3.And(inr(K, 0, w.len), w[K] == J)))), p1[J] == p0[J]), J))]
    def hv(c, env):
        g = val(c)
        for A in env.arrs:
            for i in env.ints:
                if A.ekind.sort == g(K).sort(): yield (('done', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == g(K)), patterns=[env.val(A, st)[K]]))
                for n in arrs:
                    e = el(c, n)
                    if A.ekind.sort == e(K).sort(): yield (('todo', n, str(A), str(i)), lambda st, A=A, i=i, e=e: z3.ForAll([K], z3.Implies(K >= T(env.val(i, st)), env.val(A, st)[K] == e(K)), patterns=[env.val(A, st)[K]]))
                if A.ekind.sort != I or A.ekind.name == 'ptr': continue
    def hcopy(c, env):
        for A in env.arrs:
            for n in arrs:
                e = el(c, n)
                if A.ekind.sort != e(K).sort(): continue
                for i in env.ints: yield (('copied', n, str(A), str(i)), lambda st, A=A, i=i, e=e: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == e(K)), patterns=[env.val(A, st)[K]]))
    def hview(c, env):
        if not par: return
        p0 = c.old[par]; w = c.old[out]; g = val(c); inv = z3.Function('inv_w', I, I)
        for A in env.arrs:
            if A.ekind.sort != p0.arr.range(): continue
            for i in env.ints:
                yield (('w done', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[w[K]] == g(K)), patterns=[w[K]]))
                yield (('w todo', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([J], z3.Implies(z3.And(inr(J, 0, p0.len), z3.Not(z3.And(0 <= inv(J), inv(J) < T(env.val(i, st)), w[inv(J)] == J))), env.val(A, st)[J] == p0[J]), patterns=[env.val(A, st)[J]]))
    def pr(c):
        r = list(pre(c)) if pre else []
        if par:
            w = c.old[out]; inv = z3.Function('inv_w', I, I)
            r.append(z3.ForAll([K], z3.Implies(inr(K, 0, w.len), inv(w[K]) == K), patterns=[w[K]]))     # each element designated at most once
        return r
    SPECS.append(Spec(entry, args, post_view if par else post, pre=pr, err=mism if len(arrs) > 1 else None, hints=[hv, hcopy, hview], doc=doc))
def V(n, d, k='f64', out=0): return Vec(n, d, k, out=out)
def W(n, d): return View(n, d, 'p')
def sc(k): return {'f64': Flt('s'), 'f32': Flt('s', 'f32'), 'bool': Bool('s')}.get(k) or Int('s', k)
def arith(N, f, d, k, pre=None):
    O = lambda: V('out', d, k, 1)
    P = (lambda n: (lambda c: pre(c, n))) if pre else (lambda n: None)
    for suf, a, b, extra in (('vv', 0, 0, 0), ('vs', 0, 's', 0), ('sv', 's', 0, 0), ('rv', 1, 0, 0), ('rs', 1, 's', 0), ('vr', 0, 1, 0), ('sr', 's', 1, 0), ('rr', 1, 1, 0), ('ww', 'w', 'w', 1), ('rw', 1, 'w', 1), ('wr', 'w', 1, 1)):
        mk = lambda n, x: sc(k) if x == 's' else (W(n, d) if x == 'w' else V(n, d, k, x))
        args = ([V('p', d, k)] if extra else []) + [mk('a', a), mk('b', b), O()]
        ew('h_%s_%s' % (N, suf), args, f, ['s' if a == 's' else 'a', 's' if b == 's' else 'b'], pre=P('s' if b == 's' else 'b'), doc='%s, operands %s (v array, s scalar, r temporary, w view)' % (N, suf))
def nz(c, n):
    v = c.old[n]
    if v.val is not None: return [v.val != 0]
    e = el(c, n); return [z3.ForAll([K], e(K) != 0, patterns=[e(K)])]
arith('add', ar('fadd'), 2, 'f64'); arith('sub', ar('fsub'), 2, 'f64'); arith('mul', ar('fmul'), 2, 'f64'); arith('div', ar('fdiv'), 2, 'f64')
arith('mod', lambda x, y: QM(x, y), 1, 'u64', nz); arith('udiv', lambda x, y: QD(x, y), 1, 'u64', nz)
arith('usub', lambda x, y: (x - y) % U64, 1, 'u64'); arith('sadd', ar('fadd'), 1, 'f32')
s32 = lambda t: (t + (1 << 31)) % (1 << 32) - (1 << 31)
arith('iadd', lambda x, y: s32(x + y), 1, 'i32')
i2f = lambda x: FP.fn('i2f_F64', I, F64)(x)
ew('h_mix_vv', [V('a', 1, 'i32'), V('b', 1), V('out', 1, 'f64', 1)], lambda x, y: FP.bin('fsub', i2f(x), y), ['a', 'b'], doc='integer array - real array')
ew('h_mix_vs', [V('a', 1, 'i32'), Flt('s'), V('out', 1, 'f64', 1)], lambda x, y: FP.bin('fdiv', i2f(x), y), ['a', 's'], doc='integer array / real')
ew('h_mix_sv', [Int('s', 'i32'), V('b', 1), V('out', 1, 'f64', 1)], lambda x, y: FP.bin('fsub', i2f(x), y), ['s', 'b'], doc='integer - real array')
ew('h_mix_rv', [V('a', 1, 'f64', 1), V('b', 1, 'i32'), V('out', 1, 'f64', 1)], lambda x, y: FP.bin('fsub', x, i2f(y)), ['a', 'b'], doc='temporary real array - integer array')
ew('h_mix_vr', [V('a', 1, 'i32'), V('b', 1, 'f64', 1), V('out', 1, 'f64', 1)], lambda x, y: FP.bin('fdiv', i2f(x), y), ['a', 'b'], doc='integer array / temporary real array')
ew('h_mix_ii', [V('a', 1, 'i32'), V('b', 1, 'u64'), V('out', 1, 'u64', 1)], lambda x, y: (x + y) % U64, ['a', 'b'], doc='int array + unsigned long array')
S = lambda n, out=0: V(n, 1, 'str', out)
for suf, args, ops in (('vv', [S('a'), S('b')], ['a', 'b']), ('vs', [S('a'), Str('s')], ['a', 's']), ('sv', [Str('s'), S('b')], ['s', 'b']), ('rv', [S('a', 1), S('b')], ['a', 'b']), ('vr', [S('a'), S('b', 1)], ['a', 'b'])):
    ew('h_str_' + suf, args + [S('out', 1)], lambda x, y: scat(x, y), ops, doc='concatenation of strings ' + suf)
# compound
for N, f, d, k in (('add', ar('fadd'), 2, 'f64'), ('sub', ar('fsub'), 2, 'f64'), ('mul', ar('fmul'), 2, 'f64'), ('div', ar('fdiv'), 2, 'f64'), ('isub', lambda x, y: s32(x - y), 1, 'i32')):
    ew('h_c%s_v' % N, [V('a', d, k, 1), V('b', d, k)], f, ['a', 'b'], out='a', doc='compound, array')
    ew('h_c%s_s' % N, [V('a', d, k, 1), sc(k)], f, ['a', 's'], out='a', doc='compound, scalar')
    ew('h_c%s_w' % N, [V('p', d, k), V('a', d, k, 1), W('b', d)], f, ['a', 'b'], out='a', doc='compound, view operand')
    ew('h_c%s_pv' % N, [V('p', d, k, 1), W('w', d), V('b', d, k)], f, ['w', 'b'], out='w', par='p', doc='compound on a view, array operand')
    ew('h_c%s_ps' % N, [V('p', d, k, 1), W('w', d), sc(k)], f, ['w', 's'], out='w', par='p', doc='compound on a view, scalar operand')
ew('h_cmix_v', [V('a', 1, 'f64', 1), V('b', 1, 'i32')], lambda x, y: FP.bin('fsub', x, i2f(y)), ['a', 'b'], out='a', doc='compound, integer operand')
# comparisons
def comp(N, f, d, k):
    O = lambda: V('out', d, 'bool', 1)
    ew('h_%s_vv' % N, [V('a', d, k), V('b', d, k), O()], f, ['a', 'b'], doc='comparison of arrays')
    ew('h_%s_vs' % N, [V('a', d, k), sc(k), O()], f, ['a', 's'], doc='comparison array, scalar')
    ew('h_%s_sv' % N, [sc(k), V('b', d, k), O()], f, ['s', 'b'], doc='comparison scalar, array')
    ew('h_%s_ww' % N, [V('p', d, k), W('a', d), W('b', d), O()], f, ['a', 'b'], doc='comparison of views')
    ew('h_%s_ws' % N, [V('p', d, k), W('a', d), sc(k), O()], f, ['a', 's'], doc='comparison view, scalar')
for N, p in (('eq', 'oeq'), ('ne', 'une'), ('lt', 'olt'), ('le', 'ole'), ('gt', 'ogt'), ('ge', 'oge')): comp(N, cp(p), 2, 'f64')
for N, f in (('eq', lambda x, y: x == y), ('ne', lambda x, y: x != y), ('lt', lambda x, y: x < y), ('le', lambda x, y: x <= y), ('gt', lambda x, y: x > y), ('ge', lambda x, y: x >= y)): comp('i' + N, (lambda f: lambda x, y: b01(f(x, y)))(f), 1, 'i32')
ew('h_seq_vs', [S('a'), Str('s'), V('out', 1, 'bool', 1)], lambda x, y: b01(x == y), ['a', 's'], doc='string array == string')
ew('h_seq_vv', [S('a'), S('b'), V('out', 1, 'bool', 1)], lambda x, y: b01(x != y), ['a', 'b'], doc='string array != string array')
ew('h_cmix_lt', [V('a', 1, 'i32'), V('b', 1), V('out', 1, 'bool', 1)], lambda x, y: b01(FP.cmp('olt', i2f(x), y)), ['a', 'b'], doc='int array < real array')
# logical
B = lambda n, out=0: V(n, 2, 'bool', out)
for N, f in (('and', lambda x, y: b01(z3.And(x == 1, y == 1))), ('or', lambda x, y: b01(z3.Or(x == 1, y == 1)))):
    for suf, args, ops in (('vv', [B('a'), B('b')], 'ab'), ('rv', [B('a', 1), B('b')], 'ab'), ('vr', [B('a'), B('b', 1)], 'ab'), ('rr', [B('a', 1), B('b', 1)], 'ab'), ('vs', [B('a'), Bool('s')], 'as'), ('sv', [Bool('s'), B('b')], 'sb'), ('rs', [B('a', 1), Bool('s')], 'as'), ('sr', [Bool('s'), B('b', 1)], 'sb'), ('ww', [B('p'), W('a', 2), W('b', 2)], 'ab')):
        ew('h_%s_%s' % (N, suf), args + [B('out', 1)], f, list(ops), doc='logical %s %s' % (N, suf))
bn = lambda x: b01(x != 1)
ew('h_not_v', [B('a'), B('out', 1)], bn, ['a'], doc='logical not'); ew('h_not_r', [B('a', 1), B('out', 1)], bn, ['a'], doc='logical not of a temporary'); ew('h_not_w', [B('p'), W('a', 2), B('out', 1)], bn, ['a'], doc='logical not of a view')
fneg = lambda x: FP.un('fneg', x)
ident = lambda x: x
for N, f in (('neg', fneg), ('pos', ident)):
    ew('h_%s_v' % N, [V('a', 2), V('out', 2, 'f64', 1)], f, ['a'], doc='unary ' + N); ew('h_%s_w' % N, [V('p', 2), W('a', 2), V('out', 2, 'f64', 1)], f, ['a'], doc='unary %s of a view' % N)
# vectorised functions
f1 = lambda x: FP.fn('ext_vp_f1_F64', F64, F64)(x)
f2 = lambda x, y: FP.fn('ext_vp_f2_F64', F64, F64, F64)(x, y)
fi = lambda x: FP.fn('ext_vp_fi_Int', F64, I)(x)
D = lambda n, out=0: V(n, 2, 'f64', out)
for e in ('f1', 'ren'):
    ew('h_%s_v' % e, [D('a'), D('out', 1)], f1, ['a'], doc='vectorised function'); ew('h_%s_r' % e, [D('a', 1), D('out', 1)], f1, ['a'], doc='vectorised function of a temporary')
ew('h_f1_w', [D('p'), W('a', 2), D('out', 1)], f1, ['a'], doc='vectorised function of a view')
ew('h_f1x_v', [D('a'), Flt('s'), D('out', 1)], f2, ['a', 's'], doc='vectorised function with a second argument'); ew('h_f1x_r', [D('a', 1), Flt('s'), D('out', 1)], f2, ['a', 's'], doc='same, temporary')
ew('h_fi_v', [D('a'), V('out', 2, 'i32', 1)], fi, ['a'], doc='vectorised function, other result type'); ew('h_fi_r', [D('a', 1), V('out', 2, 'i32', 1)], fi, ['a'], doc='same, temporary')
for suf, args, ops in (('vv', [D('a'), D('b')], 'ab'), ('rv', [D('a', 1), D('b')], 'ab'), ('vr', [D('a'), D('b', 1)], 'ab'), ('rr', [D('a', 1), D('b', 1)], 'ab'), ('vs', [D('a'), Flt('s')], 'as'), ('sv', [Flt('s'), D('b')], 'sb'), ('rs', [D('a', 1), Flt('s')], 'as'), ('sr', [Flt('s'), D('b', 1)], 'sb')):
    ew('h_f2_' + suf, args + [D('out', 1)], f2, list(ops), doc='vectorised function of two arguments ' + suf)
ew('h_lf_v', [D('a'), Flt('s'), D('out', 1)], f2, ['a', 's'], doc='vectorize_lambda_first'); ew('h_lf_r', [D('a', 1), Flt('s'), D('out', 1)], f2, ['a', 's'], doc='vectorize_lambda_first of a temporary')
ew('h_lf_str', [S('a'), Str('s'), S('out', 1)], lambda x, y: scat(x, y), ['a', 's'], doc='vectorize_lambda_first, temporary second argument')
ew('h_l_vv', [D('a'), D('b'), D('out', 1)], f2, ['a', 'b'], doc='vectorize_lambda'); ew('h_l_vs', [D('a'), Flt('s'), D('out', 1)], f2, ['a', 's'], doc='vectorize_lambda'); ew('h_l_sv', [Flt('s'), D('b'), D('out', 1)], f2, ['s', 'b'], doc='vectorize_lambda')
ew('h_isnan', [D('a'), B('out', 1)], lambda x: b01(fnan(x)), ['a'], doc='is_nan')
inf = FP.const(float('inf'), 64); ninf = FP.const(float('-inf'), 64)
ew('h_isfin', [D('a'), B('out', 1)], lambda x: b01(z3.And(z3.Not(fnan(x)), ordf['F64'](x) < ordf['F64'](inf), ordf['F64'](x) > ordf['F64'](ninf))), ['a'], doc='is_finite')
ew('h_clamp', [V('a', 1), Flt('lo'), Flt('hi'), V('out', 1, 'f64', 1)], lambda x, l, h: z3.If(FP.cmp('olt', x, l), l, z3.If(FP.cmp('ogt', x, h), h, x)), ['a', 'lo', 'hi'], doc='clamp')
ew('h_sqrv', [V('a', 1), V('out', 1, 'f64', 1)], lambda x: FP.bin('fmul', x, x), ['a'], doc='sqr')
ew('h_absv', [V('a', 1), V('out', 1, 'f64', 1)], lambda x: FP.un('f_fabs', x), ['a'], doc='abs')
ew('h_sqrtv', [V('a', 1), V('out', 1, 'f64', 1)], lambda x: FP.fn('ext_sqrt_F64', F64, F64)(x), ['a'], doc='sqrt')
pw = lambda x, y: FP.fn('ext_pow_F64', F64, F64, F64)(x, y)
ew('h_powsv', [Flt('s'), V('b', 1), V('out', 1, 'f64', 1)], pw, ['s', 'b'], doc='pow(scalar, array)'); ew('h_powsr', [Flt('s'), V('b', 1, 'f64', 1), V('out', 1, 'f64', 1)], pw, ['s', 'b'], doc='pow(scalar, temporary)')
