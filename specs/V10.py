from irv.contract import *
from irv.lib import *
from irv.core import mul, QD, QM
BOUNDED = 'every position of every 1-d to 4-d shape with extents 0..6 (3-d: 0..4 last), index lists, negative and out of range indices, wrong numbers of indices; random 3-d extents up to 2e6; two complete traversals with increment_index_list over all extents lists of up to 4 (thorough: 5) coordinates'
ASSUME = ['every extent of the array is positive when a position is converted (an array without elements has no valid position)']
SPECS = []
def coords(c, i):
    """coordinates of flat position i, last dimension first"""
    d = c.old['v'].dims; r = []; q = T(i)
    for e in reversed(d):
        r.append(QM(q, T(e))); q = QD(q, T(e))
    return list(reversed(r))
def flat(d, xs):
    r = T(xs[0])
    for e, x in zip(d[1:], xs[1:]): r = T(mul(r, e)) + T(x)
    return r
def valid(c): return [T(c.old['i'].val) < T(c.old['v'].len)]
def m_post(c):
    n = c.new['out']; d = c.old['v'].dims; xs = [n[k] for k in range(len(d))]
    return [('one index per dimension', z3.And(T(n.len) == len(d), T(n.dims[0]) == len(d)))] + [('index %d is below its extent' % k, z3.And(0 <= n[k], n[k] < T(d[k]))) for k in range(len(d))] + [('row-major position of the indices is the flat position', T(flat(d, xs)) == T(c.old['i'].val))]
for e, d in (('h_mult1', 1), ('h_mult2', 2), ('h_mult3', 3), ('h_mult2d', 2)):
    SPECS.append(Spec(e, [Vec('v', d, 'i32'), Int('i'), Vec('out', 1, 'u64', out=1)], m_post, pre=valid, doc='mult_ids of a %d-d array' % d))
def r_post(c): return [('converting back gives the position', unat(c, c.ret) == T(c.old['i'].val))]
for d in (1, 2, 3): SPECS.append(Spec('h_round%d' % d, [Vec('v', d, 'i32'), Int('i')], r_post, pre=valid, doc='flat_id(mult_ids(i)) == i'))
names = 'ijk'
def f_post(c):
    d = c.old['v'].dims; xs = [norm(c.old[names[k]].val, d[k]) for k in range(len(d))]
    return [('row-major position', unat(c, c.ret) == T(flat(d, xs)))]
def norm(x, e): return z3.If(T(x) < 0, T(x) + T(e), T(x))
def f_err(c):
    d = c.old['v'].dims; return z3.Or([T(c.old[names[k]].val) >= T(d[k]) for k in range(len(d))])
def f_pre(c): return []
def i_err(c):
    d = c.old['v'].dims; must = z3.Or([T(c.old[names[k]].val) >= T(d[k]) for k in range(len(d))]); return must, must
for e, d in (('h_flat1', 1), ('h_flat2', 2), ('h_flat2d', 2), ('h_flat3', 3)): SPECS.append(Spec(e, [Vec('v', d, 'i32')] + [Int(names[k]) for k in range(d)], f_post, err=f_err, doc='flat_id of %d indices' % d))
def neg_ok(c):
    d = c.old['v'].dims; return [z3.And(T(c.old[names[k]].val) >= -T(d[k])) for k in range(len(d))]
SPECS.append(Spec('h_flat2i', [Vec('v', 2, 'i32'), Int('i', 'i32'), Int('j', 'i32')], f_post, pre=neg_ok, err=i_err, doc='flat_id of signed indices'))
def fv_post(c):
    d = c.old['v'].dims; return [('row-major position', unat(c, c.ret) == T(flat(d, [c.old['ids'][k] for k in range(len(d))])))]
def fv_err(c):
    d = c.old['v'].dims; return z3.Or([T(c.old['ids'].len) != len(d)] + [c.old['ids'][k] >= T(d[k]) for k in range(len(d))])
for d in (2, 3): SPECS.append(Spec('h_flat%dv' % d, [Vec('v', d, 'i32'), Vec('ids', 1, 'u64')], fv_post, err=fv_err, doc='flat_id of a list of %d indices' % d))
def b_post(c):
    d = c.old['v'].dims; n = c.new['out']
    return [('converting a flat index back gives the indices', z3.And([T(n.len) == len(d)] + [n[k] == T(c.old[names[k]].val) for k in range(len(d))]))]
for d in (2, 3): SPECS.append(Spec('h_back%d' % d, [Vec('v', d, 'i32')] + [Int(names[k]) for k in range(d)] + [Vec('out', 1, 'u64', out=1)], b_post, err=f_err, doc='mult_ids(flat_id(...))'))
# ---- vectorised conversion: row j of the result holds coordinate j of every position
def mv_pre(c):
    v, i = c.old['v'], c.old['i']; return [z3.ForAll([K], z3.Implies(inr(K, 0, i.len), i[K] < T(v.len)), patterns=[i[K]]), T(v.len) > 0, T(mul(len(v.dims), i.len)) <= MAXLEN]
def mv_at(c, j, k): return coords(c, c.old['i'][k])[j]
def mv_post(c):
    n = c.new['out']; D = len(c.old['v'].dims); N = T(c.old['i'].len)
    return [('dimensions match content', dims_ok(n)), ('one row per dimension, one column per position', z3.And(T(n.dims[0]) == D, T(n.dims[1]) == N))] + [('row %d holds coordinate %d of every position' % (j, j), forall(z3.Implies(inr(K, 0, N), n[j*N + K] == mv_at(c, j, K)))) for j in range(D)]
def mv_quot(c, x, m):
    """x divided by the last m extents"""
    for e in list(reversed(c.old['v'].dims))[:m]: x = QD(x, T(e))
    return x
def mv_h(c, env):
    D = len(c.old['v'].dims); o = c.old['i']; N = T(o.len); ds = list(reversed(c.old['v'].dims))
    for A in env.arrs:
        if A.ekind.name == 'ptr':
            for j in range(D):
                for i in env.ints: yield (('rowptr', j, str(A), str(i)), lambda st, A=A, i=i, j=j: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == j*N + K), patterns=[env.val(A, st)[K]]))
            continue
        if A.ekind.sort != I: continue
        for i in env.ints:
            for m in range(D):
                x = lambda k, m=m: mv_quot(c, o[k], m)
                d = T(ds[m])
                yield (('rem', m, str(A), str(i)), lambda st, A=A, i=i, x=x, d=d: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == QM(x(K), d)), patterns=[env.val(A, st)[K]]))
                yield (('quo', m, str(A), str(i)), lambda st, A=A, i=i, x=x, d=d: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == QD(x(K), d)), patterns=[env.val(A, st)[K]]))
                yield (('quo todo', m, str(A), str(i)), lambda st, A=A, i=i, x=x, d=d: z3.ForAll([K], z3.Implies(z3.And(T(env.val(i, st)) <= K, K < N), env.val(A, st)[K] == x(K)), patterns=[env.val(A, st)[K]]))
            for j in range(D):
                yield (('row', j, str(A), str(i)), lambda st, A=A, i=i, j=j: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[j*N + K] == mv_at(c, j, K)), patterns=[o[K]]))
                yield (('row+', j, str(A)), lambda st, A=A, j=j: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < N), env.val(A, st)[j*N + K] == mv_at(c, j, K)), patterns=[o[K]]))
for d in (1, 2, 3): SPECS.append(Spec('h_mult%dv' % d, [Vec('v', d, 'i32'), Vec('i', 1, 'u64'), Vec('out', 2, 'u64', out=1)], mv_post, pre=mv_pre, hints=[mv_h], doc='mult_ids of a list of positions, %d-d' % d))
# ---- increment of a list of coordinates
def inc(entry, nargs, lim, doc):
    def full(c, k): return z3.ForAll([J], z3.Implies(z3.And(k <= J, J < T(c.old['ids'].len)), c.old['ids'][J] + 1 == lim(c, J)), patterns=[c.old['ids'][J]])
    def pre(c):
        o = c.old['ids']; r = [z3.ForAll([K], z3.Implies(inr(K, 0, o.len), o[K] < lim(c, K)), patterns=[o[K]])]
        if 'n' in c.old and c.old['n'].arr is not None: r.append(T(c.old['n'].len) == T(o.len))
        return r
    def post(c):
        o, n = c.old['ids'], c.new['ids']
        return [('number of coordinates unchanged', z3.And(T(n.len) == T(o.len), T(n.dims[0]) == T(o.len))),
                ('a coordinate whose followers are all at their end goes up by one, or back to zero at its own end; the others keep their value', forall(z3.Implies(inr(K, 0, o.len), n[K] == z3.If(full(c, K + 1), z3.If(o[K] + 1 == lim(c, K), 0, o[K] + 1), o[K]))))]
    def h(c, env):
        o = c.old['ids']
        for A in env.arrs:
            if A.ekind.sort != I: continue
            for i in env.ints:
                yield (('zeros', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(T(env.val(i, st)) <= K, K < T(o.len)), z3.And(env.val(A, st)[K] == 0, o[K] + 1 == lim(c, K))), patterns=[env.val(A, st)[K], o[K]]))
                yield (('kept', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == o[K]), patterns=[env.val(A, st)[K]]))
    SPECS.append(Spec(entry, [Vec('ids', 1, 'u64', out=1)] + nargs, post, pre=pre, hints=[h], ghosts=(lambda c: [rank()]) if entry == 'h_inc_v' else None, doc=doc))
def rank():
    """lemma: the element-wise formula of the contract is the row-major successor -- with P(k) the product of the
    extents from k on and V(k) the row-major value of the coordinates from k on, V goes up by one, or from P-1 to 0"""
    g = Ghost('row-major successor'); P, A, B = [z3.Function('rk_' + x, I, I) for x in 'PAB']; C = z3.Function('rk_C', I, z3.BoolSort()); a, b, n = [z3.Const('rk_' + x, z3.ArraySort(I, I)) for x in 'abn']
    k = z3.Int('rk_k'); e = z3.Int('rk_len')
    claim = lambda t: z3.And(z3.Implies(C(t), z3.And(A(t) == P(t) - 1, B(t) == 0)), z3.Implies(z3.Not(C(t)), B(t) == A(t) + 1), 0 <= A(t), A(t) < P(t))
    g.goals.append(('end of the list', [P(e) == 1, A(e) == 0, B(e) == 0, C(e)], claim(e)))
    val = lambda x, V: V(k) == T(mul(x[k], P(k+1))) + V(k+1)
    g.goals.append(('one coordinate more', [0 <= k, k < e, 0 <= a[k], a[k] < n[k], P(k) == T(mul(n[k], P(k+1))), val(a, A), val(b, B), C(k) == z3.And(C(k+1), a[k] + 1 == n[k]), b[k] == z3.If(C(k+1), z3.If(a[k] + 1 == n[k], 0, a[k] + 1), a[k]), claim(k+1)], claim(k)))
    return g
inc('h_inc_v', [Vec('n', 1, 'u64')], lambda c, k: c.old['n'][k], 'increment_index_list, one extent per coordinate')
inc('h_inc_s', [Int('n')], lambda c, k: T(c.old['n'].val), 'increment_index_list, same extent for all')
