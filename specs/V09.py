from irv.contract import *
from irv.lib import *
from irv.core import mul, QD, QM
BOUNDED = 'all functions of the property on 1-d to 3-d arrays: reverse and shift up to 14 elements and all shifts in [-40,40] plus extremes, random up to 300; transpose, replicate, append/prepend and remove over all extents up to 3..8; every list of removed positions up to length 4, random ones up to 40'
ASSUME = []
def rev(c):
    o, n = c.old['in'], c.new['out']
    return [('dimensions match content', dims_ok(n)), ('same size', T(n.len) == T(o.len)), ('element k comes from n-1-k', forall(z3.Implies(inr(K, 0, n.len), n[K] == o[T(o.len)-1-K])))]
def mod(n, s):
    """n mod s (s > 0) in [0, s), in terms of quotient and remainder of non-negative numbers"""
    n = T(n); s = T(s); r = QM(-n, s)
    return z3.If(n >= 0, QM(n, s), z3.If(r == 0, 0, s - r))
def shpost(a, b):
    def f(c):
        o, n = c.old[a], c.new[b]; M = mod(c.old['n'].val, o.len)
        return [('dimensions match content', dims_ok(n)), ('same size', T(n.len) == T(o.len)), ('element k moves to (k+n) mod size', forall(z3.Implies(inr(K, 0, n.len), n[K] == o[z3.If(K >= M, K-M, K-M+T(o.len))])))]
    return f
def trpost(c):
    o, n = c.old['in'], c.new['out']; a, b = o.dims
    return [('dimensions match content', dims_ok(n)), ('dimensions swapped', z3.And(T(n.dims[0]) == T(b), T(n.dims[1]) == T(a))),
            ('element (i,j) comes from (j,i)', forall(z3.Implies(inr(K, 0, n.len), n[K] == o[T(mul(QM(K, T(a)), b)) + QD(K, T(a))])))]
trh = h_prefix(lambda c, a, k: a[k] == c.old['in'][T(mul(QM(k, T(c.old['in'].dims[0])), c.old['in'].dims[1])) + QD(k, T(c.old['in'].dims[0]))])
def fits(*names):
    # the requested array fits in memory
    def f(c):
        xs = [c.old[n].val if c.old[n].val is not None else c.old[n].len for n in names]; r = [T(x) <= MAXLEN for x in xs]; p = xs[0]
        for x in xs[1:]: p = mul(p, x); r.append(T(p) <= MAXLEN)
        return r
    return f
def rspost(dims):
    def f(c):
        n = c.new['out']; d = dims(c)
        return [('dimensions match content', dims_ok(n)), ('requested dimensions', z3.And([T(x) == T(y) for x, y in zip(n.dims, d)])), ('every element is the value', forall(z3.Implies(inr(K, 0, n.len), n[K] == c.old['x'].val)))]
    return f
rsh = h_prefix(lambda c, a, k: a[k] == c.old['x'].val)
def rvpost(dims):
    def f(c):
        n, o = c.new['out'], c.old['in']; d = dims(c)
        return [('dimensions match content', dims_ok(n)), ('requested dimensions', z3.And([T(x) == T(y) for x, y in zip(n.dims, d)])), ('element k is element k mod size of the input', forall(z3.Implies(inr(K, 0, n.len), n[K] == o[QM(K, T(o.len))])))]
    return f
def rvh(c, env):
    o = c.old['in']
    for A in env.arrs:
        for i in env.ints:
            def f(st, A=A, i=i, j=None):
                a = env.val(A, st); t = T(mul(env.val(i, st), o.len)) + (T(env.val(j, st)) if j is not None else 0)
                return z3.ForAll([K], z3.Implies(z3.And(K >= 0, K < t), a[K] == o[QM(K, T(o.len))]), patterns=[a[K]])
            yield (('rows', str(A), str(i)), f)
        # inner loop: the row number is fixed, the column counter varies
        for j in env.ints:
            for x in env.outer:
                def g(st, A=A, x=x, j=j):
                    a = env.val(A, st); return z3.ForAll([K], z3.Implies(z3.And(K >= 0, K < T(mul(x, o.len)) + T(env.val(j, st))), a[K] == o[QM(K, T(o.len))]), patterns=[a[K]])
                yield (('row+col', str(A), str(x), str(j)), g)
def join(first, second):
    def f(c):
        v, w = c.old['v'], c.old['w']; n = c.new['v']; a, b = (v, w) if first == 'v' else (w, v)
        return [('dimensions match content', dims_ok(n)), ('total size', T(n.len) == T(v.len) + T(w.len)),
                ('first part first', forall(z3.Implies(inr(K, 0, a.len), n[K] == a[K]))), ('second part after it', forall(z3.Implies(inr(K, 0, b.len), n[K + T(a.len)] == b[K])))]
    return f
SPECS = [
    Spec('h_reverse', [Vec('in', 1, 'i32'), Vec('out', 1, 'i32', out=1)], rev, doc='reverse: element k of the result is element n-1-k'),
    Spec('h_reverse_s', [Vec('in', 1, 'str'), Vec('out', 1, 'str', out=1)], rev, doc='reverse of strings'),
    Spec('h_inplace_shift', [Vec('v', 1, 'i32', out=1), Int('n', 'i64')], shpost('v', 'v'), doc='inplace_shift: element k moves to (k+n) mod size, for every n'),
    Spec('h_shift', [Vec('in', 1, 'f64'), Int('n', 'i64'), Vec('out', 1, 'f64', out=1)], shpost('in', 'out'), doc='shift: as inplace_shift on a copy'),
    Spec('h_transpose', [Vec('in', 2, 'i32'), Vec('out', 2, 'i32', out=1)], trpost, hints=[trh], doc='transpose'),
    Spec('h_replicate_s', [Int('x', 'i32'), Int('n'), Vec('out', 1, 'i32', out=1)], rspost(lambda c: [c.old['n'].val]), hints=[rsh], pre=fits('n'), doc='replicate(scalar, n)'),
    Spec('h_replicate_s2', [Int('x', 'i32'), Int('n'), Int('m'), Vec('out', 2, 'i32', out=1)], rspost(lambda c: [c.old['n'].val, c.old['m'].val]), hints=[rsh], pre=fits('n', 'm'), doc='replicate(scalar, n, m)'),
    Spec('h_replicate_v', [Vec('in', 1, 'i32'), Int('n'), Vec('out', 2, 'i32', out=1)], rvpost(lambda c: [c.old['n'].val, c.old['in'].len]), hints=[rvh], pre=fits('n', 'in'), doc='replicate(vec, n): n copies'),
    Spec('h_replicate_v2', [Vec('in', 1, 'i32'), Int('n'), Int('m'), Vec('out', 3, 'i32', out=1)], rvpost(lambda c: [c.old['n'].val, c.old['m'].val, c.old['in'].len]), hints=[rvh], pre=fits('n', 'm', 'in'), doc='replicate(vec, n, m): n*m copies'),
    Spec('h_append', [Vec('v', 1, 'i32', out=1), Vec('w', 1, 'i32')], join('v', 'w'), doc='append: v followed by w'),
    Spec('h_prepend', [Vec('v', 1, 'i32', out=1), Vec('w', 1, 'i32')], join('w', 'v'), doc='prepend: w followed by v'),
    Spec('h_append_s', [Vec('v', 1, 'str', out=1), Vec('w', 1, 'str')], join('v', 'w'), doc='append of strings'),
]
# ---- removal: s is the sorted list of positions, rk(k) the number of listed positions below k
def on_rm(c, st, rec):
    new = rec[3]; s = lambda j: z3.Select(new, j); m = T(c.old['ids'].len); rk = z3.Function('below', I, I); g = Ghost('positions below'); k, j = z3.Ints('k j')
    g.axioms = [z3.ForAll([k], z3.And(0 <= rk(k), rk(k) <= m), patterns=[rk(k)]), z3.ForAll([k, j], z3.Implies(z3.And(0 <= j, j < m), (j < rk(k)) == (s(j) < k)), patterns=[z3.MultiPattern(rk(k), s(j))])]
    c._rm = (s, m, rk); c._perm = rec[:2]
    return [g]
def listed(c, k):
    s, m, rk = c._rm; return z3.And(rk(k) < m, s(rk(k)) == k)
def rmpost(src, dst):
    def f(c):
        o, n = c.old[src], c.new[dst]; s, m, rk = c._rm
        return [('dimensions match content', dims_ok(n)), ('one element less per position', T(n.len) == T(o.len) - m),
                ('nothing is changed when nothing is listed', forall(z3.Implies(z3.And(m == 0, inr(K, 0, o.len)), n[K] == o[K]))),
                ('elements before the first listed position stay', forall(z3.Implies(z3.And(m > 0, inr(K, 0, o.len), K < s(z3.IntVal(0))), n[K] == o[K]))),
                ('every later element that is not listed moves down by the number of removed positions below it', forall(z3.Implies(z3.And(m > 0, inr(K, 0, o.len), K > s(z3.IntVal(0)), z3.Not(listed(c, K))), n[K - rk(K)] == o[K])))]
    return f
def rmerr(src):
    def f(c):
        ids = c.old['ids']; N = T(c.old[src].len); a, b = z3.Ints('ea eb'); m = T(ids.len)
        return z3.Or(z3.Exists([a], z3.And(inr(a, 0, m), ids[a] >= N)), z3.Exists([a, b], z3.And(0 <= a, a < b, b < m, ids[a] == ids[b])))
    return f
def rmh(src):
    def h(c, env):
        if not hasattr(c, '_rm'): return
        s, m, rk = c._rm; o = c.old[src]; N = T(o.len); V = lambda x, st: T(env.val(x, st)); j = z3.Int('j')
        for i in env.ints:
            yield (('done', str(i)), lambda st, i=i: z3.And(0 <= V(i, st), V(i, st) <= m), True)
            yield (('strict', str(i)), lambda st, i=i: z3.ForAll([j, K], z3.Implies(z3.And(m - V(i, st) <= j, j < K, K < m), s(j) < s(K)), patterns=[z3.MultiPattern(s(j), s(K))]))
            yield (('gap', str(i)), lambda st, i=i: z3.Or(V(i, st) == 0, V(i, st) >= m, s(m - V(i, st) - 1) + 1 < s(m - V(i, st))), True)
            yield (('fit', str(i)), lambda st, i=i: z3.Or(V(i, st) == 0, s(m - V(i, st)) + V(i, st) <= N), True)
            yield (('valid', str(i)), lambda st, i=i: z3.ForAll([j], z3.Implies(z3.And(m - V(i, st) <= j, j < m), s(j) < N), patterns=[s(j)]))
            yield (('spread', str(i)), lambda st, i=i: z3.ForAll([K], z3.Implies(z3.And(V(i, st) > 0, K > s(m - V(i, st))), rk(K) - (m - V(i, st)) <= K - s(m - V(i, st))), patterns=[rk(K)]))
            for r in env.ints:
                if r is i: continue
                yield (('at', str(i), str(r)), lambda st, i=i, r=r: V(r, st) == s(m - V(i, st)), True)
                yield (('len', str(i), str(r)), lambda st, i=i, r=r: V(r, st) == N - V(i, st), True)
            for x in env.outer:
                yield (('more', str(i), str(x)), lambda st, i=i, x=x: V(i, st) > T(x), True)
                yield (('last', str(i), str(x)), lambda st, i=i, x=x: s(m - T(x) - 1) == s(m - V(i, st)) + (V(i, st) - T(x) - 1), True)
                yield (('run', str(i), str(x)), lambda st, i=i, x=x: z3.ForAll([j], z3.Implies(z3.And(m - V(i, st) <= j, j < m - T(x)), s(j) == s(m - V(i, st)) + j - (m - V(i, st))), patterns=[s(j)]))
                yield (('runk', str(i), str(x)), lambda st, i=i, x=x: z3.ForAll([K], z3.Implies(z3.And(s(m - V(i, st)) <= K, K <= s(m - T(x) - 1)), listed(c, K)), patterns=[rk(K)]))
            for A in env.arrs:
                if A.ekind.sort != I: continue
                yield (('same', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(inr(K, 0, N), z3.Or(V(i, st) == 0, K < s(m - V(i, st)))), env.val(A, st)[K] == o[K]), patterns=[env.val(A, st)[K]]))
                yield (('moved', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(inr(K, 0, N), V(i, st) > 0, K > s(m - V(i, st)), z3.Not(listed(c, K))), env.val(A, st)[K - (rk(K) - (m - V(i, st)))] == o[K]), patterns=[rk(K)]))
    return h
SPECS += [
    Spec('h_inplace_remove', [Vec('v', 1, 'i32', out=1), Vec('ids', 1, 'u64')], rmpost('v', 'v'), err=rmerr('v'), on_sort=on_rm, hints=[rmh('v')], doc='inplace_remove: every other element kept, in order; error for invalid or repeated positions'),
    Spec('h_remove', [Vec('v', 1, 'i32'), Vec('ids', 1, 'u64'), Vec('out', 1, 'i32', out=1)], rmpost('v', 'out'), err=rmerr('v'), on_sort=on_rm, hints=[rmh('v')], doc='remove'),
]
