from irv.contract import *
from irv.lib import *
NPOS = (1 << 64) - 1
BOUNDED = 'where/where_first/where_last/complement on one- and two-dimensional arrays and views: all boolean arrays up to 10 elements, random ones up to 400; complement of randomly ordered position lists'
ASSUME = ['complement: positions valid and distinct (what happens otherwise is not specified); the pigeonhole principle for such lists is taken as a mathematical fact']

def hit(c):
    if 'p' in c.old: v, p = c.old['in'], c.old['p']; return lambda k: p[v[k]] == 1
    v = c.old['in']; return lambda k: v[k] == 1
def pat(c): v = c.old['in']; return lambda k: v[k]
def ghost(c):
    if not hasattr(c, '_g'): c._g = count('hits', hit(c), pat(c))
    return c._g
def post(c):
    n = c.new['out']; v = c.old['in']; g = ghost(c); h = hit(c)
    return [('dimensions match content', dims_ok(n)), ('number returned = number of true elements', T(n.len) == g.f(T(v.len))),
            ('every returned position is valid and true', forall(z3.Implies(inr(K, 0, n.len), z3.And(inr(n[K], 0, v.len), h(n[K]))))),
            ('increasing, hence no repetition', forall(z3.Implies(z3.And(0 <= K, K < J, J < T(n.len)), n[K] < n[J]), K, J)),
            ('every true position is returned', forall(z3.Implies(z3.And(inr(J, 0, v.len), h(J)), z3.And(inr(g.f(J), 0, n.len), n[g.f(J)] == J)), J))]
def where_hint(c, env):
    v = c.old['in']; h = hit(c)
    for A in env.arrs:
        if A.ekind.sort != I: continue
        for L in env.ints:
            for i in env.ints:
                if L is i: continue
                va = lambda st, A=A: env.val(A, st); vl = lambda st, L=L: T(env.val(L, st)); vi = lambda st, i=i: T(env.val(i, st))
                yield (('valid', str(A), str(L), str(i)), lambda st, va=va, vl=vl, vi=vi: z3.ForAll([K], z3.Implies(inr(K, 0, vl(st)), z3.And(va(st)[K] >= 0, va(st)[K] < vi(st), h(va(st)[K]))), patterns=[va(st)[K]]))
                yield (('incr', str(A), str(L), str(i)), lambda st, va=va, vl=vl, vi=vi: z3.ForAll([K, J], z3.Implies(z3.And(0 <= K, K < J, J < vl(st)), va(st)[K] < va(st)[J]), patterns=[z3.MultiPattern(va(st)[K], va(st)[J])]))
def first_post(c):
    v = c.old['in']; r = T(c.ex.u(c.st, c.ret)); h = hit(c)
    return [('not found means no true element', z3.Implies(r == NPOS, forall(z3.Implies(inr(K, 0, v.len), z3.Not(h(K)))))),
            ('found position is valid, true and the first', z3.Implies(r != NPOS, z3.And(inr(r, 0, v.len), h(r), forall(z3.Implies(z3.And(0 <= K, K < r), z3.Not(h(K)))))))]
def last_post(c):
    v = c.old['in']; r = T(c.ex.u(c.st, c.ret)); h = hit(c)
    return [('not found means no true element', z3.Implies(r == NPOS, forall(z3.Implies(inr(K, 0, v.len), z3.Not(h(K)))))),
            ('found position is valid, true and the last', z3.Implies(r != NPOS, z3.And(inr(r, 0, v.len), h(r), forall(z3.Implies(z3.And(r < K, K < T(v.len)), z3.Not(h(K)))))))]
fh = [h_none_before(lambda c, k: hit(c)(k), lambda c, k: pat(c)(k), lambda c: c.old['in'].len)]
wh = [h_count_collect(ghost), where_hint]
W = 'positions of all true elements, increasing, each once'
# complement: 'inset' is membership in ids, 'at' a position where the value occurs
inset = z3.Function('inset', I, z3.BoolSort()); at = z3.Function('at', I, I)
def cpre(c):
    v, ids = c.old['v'], c.old['ids']
    return [forall(z3.Implies(inr(K, 0, ids.len), z3.And(inr(ids[K], 0, v.len), inset(ids[K]), at(ids[K]) == K)), pats=[ids[K]]),
            forall(z3.Implies(inset(K), z3.And(inr(at(K), 0, ids.len), ids[at(K)] == K)), pats=[inset(K)]),
            # pigeonhole principle for distinct positions
            T(ids.len) <= T(v.len), z3.Implies(T(ids.len) == T(v.len), forall(z3.Implies(inr(K, 0, v.len), inset(K)), pats=[inset(K)]))]
def cghost(c):
    if not hasattr(c, '_g'): c._g = count('others', lambda k: z3.Not(inset(k)), inset)
    return c._g
def cpost(c):
    v, n = c.old['v'], c.new['out']; g = cghost(c)
    return [('dimensions match content', dims_ok(n)),
            ('every returned position is valid and not in the list', forall(z3.Implies(inr(K, 0, n.len), z3.And(inr(n[K], 0, v.len), z3.Not(inset(n[K])))))),
            ('increasing, hence no repetition', forall(z3.Implies(z3.And(0 <= K, K < J, J < T(n.len)), n[K] < n[J]), K, J)),
            ('every other position is returned', forall(z3.Implies(z3.And(inr(J, 0, v.len), z3.Not(inset(J))), z3.And(inr(g.f(J), 0, n.len), n[g.f(J)] == J)), J))]
def chint(c, env):
    for A in env.arrs:
        if A.ekind.sort != I: continue
        for i in env.ints:
            va = lambda st, A=A: env.val(A, st); vi = lambda st, i=i: T(env.val(i, st))
            yield (('sel', str(A), str(i)), lambda st, va=va, vi=vi: z3.ForAll([K], va(st)[K] == z3.If(z3.And(inset(K), at(K) < vi(st)), 1, 0), patterns=[va(st)[K], inset(K)]))
            for L in env.ints:
                if L is i: continue
                vl = lambda st, L=L: T(env.val(L, st))
                yield (('valid', str(A), str(L), str(i)), lambda st, va=va, vl=vl, vi=vi: z3.ForAll([K], z3.Implies(inr(K, 0, vl(st)), z3.And(va(st)[K] >= 0, va(st)[K] < vi(st), z3.Not(inset(va(st)[K])))), patterns=[va(st)[K]]))
                yield (('incr', str(A), str(L), str(i)), lambda st, va=va, vl=vl, vi=vi: z3.ForAll([K, J], z3.Implies(z3.And(0 <= K, K < J, J < vl(st)), va(st)[K] < va(st)[J]), patterns=[z3.MultiPattern(va(st)[K], va(st)[J])]))
SPECS = [
    Spec('h_complement', [Vec('v', 1, 'i32'), Vec('ids', 1, 'u64'), Vec('out', 1, 'u64', out=1)], cpost, pre=cpre, hints=[h_count_collect(cghost), chint], ghosts=lambda c: [cghost(c)], doc='complement: increasing list of the positions not in the list'),
    Spec('h_where', [Vec('in', 1, 'bool'), Vec('out', 1, 'u64', out=1)], post, hints=wh, ghosts=lambda c: [ghost(c)], doc='where(vec<1,bool>): ' + W),
    Spec('h_where2', [Vec('in', 2, 'bool'), Vec('out', 1, 'u64', out=1)], post, hints=wh, ghosts=lambda c: [ghost(c)], doc='where(vec<2,bool>): ' + W),
    Spec('h_where_view', [Vec('p', 1, 'bool'), View('in', 1, 'p'), Vec('out', 1, 'u64', out=1)], post, hints=wh, ghosts=lambda c: [ghost(c)], doc='where(view of bool): ' + W),
    Spec('h_where_first', [Vec('in', 1, 'bool')], first_post, hints=fh, doc='where_first: smallest true position or npos'),
    Spec('h_where_last', [Vec('in', 1, 'bool')], last_post, hints=fh, doc='where_last: largest true position or npos'),
    Spec('h_where_first2', [Vec('in', 2, 'bool')], first_post, hints=fh, doc='where_first on a 2-d array'),
    Spec('h_where_last2', [Vec('in', 2, 'bool')], last_post, hints=fh, doc='where_last on a 2-d array'),
]
