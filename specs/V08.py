from irv.contract import *
from irv.lib import *
BOUNDED = 'unique_*, is_any_of, match, set_intersection, set_union (and their *_sorted forms) on all pairs of arrays up to 4 elements over three values, strings, sizes around any switch of algorithm up to 130, random up to 200, not-a-number values, 2-d arrays and views'
ASSUME = ['set_intersection, set_union: bounded stand-in only', 'unique functions are specified for arrays without not-a-number values']
def nonan(*ns):
    def f(c): return [z3.ForAll([K], z3.Not(isnan_(c.old[n][K])), patterns=[c.old[n][K]]) for n in ns if c.old[n].arr.range() not in (I, STR)]
    return f
def issorted(v): return z3.ForAll([K, J], z3.Implies(z3.And(0 <= K, K <= J, J < T(v.len)), z3.Not(less(v[J], v[K]))), patterns=[z3.MultiPattern(v[K], v[J])])
# --- unique
def gsorted(c):
    if not hasattr(c, '_g'): v = c.old['in']; c._g = runs('runs', lambda j: v[j], lambda j: v[j])
    return c._g
def gsort(c, st, rec):
    P, Q, old, new, R = rec; v = c.old['in']; c._s = rec
    c._g = runs('runs!%d' % uid(), lambda j: v[z3.Select(new, j)], lambda j: z3.Select(new, j))
    return [c._g]
def gsid(c):
    if not hasattr(c, '_g'): v = c.old['in']; s = c.old['sid']; c._g = runs('runs', lambda j: v[s[j]], lambda j: s[j])
    return c._g
def collect(at):
    """position at(j) of each run start j is stored, runs in order"""
    def h(c, env):
        G = getattr(c, '_g', None)
        if G is None: return
        for i in env.ints:
            for off in (0, 1):
                for Ln in env.ints:
                    if Ln is not i: yield (('cnt', off, str(Ln), str(i)), lambda st, Ln=Ln, i=i, off=off: T(env.val(Ln, st)) == G.f(T(env.val(i, st))+off), True)
                for A in env.arrs:
                    if A.ekind.sort != I: continue
                    yield (('col', off, str(A), str(i)), lambda st, A=A, i=i, off=off: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))+off, G.pred(K)), env.val(A, st)[G.f(K)] == at(c, K)), patterns=[G.f(K)]))
                # 'last' holds the value at the previous position
                for x in list(env.ints) + list(env.fps):
                    if x is i or (x in env.fps) != (c.old['in'].arr.range() != I): continue
                    yield (('last', off, str(x), str(i)), lambda st, x=x, i=i, off=off: equal(T(env.val(x, st)), c.old['in'][at(c, T(env.val(i, st))-1+off)]))
    return h
at_id = lambda c, k: k
at_sort = lambda c, k: z3.Select(c._s[3], k)
at_sid = lambda c, k: c.old['sid'][k]
def upost(where, values=False):
    """where(c, k): position in sorted order of element k"""
    def f(c):
        n, v = c.new['out'], c.old['in']; g = getattr(c, '_g', None)
        base = [('dimensions match content', dims_ok(n)), ('no more representatives than elements', T(n.len) <= T(v.len))]
        if g is None or (isc(n.len) and n.len == 0): return base + [('nothing returned only for an empty array', T(v.len) == 0)]
        src = lambda k: at_any(c, k) if not values else v[at_any(c, k)]
        w = lambda k: g.f(g.start(where(c, k)))
        val = (lambda x: x) if values else (lambda x: v[x])
        r = base + [('each is the representative of a run', z3.ForAll([K], z3.Implies(inr(K, 0, n.len), z3.And(n[K] == src(g.hp(K)), 0 <= g.hp(K), g.hp(K) < T(v.len), g.pred(g.hp(K)), g.f(g.hp(K)) == K)), patterns=[n[K]]), 1),
            ('in the order of the runs', z3.ForAll([K, J], z3.Implies(z3.And(0 <= K, K < J, J < T(n.len)), g.hp(K) < g.hp(J)), patterns=[z3.MultiPattern(g.hp(K), g.hp(J))]), 1),
            ('values strictly increasing, hence all distinct', forall(z3.Implies(z3.And(0 <= K, K < J, J < T(n.len)), z3.And(n[K] == src(g.hp(K)), n[J] == src(g.hp(J)), g.hp(K) < g.hp(J), less(val(n[K]), val(n[J])))), K, J)),
            ('every value has a representative', forall(z3.Implies(inr(K, 0, v.len), z3.And(inr(w(K), 0, n.len), equal(val(n[w(K)]), v[K])))))]
        if values: r.append(('every returned value is one of the array', forall(z3.Implies(inr(K, 0, n.len), n[K] == v[at_any(c, g.hp(K))]))))
        else: r += [('positions are valid', forall(z3.Implies(inr(K, 0, n.len), z3.And(n[K] == src(g.hp(K)), n[K] >= 0, n[K] < T(v.len))))),
            ('the representative is the first occurrence', forall(z3.Implies(inr(K, 0, v.len), n[w(K)] <= K)))]
        return r
    return f
def at_any(c, k): return at_sort(c, k) if hasattr(c, '_s') else c.old['sid'][k] if 'sid' in c.old else k
w_id = lambda c, k: k
w_sort = lambda c, k: c._s[1](k)
sinv_ = z3.Function('sidinv', I, I)
def sidpre(c):
    v, s = c.old['in'], c.old['sid']; N = v.len
    return [T(s.len) == T(N), forall(z3.Implies(inr(K, 0, N), z3.And(inr(s[K], 0, N), sinv_(s[K]) == K)), pats=[s[K]]), forall(z3.Implies(inr(K, 0, N), z3.And(inr(sinv_(K), 0, N), s[sinv_(K)] == K)), pats=[sinv_(K)]),
            z3.ForAll([K, J], z3.Implies(z3.And(0 <= K, K < J, J < T(N)), z3.And(z3.Not(less(v[s[J]], v[s[K]])), z3.Implies(z3.Not(less(v[s[K]], v[s[J]])), s[K] < s[J]))), patterns=[z3.MultiPattern(s[K], s[J])])]
# --- first match of element k of v in w
fm = z3.Function('firstmatch', I, I)
def fmax(c):
    v, w = c.old['v'], c.old['w']; N = T(w.len)
    g = Ghost('first match'); g.f = fm
    g.axioms = [z3.ForAll([K], z3.And(0 <= fm(K), fm(K) <= N, z3.Implies(fm(K) < N, equal(v[K], w[fm(K)]))), patterns=[fm(K)]),
                z3.ForAll([K, J], z3.Implies(z3.And(0 <= J, J < fm(K)), z3.Not(equal(v[K], w[J]))), patterns=[z3.MultiPattern(fm(K), w[J])])]
    return g
def anys(c):
    w = c.old['w']; x = T(c.old['x'].val); return [('true exactly when some element equals the value', c.ret == z3.Not(forall(z3.Implies(inr(K, 0, w.len), z3.Not(equal(x, w[K]))))))]
def anyv(c):
    v, w, n = c.old['v'], c.old['w'], c.new['out']
    return [('dimensions as the first array', z3.And(dims_ok(n), *[T(a) == T(b) for a, b in zip(n.dims, v.dims)])),
            ('true for the elements present in the second array', forall(z3.Implies(z3.And(inr(K, 0, v.len), inr(J, 0, w.len), equal(v[K], w[J])), n[K] == 1), K, J)),
            ('only for those', forall(z3.Implies(z3.And(inr(K, 0, v.len), n[K] != 0), z3.And(inr(fm(K), 0, w.len), equal(v[K], w[fm(K)])))))]
def h_fm(c, env):
    N = T(c.old['w'].len)
    for A in env.arrs:
        if A.ekind.sort != I: continue
        for i in env.ints:
            yield (('any', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == z3.If(fm(K) < N, 1, 0)), patterns=[env.val(A, st)[K]]))
            yield (('anyr', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(T(env.val(i, st)) <= K, env.val(A, st)[K] == 0), patterns=[env.val(A, st)[K]]))
    for j in env.ints:
        for x in env.outer: yield (('fm>=', str(x), str(j)), lambda st, x=x, j=j: fm(x) >= T(env.val(j, st)), True)
# --- match
def gm(c):
    if not hasattr(c, '_m'): N = T(c.old['w'].len); c._m = count('hits', lambda k: fm(k) < N, lambda k: fm(k), inverse=True)
    return c._m
def msmall(c): return [z3.Or(T(c.old['v'].len) < 64, T(c.old['w'].len) < 64)]
def mpost(c):
    v, w, a, b = c.old['v'], c.old['w'], c.new['id1'], c.new['id2']; g = gm(c); N = T(v.len); M = T(w.len)
    return [('dimensions match content', z3.And(dims_ok(a), dims_ok(b), T(a.len) == T(b.len))),
            ('valid positions', forall(z3.Implies(inr(K, 0, a.len), z3.And(a[K] == g.hp(K), b[K] == fm(g.hp(K)), inr(a[K], 0, N), inr(b[K], 0, M))))),
            ('the paired elements are equal', forall(z3.Implies(inr(K, 0, a.len), z3.And(a[K] == g.hp(K), b[K] == fm(g.hp(K)), equal(v[a[K]], w[b[K]]))))),
            ('in the order of the first array', forall(z3.Implies(z3.And(0 <= K, K < J, J < T(a.len)), z3.And(a[K] == g.hp(K), a[J] == g.hp(J), g.hp(K) < g.hp(J), a[K] < a[J])), K, J)),
            ('the match is the first equal element', forall(z3.Implies(inr(K, 0, a.len), z3.And(a[K] == g.hp(K), b[K] == fm(g.hp(K)), z3.Implies(z3.And(0 <= J, J < b[K]), z3.Not(equal(v[a[K]], w[J]))))), K, J)),
            ('every element with an equal is matched', forall(z3.Implies(z3.And(inr(K, 0, N), inr(J, 0, M), equal(v[K], w[J])), z3.And(inr(g.f(K), 0, a.len), a[g.f(K)] == K)), K, J))]
def h_match(c, env):
    G = gm(c); N = T(c.old['w'].len)
    for i in env.ints:
        for Ln in env.ints:
            if Ln is not i: yield (('cnt', str(Ln), str(i)), lambda st, Ln=Ln, i=i: T(env.val(Ln, st)) == G.f(T(env.val(i, st))), True)
        for A in env.arrs:
            if A.ekind.sort != I: continue
            for nm, val in (('k', lambda k: k), ('fm', lambda k: fm(k))):
                yield (('col', nm, str(A), str(i)), lambda st, A=A, i=i, val=val: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st)), G.pred(K)), env.val(A, st)[G.f(K)] == val(K)), patterns=[G.f(K)]))
def hps(at):
    """rank k holds the k-th run start: in arrays of positions (or pointers), and of values"""
    def h(c, env):
        G = getattr(c, '_g', None)
        if G is None: return
        v = c.old['in']
        for A in env.arrs:
            if A.ekind.sort != I: continue
            for i in env.ints:
                yield (('hp', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == at(c, G.hp(K))), patterns=[env.val(A, st)[K]]))
                yield (('hpv', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == v[at(c, G.hp(K))]), patterns=[env.val(A, st)[K]]))
    return h
UO = [Vec('out', 1, 'u64', out=1)]
VW = lambda k, d=1: [Vec('v', d, k), Vec('w', 1, k)]
idh = h_prefix(lambda c, a, k: a[k] == k)
MO = [Vec('id1', 1, 'u64', out=1), Vec('id2', 1, 'u64', out=1)]
SPECS = [
    Spec('h_unique_ids_sorted', [Vec('in', 1, 'i32')] + UO, upost(w_id), pre=lambda c: [issorted(c.old['in'])], ghosts=lambda c: [gsorted(c)], hints=[collect(at_id)], doc='unique_ids_sorted: first position of every run of equal values'),
    Spec('h_unique_ids', [Vec('in', 1, 'i32')] + UO, upost(w_sort), on_sort=gsort, hints=[idh, collect(at_sort)], doc='unique_ids: first occurrence of every distinct value, by increasing value'),
    Spec('h_unique_ids_d', [Vec('in', 2, 'f64')] + UO, upost(w_sort), pre=nonan('in'), on_sort=gsort, hints=[idh, collect(at_sort)], doc='unique_ids (2-d, doubles)'),
    Spec('h_unique_ids_sid', [Vec('in', 1, 'i32'), Vec('sid', 1, 'u64')] + UO, upost(lambda c, k: sinv_(k)), pre=sidpre, ghosts=lambda c: [gsid(c)], hints=[collect(at_sid)], doc='unique_ids with given sorting positions'),
    Spec('h_any_scalar', [Int('x', 'i32'), Vec('w', 1, 'i32')], anys, hints=[h_none_before(lambda c, k: equal(T(c.old['x'].val), c.old['w'][k]), lambda c, k: c.old['w'][k])], doc='is_any_of(value, array)'),
    Spec('h_any', VW('i32') + [Vec('out', 1, 'bool', out=1)], anyv, ghosts=lambda c: [fmax(c)], hints=[h_fm], doc='is_any_of(array, array)'),
    Spec('h_any_d', VW('f64', 2) + [Vec('out', 2, 'bool', out=1)], anyv, ghosts=lambda c: [fmax(c)], hints=[h_fm], doc='is_any_of(2-d array, array)'),
    Spec('h_unique_values_sorted', [Vec('in', 1, 'i32'), Vec('out', 1, 'i32', out=1)], upost(w_id, True), pre=lambda c: [issorted(c.old['in'])], ghosts=lambda c: [gsorted(c)], hints=[collect(at_id), hps(at_id)], doc='unique_values_sorted'),
    Spec('h_unique_values', [Vec('in', 1, 'i32'), Vec('out', 1, 'i32', out=1)], upost(w_sort, True), on_sort=gsort, hints=[idh, collect(at_sort), hps(at_sort)], doc='unique_values'),
    Spec('h_match', VW('i32') + MO, mpost, pre=msmall, ghosts=lambda c: [fmax(c), gm(c)], hints=[h_fm, h_match], doc='match (one of the arrays has less than 64 elements): first equal element for every element that has one, in order'),
    Spec('h_match_d', VW('f64') + MO, mpost, pre=msmall, ghosts=lambda c: [fmax(c), gm(c)], hints=[h_fm, h_match], doc='match (doubles, as above, not-a-number values never match)'),
]
# --- match of large arrays: both are sorted, then traversed together
NPOS = (1 << 64) - 1
def on_match(c, st, rec):
    P, Q = rec[:2]; g = Ghost('sorted'); n = T(c.old['w'].len)
    if len(st.ghost['sorts']) == 2: g.axioms = [z3.ForAll([K], z3.Implies(z3.And(0 <= fm(K), fm(K) < n), z3.And(0 <= Q(fm(K)), Q(fm(K)) < n, P(Q(fm(K))) == fm(K))), patterns=[fm(K)])]      # instance of the assumed contract of std::stable_sort, with this trigger
    return [g]
def h_merge(c, env):
    g = env.s0.ghost.get('sorts', ())
    if len(g) != 2: return
    s1, s2 = [(lambda k, n=x[3]: z3.Select(n, k)) for x in g]; Q1 = g[0][1]; v, w = c.old['v'], c.old['w']; N = T(v.len); M = T(w.len); V = lambda x, st: T(env.val(x, st)); val = lambda k: z3.If(fm(k) < M, fm(k), NPOS)
    if any(i.key[0] == 'len' for i in env.ints):
        for n, o in env.s0.objs.items():
            if getattr(o, 'arr', None) is not None and o.arr.sort() == z3.ArraySort(I, I) and z3.is_const(o.arr) and o.arr.decl().name().startswith('ha!'):
                yield (('all', n), lambda st, o=o: z3.ForAll([K], z3.Implies(inr(K, 0, N), z3.Select(o.arr, K) == val(K)), patterns=[z3.Select(o.arr, K), fm(K)]))
        G = gm(c)
        for i in env.ints:
            if i.key[0] == 'len': continue
            for x in env.ints:
                if x.key[0] == 'len': yield (('cnt', str(x), str(i)), lambda st, x=x, i=i: V(x, st) == G.f(V(i, st)), True)
            for A in env.arrs:
                if A.ekind.sort != I: continue
                for nm, f in (('k', lambda k: k), ('fm', lambda k: fm(k))):
                    yield (('col', nm, str(A), str(i)), lambda st, A=A, i=i, f=f: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < V(i, st), G.pred(K)), env.val(A, st)[G.f(K)] == f(K)), patterns=[G.f(K)]))
        return
    for i in env.ints:
        for j in env.ints:
            if i is not j: yield (('below', str(i), str(j)), lambda st, i=i, j=j: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < V(j, st), V(i, st) < N), less(w[s2(K)], v[s1(V(i, st))])), patterns=[s2(K)]))
        for A in env.arrs:
            if A.ekind.sort == I: yield (('found', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(inr(K, 0, N), env.val(A, st)[K] == z3.If(Q1(K) < V(i, st), val(K), NPOS)), patterns=[env.val(A, st)[K], fm(K)]))
def h_npos(c, env):
    if any(i.key[0] == 'len' for i in env.ints): return
    for A in env.arrs:
        if A.ekind.sort == I:
            for i in env.ints: yield (('npos', str(A), str(i)), lambda st, A=A, i=i: z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < T(env.val(i, st))), env.val(A, st)[K] == NPOS), patterns=[env.val(A, st)[K]]))
def mbig(first):
    return lambda c: [T(c.old['v'].len) >= 64, T(c.old['w'].len) >= 64, (T(c.old['v'].len) <= T(c.old['w'].len)) if first else (T(c.old['v'].len) > T(c.old['w'].len))]
SPECS += [Spec('h_match_%s%s' % (b, s), VW(k) + MO, mpost, pre=mbig(b == 'long'), on_sort=on_match, ghosts=lambda c: [fmax(c), gm(c)], hints=[lambda c, env: idh(c, env) if len(env.s0.ghost.get('sorts', ())) < 2 else (), h_npos, h_merge], doc='match of arrays with 64 or more elements, the %s one being at least as long' % ('second' if b == 'long' else 'first')) for s, k in (('', 'i32'), ('_d', 'f64')) for b in ('long', 'short')]
