from irv.contract import *
from irv.lib import *
BOUNDED = 'sort, inplace_sort (with and without comparator), is_sorted on all arrays up to 6 elements over small alphabets (not-a-number and infinities included), strings, 2-d arrays and views, random arrays up to 150; searches on all sorted arrays up to 6 elements with every value around them, random up to 60, strings'
ASSUME = ['the order on strings is assumed to be a strict total order under which only equal strings are equivalent (std::string operator<)']
P_, Q_ = z3.Ints('p q')
def sortpost(c, less=less):
    n = c.new['out']; e = el(c, 'in'); N = c.old['in'].len; pq = z3.And(0 <= P_, P_ < Q_, Q_ < T(N))
    pt = [z3.MultiPattern(n[P_], n[Q_])]
    return [('one position per element', z3.And(T(n.len) == T(N), dims_ok(n))), ('positions are valid', forall(z3.Implies(inr(K, 0, N), z3.And(n[K] >= 0, n[K] < T(N))))),
            ('elements are non-decreasing, not-a-number last', forall(z3.Implies(pq, z3.Not(less(e(n[Q_]), e(n[P_])))), P_, Q_)),
            ('equal elements keep their order', forall(z3.Implies(z3.And(pq, z3.Not(less(e(n[P_]), e(n[Q_])))), n[P_] < n[Q_]), P_, Q_)),
            ('no position appears twice', forall(z3.Implies(pq, n[P_] != n[Q_]), P_, Q_))]
def gs(c):
    g = c.st.ghost.get('sorts')
    if not g: raise Unsupported('no permutation witness: the code no longer sorts through std::sort/std::stable_sort')
    return g[-1]
def isortpost(lt):
    def f(c):
        o, n = c.old['v'], c.new['v']; N = o.len; P, Q = gs(c)[:2]; pq = z3.And(0 <= P_, P_ < Q_, Q_ < T(N))
        return [('size and dimensions unchanged', z3.And(T(n.len) == T(N), dims_ok(n), *[T(a) == T(b) for a, b in zip(o.dims, n.dims)])),
            ('permutation of the elements', forall(z3.Implies(inr(K, 0, N), z3.And(P(K) >= 0, P(K) < T(N), n[K] == o[P(K)], Q(P(K)) == K, Q(K) >= 0, Q(K) < T(N), P(Q(K)) == K)))),
            ('elements are non-decreasing, not-a-number last', forall(z3.Implies(pq, z3.Not(lt(n[Q_], n[P_]))), P_, Q_)),
            ('equal elements keep their order', forall(z3.Implies(z3.And(pq, z3.Not(lt(n[P_], n[Q_]))), P(P_) < P(Q_)), P_, Q_))]
    return f
def issorted(c):
    e = el(c, 'in'); return forall(z3.Implies(z3.And(1 <= K, K < T(c.old['in'].len)), z3.Not(less(e(K), e(K-1)))))
def ispost(c): return [('true exactly when no element is smaller than the one before it', c.ret == issorted(c))]
ish2 = h_none_before(lambda c, k: less(el(c, 'in')(k+1), el(c, 'in')(k)), lambda c, k: c.old['in'][k])
ish = h_none_before(lambda c, k: z3.And(k >= 1, less(el(c, 'in')(k), el(c, 'in')(k-1))), lambda c, k: c.old['in'][k])
# searches
def spre(*xs):
    def f(c):
        v = el(c, 'v'); V = c.old['v']; N = V.len; j = z3.Int('jj'); i = z3.Int('ii')
        r = [z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < T(N)), z3.Not(less(v(j), v(i)))), patterns=[z3.MultiPattern(V[i], V[j])])]
        if v(K).sort() not in (I, STR): r.append(z3.ForAll([K], z3.Implies(inr(K, 0, N), z3.Not(isnan_(v(K)))), patterns=[V[K]])); r += [z3.Not(isnan_(T(c.old[x].val))) for x in xs]
        if len(xs) == 2: r.append(z3.Not(less(T(c.old[xs[1]].val), T(c.old[xs[0]].val))))
        return r
    return f
def is_lower(c, r, x):
    v = el(c, 'v'); V = c.old['v']; N = T(V.len); x = T(x)
    return z3.And(z3.Or(r == NPOS, z3.And(r >= 0, r < N, z3.Not(less(x, v(r))))), z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < N, z3.Or(r == NPOS, K > r)), less(x, v(K))), patterns=[V[K]]))
def is_upper(c, r, x):
    v = el(c, 'v'); V = c.old['v']; N = T(V.len); x = T(x)
    return z3.And(z3.Or(r == NPOS, z3.And(r >= 0, r < N, less(x, v(r)))), z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < N, z3.Or(r == NPOS, K < r)), z3.Not(less(x, v(K)))), patterns=[V[K]]))
def lowpost(c): return [('last position not above the value', is_lower(c, unat(c, c.ret), c.old['x'].val))]
def uppost(c): return [('first position strictly above the value', is_upper(c, unat(c, c.ret), c.old['x'].val))]
def bpost(x, y):
    def f(c): return [('last position not above the value', is_lower(c, T(c.new['a'].val), c.old[x].val)), ('first position strictly above the value', is_upper(c, T(c.new['b'].val), c.old[y].val))]
    return f
def eqpost(c):
    a, b = T(c.new['a'].val), T(c.new['b'].val); v = c.old['v']; N = T(v.len); x = T(c.old['x'].val)
    return [('both or none found', (a == NPOS) == (b == NPOS)), ('positions valid', z3.Or(a == NPOS, z3.And(0 <= a, a <= b, b < N))),
            ('exactly the elements between them are equal to the value', forall(z3.Implies(inr(K, 0, N), equal(v[K], x) == z3.And(a != NPOS, a <= K, K <= b))))]
U = [Vec('out', 1, 'u64', out=1)]
S = lambda k: [Vec('v', 1, k), Int('x', k) if k == 'i32' else Flt('x', k)]
AB = [Ref('a', 'u64'), Ref('b', 'u64')]
gt = lambda x, y: less(y, x)
SPECS = [
    Spec('h_sort_i', [Vec('in', 1, 'i32')] + U, sortpost, hints=[h_prefix(lambda c, a, k: a[k] == k)], doc='sort: stable ordered permutation (integers)'),
    Spec('h_sort_d', [Vec('in', 1, 'f64')] + U, sortpost, hints=[h_prefix(lambda c, a, k: a[k] == k)], doc='sort (doubles, not-a-number last)'),
    Spec('h_sort_s', [Vec('in', 1, 'str')] + U, sortpost, hints=[h_prefix(lambda c, a, k: a[k] == k)], doc='sort (strings)'),
    Spec('h_sort_2d', [Vec('in', 2, 'f64')] + U, sortpost, hints=[h_prefix(lambda c, a, k: a[k] == k)], doc='sort (2-d)'),
    Spec('h_sort_view', [Vec('p', 1, 'f64'), View('in', 1, 'p')] + U, sortpost, hints=[h_prefix(lambda c, a, k: a[k] == k)], doc='sort (view)'),
    Spec('h_inplace_sort_i', [Vec('v', 1, 'i32', out=1)], isortpost(less), doc='inplace_sort (integers)'),
    Spec('h_inplace_sort_d', [Vec('v', 1, 'f64', out=1)], isortpost(less), doc='inplace_sort (doubles)'),
    Spec('h_is_sorted_i', [Vec('in', 1, 'i32')], ispost, hints=[ish, ish2], doc='is_sorted'),
    Spec('h_is_sorted_d', [Vec('in', 1, 'f64')], ispost, hints=[ish, ish2], doc='is_sorted (doubles)'),
    Spec('h_is_sorted_view', [Vec('p', 1, 'f64'), View('in', 1, 'p')], ispost, hints=[ish, ish2], doc='is_sorted (view)'),
    Spec('h_lower_i', S('i32'), lowpost, pre=spre('x'), doc='lower_bound'),
    Spec('h_lower_d', S('f64'), lowpost, pre=spre('x'), doc='lower_bound (doubles)'),
    Spec('h_upper_i', S('i32'), uppost, pre=spre('x'), doc='upper_bound'),
    Spec('h_upper_d', S('f64'), uppost, pre=spre('x'), doc='upper_bound (doubles)'),
    Spec('h_bounds_i', S('i32') + AB, bpost('x', 'x'), pre=spre('x'), doc='bounds'),
    Spec('h_bounds_d', S('f64') + AB, bpost('x', 'x'), pre=spre('x'), doc='bounds (doubles)'),
    Spec('h_bounds2_d', S('f64') + [Flt('y')] + AB, bpost('x', 'y'), pre=spre('x', 'y'), doc='bounds of an interval'),
    Spec('h_equal_range_i', S('i32') + AB, eqpost, pre=spre('x'), doc='equal_range'),
    Spec('h_equal_range_d', S('f64') + AB, eqpost, pre=spre('x'), doc='equal_range (doubles)'),
    Spec('h_sort_c', [Vec('in', 1, 'f64')] + U, lambda c: sortpost(c, lambda x, y: flt(y, x)), pre=lambda c: [z3.ForAll([K], z3.Not(isnan_(c.old['in'][K])), patterns=[c.old['in'][K]])], hints=[h_prefix(lambda c, a, k: a[k] == k)], doc='sort with a comparator'),
    Spec('h_inplace_sort_c', [Vec('v', 1, 'i32', out=1)], isortpost(gt), doc='inplace_sort with a comparator'),
    Spec('h_inplace_sort_s', [Vec('v', 1, 'str', out=1)], isortpost(less), doc='inplace_sort (strings)'),
    Spec('h_inplace_sort_2d', [Vec('v', 2, 'i32', out=1)], isortpost(less), doc='inplace_sort (2-d)'),
    Spec('h_lower_view', [Vec('p', 1, 'f64'), View('v', 1, 'p'), Flt('x')], lowpost, pre=spre('x'), doc='lower_bound (view)'),
    Spec('h_upper_view', [Vec('p', 1, 'f64'), View('v', 1, 'p'), Flt('x')], uppost, pre=spre('x'), doc='upper_bound (view)'),
    Spec('h_bounds_view', [Vec('p', 1, 'f64'), View('v', 1, 'p'), Flt('x')] + AB, bpost('x', 'x'), pre=spre('x'), doc='bounds (view)'),
]
