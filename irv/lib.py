"""Ghost functions, lemmas by induction, and invariant templates shared by the contracts."""
import z3
from .core import *
from .contract import K, J, forall, inr, prod, dims_ok, VI
L = z3.Int('l')

class Ghost:
    """recursively defined ghost function with lemmas proved by induction (obligations of kind 'lemma')"""
    def __init__(s, name): s.name = name; s.axioms = []; s.goals = []     # goals: [(label, hypotheses, formula)]
    def lemma(s, label, P, lo=0):
        """forall j>=lo. P(j), by induction; added as an axiom afterwards with pattern pat"""
        j = z3.Int('ind!' + label)
        s.goals.append((label + ' base', list(s.axioms), P(z3.IntVal(lo) if isinstance(lo, int) else lo)))
        s.goals.append((label + ' step', list(s.axioms) + [j >= lo, P(j)], P(j+1)))

def count(name, pred, pat, inverse=False):
    """cnt(n) = number of j in [0,n) with pred(j); pat(j): term used as trigger"""
    f = z3.Function(name, I, I); g = Ghost(name)
    g.f = f; g.pred = pred
    j = z3.Int('j'); i = z3.Int('i')
    g.axioms += [f(z3.IntVal(0)) == 0]
    step = lambda t: f(t+1) == f(t) + z3.If(pred(t), 1, 0)
    g.axioms.append(z3.ForAll([j], z3.Implies(j >= 0, step(j)), patterns=[z3.MultiPattern(f(j), pat(j)), f(j+1)]))
    g.lemma(name + ' bounds', lambda t: z3.And(f(t) >= 0, f(t) <= t))
    g.axioms.append(z3.ForAll([j], z3.Implies(j >= 0, z3.And(f(j) >= 0, f(j) <= j)), patterns=[f(j)]))
    # monotone: forall i<=t: f(i)<=f(t); for i<t with pred(i): f(i)+1<=f(t)
    def mono(t): return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= t), f(i) <= f(t)), patterns=[f(i)])
    g.lemma(name + ' monotone', mono)
    g.axioms.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), f(i) <= f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    def smono(t): return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t, pred(i)), f(i)+1 <= f(t)), patterns=[z3.MultiPattern(f(i), pat(i))])
    g.lemma(name + ' strictly increases at hits', smono)
    g.axioms.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, pred(i)), f(i)+1 <= f(j)), patterns=[z3.MultiPattern(f(i), f(j), pat(i))]))
    if not inverse: return g
    # hp(p): the p-th hit
    hp = g.hp = z3.Function(name + '_at', I, I); q = z3.Int('q')
    g.axioms.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, pred(j)), hp(f(j)) == j), patterns=[z3.MultiPattern(f(j), pat(j))]))
    g.lemma(name + ' every rank is reached', lambda t: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < f(t)), z3.And(0 <= hp(q), hp(q) < t, pred(hp(q)), f(hp(q)) == q)), patterns=[hp(q)]))
    g.axioms.append(z3.ForAll([q, j], z3.Implies(z3.And(0 <= q, j >= 0, q < f(j)), z3.And(0 <= hp(q), hp(q) < j, pred(hp(q)), f(hp(q)) == q)), patterns=[z3.MultiPattern(hp(q), f(j))]))
    return g
def runs(name, val, pat):
    """runs of equal values of val(0), val(1), ...: number of runs begun before j, first position of the run containing j"""
    pred = lambda j: z3.Or(j == 0, z3.Not(equal(val(j), val(j-1))))
    g = count(name, pred, pat, inverse=True); s = g.start = z3.Function(name + '_start', I, I); j = z3.Int('j')
    g.axioms += [s(z3.IntVal(0)) == 0, z3.ForAll([j], z3.Implies(j >= 0, s(j+1) == z3.If(pred(j+1), j+1, s(j))), patterns=[s(j+1)])]
    lem = lambda t: z3.And(0 <= s(t), s(t) <= t, pred(s(t)), equal(val(s(t)), val(t)), g.f(s(t)) + 1 == g.f(t+1))
    g.lemma(name + ' start of run', lem)
    g.axioms.append(z3.ForAll([j], z3.Implies(j >= 0, lem(j)), patterns=[s(j)]))
    return g

# ---- invariant templates: yield (key, f(state)) over the variables a loop modifies
def h_prefix(val, sort=None, lo=0):
    """A[k] == val(k) for lo <= k < i   (array filled in increasing order); also for arrays grown by push_back"""
    def h(c, env):
        for A in env.arrs:
            if A.ekind.sort != (I if sort is None else sort): continue
            for i in env.ints:
                def f(st, A=A, i=i):
                    a = env.val(A, st); t = T(env.val(i, st))
                    return z3.ForAll([K], z3.Implies(z3.And(K >= T(lo), K < t), val(c, a, K)), patterns=[a[K]])
                yield (('prefix', str(A), str(i)), f)
    return h
def h_suffix(val, hi, sort=None):
    def h(c, env):
        for A in env.arrs:
            if A.ekind.sort != (I if sort is None else sort): continue
            for i in env.ints:
                def f(st, A=A, i=i):
                    a = env.val(A, st); t = T(env.val(i, st))
                    return z3.ForAll([K], z3.Implies(z3.And(K >= t, K < T(hi(c))), val(c, a, K)), patterns=[a[K]])
                yield (('suffix', str(A), str(i)), f)
    return h
def h_none_before(pred, pat, hi=None):
    """no k < i satisfies pred (search loops), and no k >= i (k < hi) satisfies pred (backward search)"""
    def h(c, env):
        for i in env.ints:
            def f(st, i=i):
                t = T(env.val(i, st)); return z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < t), z3.Not(pred(c, K))), patterns=[pat(c, K)])
            yield (('none<', str(i)), f)
            if hi is not None:
                def g(st, i=i):
                    t = T(env.val(i, st)); return z3.ForAll([K], z3.Implies(z3.And(t <= K, K < T(hi(c))), z3.Not(pred(c, K))), patterns=[pat(c, K)])
                yield (('none>=', str(i)), g)
                def g2(st, i=i):
                    t = T(env.val(i, st)); return z3.ForAll([K], z3.Implies(z3.And(t < K, K < T(hi(c))), z3.Not(pred(c, K))), patterns=[pat(c, K)])
                yield (('none>', str(i)), g2)
                def g3(st, i=i):
                    t = T(env.val(i, st)); n = T(hi(c)); return z3.ForAll([K], z3.Implies(z3.And(n - t <= K, K < n), z3.Not(pred(c, K))), patterns=[pat(c, K)])
                yield (('none>=n-', str(i)), g3)
    return h
def h_count_collect(g, val=lambda c, k: k, pat=None):
    """collecting loop: the number collected is cnt(i) and hit k is stored at position cnt(k)"""
    def h(c, env):
        G = g(c)
        for i in env.ints:
            for Ln in env.ints:
                if Ln is i: continue
                yield (('cnt', str(Ln), str(i)), lambda st, Ln=Ln, i=i: T(env.val(Ln, st)) == G.f(T(env.val(i, st))), True)
            for A in env.arrs:
                if A.ekind.sort != I: continue
                def f(st, A=A, i=i):
                    a = env.val(A, st); t = T(env.val(i, st))
                    return z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < t, G.pred(K)), a[G.f(K)] == val(c, K)), patterns=[G.f(K)])
                yield (('collected', str(A), str(i)), f)
    return h

# ---- element order used by the contracts (not-a-number values last)
NPOS = (1 << 64) - 1
def less(x, y):
    so = x.sort()
    if so == I: return x < y
    if so == STR:
        from .algo import sord
        return sord(x) < sord(y)
    return z3.And(z3.Not(fnan(x)), z3.Or(fnan(y), flt(x, y)))
def equal(x, y):
    so = x.sort()
    if so in (I, STR): return x == y
    return feq(x, y)
def isnan_(x): return fnan(x) if x.sort() not in (I, STR) else z3.BoolVal(False)
def el(c, name, when='old'):
    """element access k -> value of a vec, or of what a view designates"""
    d = getattr(c, when); v = d[name]
    par = [a.k.get('parent') for a in c.spec.args if a.name == name][0]
    if par: return lambda k: d[par][v[k]]
    return lambda k: v[k]
def unat(c, v):
    """unsigned value of a returned integer"""
    return T(c.ex.u(c.st, v)) if isinstance(v, IntV) else v
