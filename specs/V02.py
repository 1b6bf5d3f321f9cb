from irv.contract import *
from irv.lib import *
from irv.core import mul
BOUNDED = 'operator[] and operator() on arrays and views of 1 to 4 dimensions with extents 0 to 4 (and up to 300 for narrow index types), every index value from -3*extent to 2*extent and the extreme values of every integer type, reading and writing'
ASSUME = ['safe[] and safe() are specified only for indices inside the array (their documented precondition)', 'a negative index below -extent reaches some element of the array or raises an error (the statement leaves it open); it never reaches outside']
def pos(i, n): return z3.If(T(i) >= 0, T(i), T(i) + T(n))          # element named by index i in a dimension of extent n
def named(i, n): return z3.And(T(i) < T(n), T(i) >= -T(n))
def must(i, n): return z3.Or(T(i) >= T(n), T(n) == 0)
def may(i, n): return z3.Or(must(i, n), T(i) < -T(n))
def ix(c, names): return [c.old[n].val for n in names]
def err(names, v='v'):
    def f(c):
        d = c.old[v].dims if len(names) > 1 else [c.old[v].len]
        i = ix(c, names); return z3.Or([must(a, b) for a, b in zip(i, d)]), z3.Or([may(a, b) for a, b in zip(i, d)])
    return f
import itertools
def cases(c, names, v='v'):
    """(condition, flat position) for each combination of signs of the indices"""
    d = c.old[v].dims if len(names) > 1 else [c.old[v].len]; i = ix(c, names)
    for sg in itertools.product((0, 1), repeat=len(i)):
        p = 0; ok = []
        for a, b, s in zip(i, d, sg):
            ok.append(z3.And(T(a) < 0, T(a) >= -T(b)) if s else z3.And(T(a) >= 0, T(a) < T(b)))
            p = T(mul(p, b)) + (T(a) + T(b) if s else T(a))
        yield z3.And(ok), p
def get(names, v='v'):
    def f(c): return [('the element named by the index is read', z3.And([z3.Implies(ok, c.new['x'].val == el(c, v)(p)) for ok, p in cases(c, names, v)]))]
    return f
def put(names, par=None, v='v', conv=lambda x: x):
    def f(c):
        o, n = c.old[par or v], c.new[par or v]; x = conv(c.old['x'].val); r = []
        r.append(('size and dimensions unchanged', z3.And([T(o.len) == T(n.len)] + [T(a) == T(b) for a, b in zip(o.dims, n.dims)])))
        for ok, p in cases(c, names, v):
            q = c.old[v][p] if par else p
            r += [('the element named by the index is written', z3.Implies(ok, n[q] == x)), ('no other element changes', forall(z3.Implies(z3.And(ok, inr(K, 0, o.len), K != q), n[K] == o[K])))]
        return r
    return f
I1 = lambda n='v', **k: Vec(n, 1, 'i32', **k)
def V(d, k='i32', **q): return Vec('v', d, k, **q)
X = Ref('x', 'i32')
def at(e, kind): return Spec(e, [V(1), Int('i', kind), X], get('i'), err=err('i'), doc='v[i] with an index of type ' + kind)
def safe_pre(names): return lambda c: [z3.And(T(a) >= 0, T(a) < T(b)) for a, b in zip(ix(c, names), c.old['v'].dims)]
b2i = lambda b: z3.If(b, 1, 0)
SPECS = [at('h_at_' + k, k) for k in ('i64', 'u64', 'i32', 'u32', 'i16', 'u16', 'i8', 'u8')] + [
    Spec('h_at_2dflat', [V(2, 'f64'), Int('i', 'i64'), Ref('x', 'f64')], get('i'), err=err('i'), doc='flat index in a 2-d array'),
    Spec('h_call1', [V(1, 'f64'), Int('i', 'i64'), Ref('x', 'f64')], get('i'), err=err('i'), doc='v(i)'),
    Spec('h_set_i64', [V(1, out=1), Int('i', 'i64'), Int('x', 'i32')], put('i'), err=err('i'), doc='v[i] = x'),
    Spec('h_set_i8', [V(1, out=1), Int('i', 'i8'), Int('x', 'i32')], put('i'), err=err('i'), doc='v[i] = x, 8-bit index'),
    Spec('h_set_u64', [V(1, 'f64', out=1), Int('i', 'u64'), Flt('x')], put('i'), err=err('i'), doc='v[i] = x, unsigned index'),
    Spec('h_set_b', [V(1, 'bool', out=1), Int('i', 'i64'), Bool('x')], put('i', conv=b2i), err=err('i'), doc='v[i] = x, array of booleans'),
    Spec('h_set_s', [V(1, 'str', out=1), Int('i', 'i64'), Str('x')], put('i'), err=err('i'), doc='v[i] = x, array of strings'),
    Spec('h_at2', [V(2), Int('i', 'i64'), Int('j', 'i64'), X], get('ij'), err=err('ij'), doc='v(i, j)'),
    Spec('h_at2_mixed', [V(2), Int('i', 'i8'), Int('j', 'u64'), X], get('ij'), err=err('ij'), doc='v(i, j), index types mixed'),
    Spec('h_set2', [V(2, out=1), Int('i', 'i64'), Int('j', 'i64'), Int('x', 'i32')], put('ij'), err=err('ij'), doc='v(i, j) = x'),
    Spec('h_set2_u', [V(2, out=1), Int('i', 'u64'), Int('j', 'u64'), Int('x', 'i32')], put('ij'), err=err('ij'), doc='v(i, j) = x, unsigned'),
    Spec('h_at3', [V(3), Int('i', 'i64'), Int('j', 'i64'), Int('k', 'i64'), X], get('ijk'), err=err('ijk'), doc='v(i, j, k)'),
    Spec('h_set3', [V(3, out=1), Int('i', 'i64'), Int('j', 'u64'), Int('k', 'i32'), Int('x', 'i32')], put('ijk'), err=err('ijk'), doc='v(i, j, k) = x'),
    Spec('h_at4', [V(4), Int('i'), Int('j'), Int('k'), Int('l'), X], get('ijkl'), err=err('ijkl'), doc='v(i, j, k, l)'),
    Spec('h_view_at', [I1('p'), View('v', 1, 'p'), Int('i', 'i64'), X], get('i'), err=err('i'), doc='element of a view'),
    Spec('h_view_set', [I1('p', out=1), View('v', 1, 'p'), Int('i', 'i64'), Int('x', 'i32')], put('i', 'p'), err=err('i'), doc='element of a view, written'),
    Spec('h_view_at2', [Vec('p', 2, 'i32'), View('v', 2, 'p'), Int('i', 'i64'), Int('j', 'i64'), X], get('ij'), err=err('ij'), doc='element of a 2-d view'),
    Spec('h_view_set2', [Vec('p', 2, 'i32', out=1), View('v', 2, 'p'), Int('i', 'i64'), Int('j', 'i64'), Int('x', 'i32')], put('ij', 'p'), err=err('ij'), doc='element of a 2-d view, written'),
    Spec('h_front', [V(1), X], lambda c: [('first element', c.new['x'].val == c.old['v'][0])], pre=lambda c: [T(c.old['v'].len) > 0], doc='front()'),
    Spec('h_back', [V(1), X], lambda c: [('last element', c.new['x'].val == c.old['v'][T(c.old['v'].len) - 1])], pre=lambda c: [T(c.old['v'].len) > 0], doc='back()'),
    Spec('h_safe', [V(1), Int('i'), X], get('i'), pre=safe_pre('i'), doc='safe[i]'),
    Spec('h_safe2', [V(2), Int('i'), Int('j'), X], get('ij'), pre=safe_pre('ij'), doc='safe(i, j)'),
    Spec('h_safe3_set', [V(3, out=1), Int('i'), Int('j'), Int('k'), Int('x', 'i32')], put('ijk'), pre=safe_pre('ijk'), doc='safe(i, j, k) = x'),
]
