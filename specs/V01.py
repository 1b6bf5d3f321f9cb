from irv.contract import *
from irv.lib import *
from irv.core import mul
BOUNDED = 'all constructors, copies, moves, assignments, resize, clear, push_back, flatten, reform, append, prepend, replicate and remove on arrays of 1 to 4 dimensions, every combination of extents up to 3, element types int, double, bool and string; the number of elements is compared with the product of the dimensions after every step, including random sequences of operations'
ASSUME = []
INV = 'number of elements equals the product of the dimensions'
def dimeq(n, d): return z3.And([T(x) == T(y) for x, y in zip(n.dims, d)])
def ival(c, n): return c.old[n].val
def fits(*names):
    def f(c):
        xs = []
        for n in names:
            v = c.old[n]; xs += [v.val] if v.val is not None else v.dims
        r = [T(x) <= MAXLEN for x in xs]; p = xs[0]
        for x in xs[1:]: p = mul(p, x); r.append(T(p) <= MAXLEN)
        return r
    return f
def zero_of(v):
    return z3.IntVal(0) if v.arr.sort().range() == I else FP.const(0.0, 64 if v.arr.sort().range() == F64 else 32) if v.arr.sort().range() in (F64, F32) else EMPTY
from irv.models import EMPTY
def ctor(dims):
    def f(c):
        n = c.new['out']; z = zero_of(n)
        return [(INV, dims_ok(n)), ('requested dimensions', dimeq(n, dims(c))), ('elements are value-initialised', forall(z3.Implies(inr(K, 0, n.len), n[K] == z)))]
    return f
def lit(dims, names):
    def f(c):
        n = c.new['out']
        return [(INV, dims_ok(n)), ('dimensions of the list', dimeq(n, dims)), ('elements of the list in order', z3.And([n[k] == ival(c, x) for k, x in enumerate(names)]))]
    return f
def same_(src, dst, dims=None, moved=False, conv=lambda x: x, val=None):
    def f(c):
        o, n = c.old[src], c.new[dst]; e = el(c, src); d = dims(c) if dims else o.dims
        r = [(INV, dims_ok(n)), ('documented dimensions', dimeq(n, d)), ('same number of elements', T(n.len) == T(o.len)), ('same elements, in order', forall(z3.Implies(inr(K, 0, n.len), n[K] == conv(e(K)))))]
        if moved: r.append(('source left consistent: ' + INV, dims_ok(c.new[src])))
        return r
    return f
i2d = lambda x: FP.fn('i2f_F64', I, F64)(x)
def resize(dims):
    def f(c):
        o, n = c.old['v'], c.new['v']; z = zero_of(n)
        return [(INV, dims_ok(n)), ('requested dimensions', dimeq(n, dims(c))), ('leading elements kept', forall(z3.Implies(z3.And(inr(K, 0, n.len), K < T(o.len)), n[K] == o[K]))), ('new elements value-initialised', forall(z3.Implies(z3.And(inr(K, 0, n.len), K >= T(o.len)), n[K] == z)))]
    return f
def push(c):
    o, n = c.old['v'], c.new['v']
    return [(INV, dims_ok(n)), ('one more element', T(n.len) == T(o.len) + 1), ('previous elements kept', forall(z3.Implies(inr(K, 0, o.len), n[K] == o[K]))), ('new element last', n[T(o.len)] == c.old['x'].val)]
def push2(c):
    o, n, x = c.old['v'], c.new['v'], c.old['x']; e = el(c, 'x'); emp = T(o.len) == 0
    return [(INV, dims_ok(n)), ('one more row', z3.And(T(n.dims[0]) == z3.If(emp, 1, T(o.dims[0]) + 1), T(n.dims[1]) == T(x.len))), ('total size', T(n.len) == T(o.len) + T(x.len)), ('previous elements kept', forall(z3.Implies(inr(K, 0, o.len), n[K] == o[K]))), ('new row last', forall(z3.Implies(inr(K, 0, x.len), n[K + T(o.len)] == e(K))))]
perr = lambda c: z3.And(T(c.old['v'].len) != 0, T(c.old['v'].dims[1]) != T(c.old['x'].len))
nm = lambda c: [ival(c, 'n'), ival(c, 'm')]
rerr = lambda c: T(c.old['in'].len) != T(mul(ival(c, 'n'), ival(c, 'm')))
cph = h_prefix(lambda c, a, k: a[k] == el(c, 'in')(k))
cphx = h_prefix(lambda c, a, k: a[k] == el(c, 'x')(k))
cvh = h_prefix(lambda c, a, k: a[k] == i2d(c.old['in'][k]), sort=F64)
I2 = lambda n, **k: Vec(n, 2, 'i32', **k)
I1 = lambda n, **k: Vec(n, 1, 'i32', **k)
IN = lambda *ns: [Int(n, 'i32') for n in ns]
SPECS = [
    Spec('h_ctor1', [Int('n'), I1('out', out=1)], ctor(lambda c: [ival(c, 'n')]), pre=fits('n'), doc='vec<1>(n)'),
    Spec('h_ctor2', [Int('n'), Int('m'), Vec('out', 2, 'f64', out=1)], ctor(nm), pre=fits('n', 'm'), doc='vec<2>(n, m)'),
    Spec('h_ctor_dims', [I2('in'), Vec('out', 2, 'f32', out=1)], ctor(lambda c: c.old['in'].dims), doc='vec<2>(dims array)'),
    Spec('h_ctor_mixed', [Int('n'), I2('in'), Vec('out', 3, 'i32', out=1)], ctor(lambda c: [ival(c, 'n')] + c.old['in'].dims), pre=fits('n', 'in'), doc='vec<3>(n, dims array)'),
    Spec('h_list1', IN('a', 'b', 'c') + [I1('out', out=1)], lit([3], 'abc'), doc='initializer list constructor'),
    Spec('h_list1_assign', IN('a', 'b') + [I1('out', out=1)], lit([2], 'ab'), doc='initializer list assignment'),
    Spec('h_list2', IN(*'abcdef') + [I2('out', out=1)], lit([2, 3], 'abcdef'), doc='nested initializer list'),
    Spec('h_list2_bad', IN(*'abc') + [I2('out', out=1)], lambda c: [], err=lambda c: True, doc='nested initializer list with rows of different lengths raises an error'),
    Spec('h_copy', [I2('in'), I2('out', out=1)], same_('in', 'out'), doc='copy constructor'),
    Spec('h_copy_s', [Vec('in', 1, 'str'), Vec('out', 1, 'str', out=1)], same_('in', 'out'), doc='copy constructor, strings'),
    Spec('h_move', [I2('in', out=1), I2('out', out=1)], same_('in', 'out', moved=True), doc='move constructor'),
    Spec('h_assign', [I2('in'), I2('out', out=1)], same_('in', 'out'), doc='copy assignment'),
    Spec('h_assign_self', [I2('v', out=1)], same_('v', 'v'), doc='self assignment'),
    Spec('h_assign_move', [I2('in', out=1), I2('out', out=1)], same_('in', 'out', moved=True), doc='move assignment'),
    Spec('h_convert', [I2('in'), Vec('out', 2, 'f64', out=1)], same_('in', 'out', conv=i2d), hints=[cvh], doc='converting assignment'),
    Spec('h_convert_ctor', [I1('in'), Vec('out', 1, 'f64', out=1)], same_('in', 'out', conv=i2d), hints=[cvh], doc='converting constructor'),
    Spec('h_concretise', [I2('par'), View('in', 2, 'par'), I2('out', out=1)], same_('in', 'out'), hints=[cph], doc='array from a view'),
    Spec('h_resize1', [I1('v', out=1), Int('n')], resize(lambda c: [ival(c, 'n')]), pre=fits('n'), doc='resize(n)'),
    Spec('h_resize1_s', [Vec('v', 1, 'str', out=1), Int('n')], resize(lambda c: [ival(c, 'n')]), pre=fits('n'), doc='resize(n), strings'),
    Spec('h_resize2', [Vec('v', 2, 'f64', out=1), Int('n'), Int('m')], resize(nm), pre=fits('n', 'm'), doc='resize(n, m)'),
    Spec('h_clear', [I2('v', out=1)], lambda c: [(INV, dims_ok(c.new['v'])), ('empty', T(c.new['v'].len) == 0), ('zero dimensions', dimeq(c.new['v'], [0, 0]))], doc='clear()'),
    Spec('h_push_back', [I1('v', out=1), Ref('x', 'i32')], push, doc='push_back(value)'),
    Spec('h_push_back_s', [Vec('v', 1, 'str', out=1), Str('x')], push, doc='push_back(string)'),
    Spec('h_push_back2', [I2('v', out=1), I1('x')], push2, err=perr, doc='push_back(row)'),
    Spec('h_push_back2v', [I2('v', out=1), I1('par'), View('x', 1, 'par')], push2, err=perr, hints=[cphx], doc='push_back(row given by a view)'),
    Spec('h_flatten', [I2('in'), I1('out', out=1)], same_('in', 'out', dims=lambda c: [c.old['in'].len]), doc='flatten'),
    Spec('h_flatten3', [Vec('in', 3, 'i32'), I1('out', out=1)], same_('in', 'out', dims=lambda c: [c.old['in'].len]), doc='flatten (3-d)'),
    Spec('h_flatten_move', [I2('in', out=1), I1('out', out=1)], same_('in', 'out', dims=lambda c: [c.old['in'].len], moved=True), doc='flatten of an expiring array'),
    Spec('h_flatten_view', [I2('par'), View('in', 2, 'par'), I1('out', out=1)], same_('in', 'out', dims=lambda c: [c.old['in'].len]), hints=[cph], doc='flatten of a view'),
    Spec('h_reform', [I1('in'), Int('n'), Int('m'), I2('out', out=1)], same_('in', 'out', dims=nm), pre=fits('n', 'm'), err=rerr, doc='reform'),
    Spec('h_reform1', [I2('in'), Int('n'), I1('out', out=1)], same_('in', 'out', dims=lambda c: [ival(c, 'n')]), pre=fits('n'), err=lambda c: T(c.old['in'].len) != ival(c, 'n'), doc='reform to one dimension'),
    Spec('h_reform_move', [I1('in', out=1), Int('n'), Int('m'), I2('out', out=1)], same_('in', 'out', dims=nm, moved=True), pre=fits('n', 'm'), err=rerr, doc='reform of an expiring array'),
    Spec('h_reform_view', [I1('par'), View('in', 1, 'par'), Int('n'), Int('m'), I2('out', out=1)], same_('in', 'out', dims=nm), pre=fits('n', 'm'), err=rerr, hints=[cph], doc='reform of a view'),
]
