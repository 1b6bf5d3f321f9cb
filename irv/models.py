"""Assumed contracts of the C++ standard library (and of vif's message printing).
These are the trusted boundary: each model states the documented postcondition of the std
function it stands for and raises an obligation for its documented precondition."""
import re, z3
from .core import *
from .exec import strip, targs, Tail, named

TAB = {}
def model(*names):
    def d(f):
        for n in names: TAB[n] = f
        return f
    return d

def kind_of(ct):
    ct = ct.strip()
    if ct.endswith('*'): return KINDS['ptr']
    ct = re.sub(r'\bconst\b', '', ct).strip()
    if ct in CXX: return KINDS[CXX[ct]]
    raise Unsupported('element type ' + ct)
def vkind(dem): return kind_of(targs(dem, 'std::vector')[0])
def params(dem):
    """parameter text of the demangled name"""
    d = 0; j = len(dem)-1
    dem = re.sub(r'\s*(const)?\s*&{0,2}$', '', dem) if dem.endswith(('const', '&')) else dem
    j = len(dem)-1
    if not dem.endswith(')'): return ''
    while j >= 0:
        if dem[j] == ')': d += 1
        if dem[j] == '(':
            d -= 1
            if d == 0: return dem[j+1:-1]
        j -= 1
    return ''
def nparams(dem):
    p = params(dem); d = 0; n = 1
    if not p: return 0
    for c in p:
        if c in '<([': d += 1
        if c in '>)]': d -= 1
        if c == ',' and d == 0: n += 1
    return n

def zero(k):
    if k.name == 'ptr': return z3.IntVal(-1)
    if k.w: return z3.IntVal(0)
    if k.name == 'f64': return FP.const(0.0, 64)
    if k.name == 'f32': return FP.const(0.0, 32)
    if k.name == 'str': return EMPTY
    raise Unsupported('zero of ' + k.name)
EMPTY = z3.Const('emptystr', STR); FP.axioms.append(slen(EMPTY) == 0)
K_ = z3.Int('k')
def define(st, kind, f, name='d', pat=None):
    """fresh array A with forall k. A[k] == f(k)"""
    a = fresh(name, z3.ArraySort(I, kind.sort))
    st.assume(z3.ForAll([K_], z3.Select(a, K_) == f(K_), patterns=[z3.Select(a, K_)]))
    return a
def elem(ex, st, p, k, src=None):
    """value of kind k referenced by p as a storable z3 term (pointers: PtrV)"""
    from . import ir
    o = st.objs[p.obj]
    if k.name == 'str': return ex.getstr(st, p)
    class TY: pass
    t = TY(); t.k = {'ptr': ir.KPTR, 'f64': ir.KDOUBLE, 'f32': ir.KFLOAT}.get(k.name, ir.KINT); t.w = k.w; t.size = k.size
    v = ex.load(st, p, t)
    if k.name == 'ptr': return v
    if k.w:
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)): v = ex.zext(v, 8)
        return T(ex.canon(st, v, k))
    return v
def content(st, p, ex): return st.objs[ex.getvec(st, p)]
def empty(st, k):
    return st.new(ArrObj(k.size, {0: (k, z3.K(I, zero(k)))}, 0, 'v'))
def chg(st, oid, arr=None, length=None, regen=True):
    o = st.w(oid)
    if arr is not None:
        o.comps[0] = (o.comps[0][0], arr); st.lg('arr', oid, 0)
    if length is not None: o.len = length; st.lg('len', oid)
    if regen: o.gen = uid(); st.lg('gen', oid)
    return o
def assume_len(ex, st, n):
    if isc(n): return
    st.assume(z3.And(n >= 0, n <= MAXLEN))
def itp(v):
    return v[0] if isinstance(v, list) else v

# ---------------- std::vector
@model('std::vector::vector')
def v_ctor(ex, st, a, dem, i):
    k = vkind(dem); p = params(dem); n = nparams(dem)
    this = a[0]
    if p == '' or re.match(r'^std::allocator<[^,]*> const&$', p) and n == 1:
        ex.setvec(st, this, empty(st, k)); return
    if re.match(r'^std::vector<', p) and n == 1:
        if p.endswith('&&'):
            src = ex.getvec(st, a[1]); ex.setvec(st, this, src); ex.setvec(st, a[1], empty(st, k)); return
        o = st.objs[ex.getvec(st, a[1])].copy(); o.gen = uid(); ex.setvec(st, this, st.new(o)); return
    if p.startswith('unsigned long'):
        ln = ex.u(st, a[1]); assume_len(ex, st, ln)
        if n == 3:
            v = elem(ex, st, a[2], k)
            o = ArrObj(k.size, {0: (k, z3.K(I, v.idx if k.name == 'ptr' else v))}, ln, 'v')
            if k.name == 'ptr': raise Unsupported('vector<T*>(n,v)')
        else: o = ArrObj(k.size, {0: (k, z3.K(I, zero(k)))}, ln, 'v')
        ex.setvec(st, this, st.new(o)); return
    if p.startswith('std::initializer_list'):
        b, ln = a[1], ex.u(st, a[2])
        ex.setvec(st, this, from_range(ex, st, k, b, PtrV(b.obj, b.off, add(b.idx, ln), b.gen) , ln)); return
    if n >= 2:   # iterator range
        f, l = itp(a[1]), itp(a[2])
        ex.setvec(st, this, from_range(ex, st, k, f, l)); return
    raise Unsupported(dem)
def from_range(ex, st, k, f, l, ln=None):
    if f.obj is None: return empty(st, k)
    so = st.objs[f.obj]
    if isinstance(so, CellObj):   # array literal
        if ln is None: ln = (l.off-f.off)//k.size
        if not isc(ln): raise Unsupported('range')
        arr = z3.K(I, zero(k)); o = ArrObj(k.size, {0: (k, arr)}, ln, 'v')
        for j in range(ln):
            v = elem(ex, st, PtrV(f.obj, f.off + j*k.size), k)
            arr = z3.Store(arr, j, T(ex.storable(st, o, 0, k, v)) if k.name == 'ptr' else v)
        o.comps[0] = (k, arr)
        return st.new(o)
    ln = sub(l.idx, f.idx)
    rng(ex, st, f, l)
    if not isinstance(so, ArrObj) or so.kind.name != k.name: raise Unsupported('converting range')
    if same(f.idx, 0): arr = so.arr
    else: arr = define(st, k, lambda q: z3.Select(so.arr, q + T(f.idx)), 'sub')
    o = ArrObj(k.size, {0: (k, arr)}, ln, 'v'); o.target = dict(so.target)
    return st.new(o)
def rng(ex, st, f, l, what='iterator range'):
    if f.obj is None and l.obj is None: return
    if f.obj != l.obj: raise Unsupported('range over different objects')
    o = st.objs[f.obj]
    if f.gen is not None and f.gen != o.gen: ex.obligation(st, False, 'memory', what + ' invalidated')
    ex.obligation(st, b_and(cmp('le', 0, f.idx), cmp('le', f.idx, l.idx), cmp('le', l.idx, o.len)), 'std-precondition', what + ' valid')
@model('std::vector::~vector')
def v_dtor(ex, st, a, dem, i):
    try: oid = ex.getvec(st, a[0])
    except Unsupported: return
    o = st.w(oid); o.alive = False; st.lg('dead', oid)
@model('std::vector::size', 'std::vector::capacity', 'std::vector::max_size')
def v_size(ex, st, a, dem, i):
    o = content(st, a[0], ex)
    if 'capacity' in strip(dem) or 'max_size' in strip(dem):
        c = fresh('cap', I); st.assume(z3.And(c >= T(o.len), c <= MAXLEN)); return [(st, IntV(c, 64, 0, MAXLEN))]
    return [(st, IntV(o.len, 64, 0, MAXLEN))]
@model('std::vector::empty')
def v_empty(ex, st, a, dem, i): return [(st, simp(cmp('eq', content(st, a[0], ex).len, 0)))]
@model('std::vector::operator[]', 'std::vector::at')
def v_idx(ex, st, a, dem, i):
    oid = ex.getvec(st, a[0]); o = st.objs[oid]; x = ex.u(st, a[1])
    # forming a reference one past the end is only legal up to size (used as address)
    ex.obligation(st, b_and(cmp('ge', x, 0), cmp('lt', x, o.len)), 'std-precondition', 'vector index in range')
    return [(st, PtrV(oid, 0, x, o.gen))]
@model('std::vector::begin', 'std::vector::cbegin', 'std::vector::data')
def v_begin(ex, st, a, dem, i):
    oid = ex.getvec(st, a[0]); return [(st, PtrV(oid, 0, 0, st.objs[oid].gen))]
@model('std::vector::end', 'std::vector::cend')
def v_end(ex, st, a, dem, i):
    oid = ex.getvec(st, a[0]); o = st.objs[oid]; return [(st, PtrV(oid, 0, o.len, o.gen))]
@model('std::vector::front')
def v_front(ex, st, a, dem, i):
    oid = ex.getvec(st, a[0]); o = st.objs[oid]
    ex.obligation(st, cmp('gt', o.len, 0), 'std-precondition', 'front() of non-empty vector'); return [(st, PtrV(oid, 0, 0, o.gen))]
@model('std::vector::back')
def v_back(ex, st, a, dem, i):
    oid = ex.getvec(st, a[0]); o = st.objs[oid]
    ex.obligation(st, cmp('gt', o.len, 0), 'std-precondition', 'back() of non-empty vector'); return [(st, PtrV(oid, 0, sub(o.len, 1), o.gen))]
@model('std::vector::push_back', 'std::vector::emplace_back')
def v_push(ex, st, a, dem, i):
    k = vkind(dem); oid = ex.getvec(st, a[0])
    if len(a) == 1:
        if k.name == 'ptr': raise Unsupported('emplace null')
        v = zero(k)
    else: v = elem(ex, st, a[1], k)
    o = st.w(oid)
    t = ex.storable(st, o, 0, k, v) if k.name == 'ptr' else v
    st.assume(cmp('lt', o.len, MAXLEN))
    chg(st, oid, z3.Store(o.arr, T(o.len), named(st, T(t))), add(o.len, 1))
    o = st.objs[oid]
    return [(st, PtrV(oid, 0, sub(o.len, 1), o.gen))]
@model('std::vector::pop_back')
def v_pop(ex, st, a, dem, i):
    oid = ex.getvec(st, a[0]); o = st.objs[oid]
    ex.obligation(st, cmp('gt', o.len, 0), 'std-precondition', 'pop_back() of non-empty vector')
    chg(st, oid, None, sub(o.len, 1), False)
@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def v_reserve(ex, st, a, dem, i):
    oid = ex.getvec(st, a[0]); chg(st, oid)
@model('std::vector::clear')
def v_clear(ex, st, a, dem, i):
    oid = ex.getvec(st, a[0]); chg(st, oid, None, 0)
@model('std::vector::resize')
def v_resize(ex, st, a, dem, i):
    k = vkind(dem); oid = ex.getvec(st, a[0]); o = st.objs[oid]; n = ex.u(st, a[1])
    assume_len(ex, st, n)
    if len(a) > 2:
        z = elem(ex, st, a[2], k)
        if k.name == 'ptr': raise Unsupported('resize ptr')
    else: z = zero(k)
    if same(o.len, n) or ex.proves(st, T(n) <= T(o.len)):
        chg(st, oid, None, n, False); return
    if isc(o.len) and o.len == 0: arr = z3.K(I, z)
    else:
        old, ol = o.arr, T(o.len)
        arr = define(st, k, lambda q: z3.If(q < ol, z3.Select(old, q), z), 'rsz')
    o = chg(st, oid, arr, n)
    if k.name == 'ptr' and 0 not in o.target: o.target[0] = 'null'
@model('std::vector::assign')
def v_assign(ex, st, a, dem, i):
    k = vkind(dem); oid = ex.getvec(st, a[0]); p = params(dem)
    if p.startswith('unsigned long'):
        n = ex.u(st, a[1]); v = elem(ex, st, a[2], k); chg(st, oid, z3.K(I, v), n); return
    no = st.objs[from_range(ex, st, k, itp(a[1]), itp(a[2]))]; chg(st, oid, no.arr, no.len)
@model('std::vector::operator=')
def v_assign_op(ex, st, a, dem, i):
    k = vkind(dem); p = params(dem)
    if p.startswith('std::initializer_list'):
        oid = ex.getvec(st, a[0]); ln = ex.u(st, a[2])
        no = st.objs[from_range(ex, st, k, a[1], None, ln)]; chg(st, oid, no.arr, no.len); return [(st, a[0])]
    if a[0].obj == a[1].obj and a[0].off == a[1].off: return [(st, a[0])]
    if p.endswith('&&'):
        d = ex.getvec(st, a[0]); src = ex.getvec(st, a[1])
        o = st.w(d); o.alive = False; st.lg('dead', d)
        ex.setvec(st, a[0], src); ex.setvec(st, a[1], empty(st, k)); return [(st, a[0])]
    d = ex.getvec(st, a[0]); so = content(st, a[1], ex)
    o = chg(st, d, so.arr, so.len); o.target = dict(so.target)
    return [(st, a[0])]
@model('std::vector::swap')
def v_swap(ex, st, a, dem, i):
    x, y = ex.getvec(st, a[0]), ex.getvec(st, a[1]); ex.setvec(st, a[0], y); ex.setvec(st, a[1], x)
@model('std::vector::erase')
def v_erase(ex, st, a, dem, i):
    k = vkind(dem); oid = ex.getvec(st, a[0]); o = st.objs[oid]; f = itp(a[1])
    l = itp(a[2]) if len(a) > 2 else PtrV(f.obj, f.off, add(f.idx, 1), f.gen)
    if f.obj != oid: ex.obligation(st, False, 'std-precondition', 'iterator of this vector')
    rng(ex, st, f, l, 'erased range')
    d = sub(l.idx, f.idx); old = o.arr; fi = T(f.idx)
    arr = define(st, k, lambda q: z3.If(q < fi, z3.Select(old, q), z3.Select(old, q + T(d))), 'er')
    chg(st, oid, arr, sub(o.len, d), False)
    return [(st, PtrV(oid, 0, f.idx, st.objs[oid].gen))]
@model('std::vector::insert')
def v_insert(ex, st, a, dem, i):
    k = vkind(dem); oid = ex.getvec(st, a[0]); o = st.objs[oid]; pos = itp(a[1])
    if pos.obj != oid: ex.obligation(st, False, 'std-precondition', 'iterator of this vector')
    rng(ex, st, pos, PtrV(oid, 0, o.len, o.gen), 'insert position')
    old = o.arr; at = T(pos.idx); n = nparams(dem)
    if n == 2 and 'initializer_list' not in params(dem):
        v = elem(ex, st, a[2], k); v = T(ex.storable(st, st.w(oid), 0, k, v)) if k.name == 'ptr' else v
        arr = define(st, k, lambda q: z3.If(q < at, z3.Select(old, q), z3.If(q == at, v, z3.Select(old, q-1))), 'ins'); d = 1
    elif n == 3 and 'unsigned long, ' in params(dem):
        d = ex.u(st, a[2]); v = elem(ex, st, a[3], k)
        arr = define(st, k, lambda q: z3.If(q < at, z3.Select(old, q), z3.If(q < at+T(d), v, z3.Select(old, q-T(d)))), 'ins')
    else:
        f, l = itp(a[2]), itp(a[3])
        rng(ex, st, f, l)
        d = sub(l.idx, f.idx); so = st.objs[f.obj]
        if so.kind.name != k.name: raise Unsupported('converting insert')
        if f.obj == oid: ex.obligation(st, False, 'std-precondition', 'inserted range not in the vector itself')
        src, f0 = so.arr, T(f.idx)
        arr = define(st, k, lambda q: z3.If(q < at, z3.Select(old, q), z3.If(q < at+T(d), z3.Select(src, q-at+f0), z3.Select(old, q-T(d)))), 'ins')
        if k.name == 'ptr': st.w(oid).target = dict(so.target)
    assume_len(ex, st, add(o.len, d))
    chg(st, oid, arr, add(o.len, d))
    return [(st, PtrV(oid, 0, pos.idx, st.objs[oid].gen))]

# ---------------- algorithms on ranges of one array
def is_arr_it(st, *ps):
    return all(isinstance(p, PtrV) and p.obj is not None and isinstance(st.objs.get(p.obj), ArrObj) for p in ps)
@model('std::reverse')
def a_reverse(ex, st, a, dem, i):
    f, l = itp(a[0]), itp(a[1])
    if not is_arr_it(st, f, l): raise Unsupported('reverse')
    rng(ex, st, f, l); o = st.objs[f.obj]; old = o.arr; fi, li = T(f.idx), T(l.idx)
    chg(st, f.obj, define(st, o.kind, lambda q: z3.If(z3.And(q >= fi, q < li), z3.Select(old, fi+li-1-q), z3.Select(old, q)), 'rev'), None, False)
@model('std::rotate', 'std::_V2::rotate')
def a_rotate(ex, st, a, dem, i):
    f, m, l = itp(a[0]), itp(a[1]), itp(a[2])
    if not is_arr_it(st, f, m, l): raise Unsupported('rotate')
    rng(ex, st, f, m); rng(ex, st, m, l); o = st.objs[f.obj]; old = o.arr; fi, mi, li = T(f.idx), T(m.idx), T(l.idx)
    chg(st, f.obj, define(st, o.kind, lambda q: z3.If(z3.And(q >= fi, q < li), z3.If(q + (mi-fi) < li, z3.Select(old, q+mi-fi), z3.Select(old, q+mi-li)), z3.Select(old, q)), 'rot'), None, False)
    return [(st, PtrV(f.obj, 0, add(f.idx, sub(l.idx, m.idx)), f.gen))]
@model('std::copy', 'std::move_range')
def a_copy(ex, st, a, dem, i):
    f, l, d = itp(a[0]), itp(a[1]), itp(a[2])
    if not is_arr_it(st, f, l, d):
        if isinstance(f, PtrV) and f.obj is None and l.obj is None: return [(st, d)]
        return [(st, Tail(i.x['callee'], a))]
    so, do = st.objs[f.obj], st.objs[d.obj]
    rng(ex, st, f, l)
    if so.kind.name != do.kind.name: return [(st, Tail(i.x['callee'], a))]
    n = sub(l.idx, f.idx)
    rng(ex, st, d, PtrV(d.obj, 0, add(d.idx, n), d.gen), 'destination range')
    if f.obj == d.obj: raise Unsupported('overlapping copy')
    src, old, fi, di = so.arr, do.arr, T(f.idx), T(d.idx)
    o = chg(st, d.obj, define(st, do.kind, lambda q: z3.If(z3.And(q >= di, q < di+T(n)), z3.Select(src, q-di+fi), z3.Select(old, q)), 'cpy'), None, False)
    if do.kind.name == 'ptr': o.target = dict(so.target)
    return [(st, PtrV(d.obj, 0, add(d.idx, n), d.gen))]
@model('std::fill')
def a_fill(ex, st, a, dem, i):
    f, l = itp(a[0]), itp(a[1])
    if not is_arr_it(st, f, l): return [(st, Tail(i.x['callee'], a))]
    rng(ex, st, f, l); o = st.objs[f.obj]; old = o.arr; v = elem(ex, st, a[2], o.kind); fi, li = T(f.idx), T(l.idx)
    chg(st, f.obj, define(st, o.kind, lambda q: z3.If(z3.And(q >= fi, q < li), v, z3.Select(old, q)), 'fill'), None, False)

# ---------------- error reporting and process exit
@model('vif::error', 'vif::print', 'vif::warning', 'vif::note', 'vif::prints', 'vif::backtrace')
def noop(ex, st, a, dem, i): return
@model('memcmp')
def _memcmp(ex, st, a, dem, i):
    # only the comparison with zero of two lists of 64 bit integers (std::equal of dimensions)
    p, q, n = a
    if not isc(n.t) or n.t % 8: raise Unsupported('memcmp of unknown size')
    eq = True; u64 = KINDS['u64']
    for j in range(0, n.t, 8):
        x = elem(ex, st, PtrV(p.obj, p.off+j, p.idx, p.gen), u64); y = elem(ex, st, PtrV(q.obj, q.off+j, q.idx, q.gen), u64)
        eq = b_and(eq, simp(x == y))
    if eq is True: return [(st, IntV(0, 32))]
    r = fresh('memcmp', I); st.assume((r == 0) == T(eq))
    return [(st, IntV(r, 32, 0, 1))]
LIBM = 'sqrt cos sin tan acos asin atan atan2 cosh sinh tanh acosh asinh atanh pow fmod exp log log2 log10 erf erfc tgamma'.split()
def pure(ex, st, a, dem, i):
    # a deterministic function of its arguments without side effect, otherwise unknown
    nm = strip(dem).split('::')[-1]; nm = re.sub(r'f$', '', nm) if nm[:-1] in LIBM else nm
    xs = [T(ex.s(st, v)) if isinstance(v, IntV) else (z3.If(v, 1, 0) if z3.is_expr(v) and z3.is_bool(v) else v) for v in a]
    from . import ir
    t = i.ty; so = {ir.KDOUBLE: F64, ir.KFLOAT: F32}.get(t.k, I)
    r = FP.fn('ext_%s_%s' % (nm, so.name()), *([x.sort() for x in xs] + [so]))(*xs)
    if so is not I: return [(st, r)]
    w = t.w; st.assume(z3.And(r >= -(1 << (w-1)), r < (1 << (w-1))))
    return [(st, IntV(r, w, -(1 << (w-1)), (1 << (w-1))-1))]
for _n in ['vp_f1', 'vp_f2', 'vp_f3', 'vp_fi'] + LIBM + [x + 'f' for x in LIBM] + ['std::' + x for x in LIBM]: TAB[_n] = pure
@model('exit', 'vif_verif_error')
def m_exit(ex, st, a, dem, i): return [(st, '#error')]
@model('abort', '__assert_fail', 'std::terminate', '__clang_call_terminate', '__cxa_throw', 'std::__throw_length_error', 'std::__throw_out_of_range', 'std::__throw_out_of_range_fmt', 'std::__throw_bad_alloc', 'std::__throw_logic_error', '__cxa_pure_virtual')
def m_crash(ex, st, a, dem, i): return [(st, '#crash')]
@model('operator delete', 'std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::~__new_allocator', 'std::__new_allocator::__new_allocator')
def m_noop2(ex, st, a, dem, i): return
@model('std::isnan')
def m_isnan(ex, st, a, dem, i): return [(st, z3.BoolVal(False) if isinstance(a[0], IntV) else fnan(a[0]))]
@model('std::isfinite')
def m_isfinite(ex, st, a, dem, i):
    v = a[0]; so = v.sort().name(); inf = FP.const(float('inf'), 64 if so == 'F64' else 32); ninf = FP.const(float('-inf'), 64 if so == 'F64' else 32)
    o = ordf[so]; return [(st, z3.And(z3.Not(fnan(v)), o(v) < o(inf), o(v) > o(ninf)))]
@model('std::isinf')
def m_isinf(ex, st, a, dem, i):
    v = a[0]; so = v.sort().name(); inf = FP.const(float('inf'), 64 if so == 'F64' else 32); ninf = FP.const(float('-inf'), 64 if so == 'F64' else 32)
    o = ordf[so]; return [(st, z3.And(z3.Not(fnan(v)), z3.Or(o(v) == o(inf), o(v) == o(ninf))))]

class Models:
    def __init__(self, extra=None):
        self.cache = {}; self.extra = extra or {}
    def find(self, name, dem, ex):
        if name in self.cache: return self.cache[name]
        q = strip(dem)
        m = self.extra.get(q) or self.extra.get(name) or TAB.get(q) or TAB.get(name)
        if m is None and q.startswith('__cxa_'): m = None
        self.cache[name] = m
        if m is not None: ex.trusted.add(q)
        return m
    def fpun(self, ex, st, op, v):
        so = v.sort(); r = FP.un('f_' + op, v); o = ordf[so.name()]
        if op == 'fabs': st.assume(z3.And(fnan(r) == fnan(v), o(r) == z3.If(o(v) >= 0, o(v), -o(v))))
        elif op == 'floor': st.assume(z3.And(fnan(r) == fnan(v), z3.Implies(z3.And(o(v) > -(1 << 1024), o(v) < (1 << 1024)), o(r) == z3.ToReal(z3.ToInt(o(v))))))
        elif op == 'ceil': st.assume(z3.And(fnan(r) == fnan(v), z3.Implies(z3.And(o(v) > -(1 << 1024), o(v) < (1 << 1024)), o(r) == -z3.ToReal(z3.ToInt(-o(v))))))
        elif op == 'sqrt': st.assume(z3.Implies(z3.Or(fnan(v), o(v) < 0), fnan(r)))
        else: st.assume(z3.Implies(fnan(v), fnan(r)))
        return r
    def memset0(self, ex, st, o, d, n):
        # zero-fill of a local aggregate: cells get created on demand with their access width
        for q in [q for q in o.cells if d.off <= q < d.off+n]: del o.cells[q]
        q = d.off
        while q < d.off+n:
            o.cells[q] = (IntV(0, 64), 8); st.lg('cell', d.obj, q); q += 8
