"""Assumed contracts of std algorithms that take a comparator or predicate.  The comparator is not
assumed: its real body is executed symbolically and becomes the relation used in the contract."""
import re, z3
from .core import *
from .exec import strip, targs, Tail, Frame
from .models import model, TAB, params, chg, rng, is_arr_it, itp, elem, define, K_

sord = z3.Function('sord', STR, z3.RealSort()); sinv = z3.Function('sinv', z3.RealSort(), STR)
_s = z3.Const('s', STR)
SAX = z3.ForAll([_s], sinv(sord(_s)) == _s, patterns=[sord(_s)])     # order of strings: strict, total, equal only for equal strings

def splitargs(p):
    d = 0; cur = ''; r = []
    for j, c in enumerate(p):
        if c in '<([{': d += 1
        if c in '>)]}' and not (c == '>' and cur.endswith('-')): d -= 1
        if c == ',' and d == 0: r.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): r.append(cur.strip())
    return r
def functor_ops(mod, typ):
    """functions  typ::operator()(...)  defined in the module: [(name, [param texts])]"""
    t = re.sub(r'\s+', '', typ); res = []
    for n, d in mod.dem.items():
        j = d.find('::operator()')
        if j < 0: continue
        k = d.rfind('::operator()')
        head = d[:k].strip()
        tail = d[k+len('::operator()'):]
        h = re.sub(r'\s+', '', head)
        if not (h == t or h.endswith(t) and re.match(r'^(bool|constexpr|auto|void|int|double|unsignedlong|long|float)*$', h[:-len(t)])): continue
        res.append((n, splitargs(params(re.sub(r'\s*const\s*$', '', d)))))
    return res
class Val:
    """argument for a comparator: term of a kind; pointers carry target (obj, off)"""
    def __init__(s, kind, t, target=None): s.kind = kind; s.t = t; s.target = target
def mkarg(ex, st, v, ptext):
    byref = ptext.endswith('&')
    k = v.kind
    if k.name == 'ptr':
        x = PtrV(v.target[0], v.target[1], v.t, None)
        if byref:
            o = CellObj(8, 'tmp'); o.cells[0] = (x, 8); return PtrV(st.new(o))
        return x
    if k.name == 'str':
        o = CellObj(32, 'tmp'); o.cells[0] = (StrV(v.t), 32); return PtrV(st.new(o))
    x = IntV(v.t, k.w, k.lo, k.hi) if k.w else v.t
    if k.name == 'bool' and not byref: x = simp(cmp('ne', v.t, 0))
    if byref:
        o = CellObj(k.size, 'tmp'); o.cells[0] = (x, k.size); return PtrV(st.new(o))
    return x
def fits(v, ptext):
    isptr = ptext.endswith('*') or ptext.endswith('* const&') or ptext.endswith('*&')
    return isptr == (v.kind.name == 'ptr')
def apply_fn(ex, st, typ, this, vals, assume=()):
    """symbolic result of functor/function applied to the values; list of (cond, value)"""
    if isinstance(this, FnV) or typ is None:
        name = this.name; ps = splitargs(params(ex.mod.dem.get(name, name))); pre = []
    else:
        ops = [(n, p) for n, p in functor_ops(ex.mod, typ) if len(p) == len(vals) and all(fits(v, x) for v, x in zip(vals, p)) and ex.mod.fn(n) is not None]
        if not ops: raise Unsupported('no operator() for ' + typ[:200])
        pick = ops[0]
        if len(ops) > 1:
            nc = [o for o in ops if all(_ctype(x) == _ck(v) for v, x in zip(vals, o[1]))]
            pick = (nc or ops)[0]
        name, ps = pick; pre = [this]
    t = st.clone(); t.log = None; t.frames = []
    for a in assume: t.assume(a)
    n0 = len(t.pc)
    args = pre + [mkarg(ex, t, v, p) for v, p in zip(vals, ps)]
    depthguard = ex.npaths
    ex.inlined.add(ex.mod.dem.get(name, name))
    ex.start(t, name, args)
    outs = ex.run(t)
    res = []
    for kind, o in outs:
        if kind != 'ret': raise Unsupported('comparator may not return')
        res.append((z3.And([c for c in o.pc[n0:]] or [z3.BoolVal(True)]), o.ret))
    if not res: res = [(z3.BoolVal(True), False)]      # no argument satisfies the assumptions (empty range): any answer
    return res
def _ctype(x): return re.sub(r'\b(const)\b|[&*\s]', '', x)
def _ck(v):
    if v.kind.name == 'str': return _ctype('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >')
    for c, k in CXX.items():
        if k == v.kind.name: return _ctype(c)
    return None
def relation(ex, st, typ, this, kx, ky, assume, tx=None, ty=None):
    """python function R(x, y) -> z3 Bool for the comparator"""
    x = fresh('cx', kx.sort); y = fresh('cy', ky.sort)
    if typ is None and this is None: return lambda p, q: default_less(kx, p, q, tx, ty)
    vx, vy = Val(kx, x, tx), Val(ky, y, ty)
    rs = apply_fn(ex, st, typ, this, [vx, vy], assume(x, y))
    f = tobool(rs[-1][1])
    for c, v in reversed(rs[:-1]): f = z3.If(c, tobool(v), f)
    f = z3.simplify(f)
    return lambda p, q: z3.substitute(f, (x, T(p)), (y, T(q)))
def tobool(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, IntV): return T(v.t) != 0
    return v
def default_less(k, p, q, tx, ty):
    if k.name == 'str': return sord(p) < sord(q)
    if k.name in ('f64', 'f32'): return flt(p, q)
    if k.name == 'ptr': raise Unsupported('ordering of pointers')
    return T(p) < T(q)
def cmp_arg(ex, st, a, dem, fname, nfix, callee):
    """(type text, this pointer) of the comparator argument following nfix fixed arguments, or (None, None)"""
    ta = targs(dem, fname); ps = splitargs(params(dem))
    if len(ps) <= nfix: return None, None
    typ = ta[-1]
    rest = a[nfix:]
    if re.search(r'\(\*\)', typ): return None, rest[0]
    o = CellObj(64, 'functor')
    if len(rest) == 1 and ex.mod.byval(callee, nfix): return typ, rest[0]      # passed in memory
    off = 0
    for r in rest:
        o.cells[off] = (r, 8 if not isinstance(r, IntV) else r.w//8); off += 8
    return typ, PtrV(st.new(o))
def elems(st, p):
    o = st.objs[p.obj]; return o, o.kind, o.arr, o.target.get(0)
def swo(ex, st, R, arr, f, l, what):
    a, b, c = z3.Ints('a b c'); A = lambda i: z3.Select(arr, i); inn = lambda *v: z3.And([z3.And(T(f) <= x, x < T(l)) for x in v])
    ex.obligation(st, z3.And(z3.ForAll([a], z3.Implies(inn(a), z3.Not(R(A(a), A(a))))),
        z3.ForAll([a, b, c], z3.Implies(z3.And(inn(a, b, c), R(A(a), A(b)), R(A(b), A(c))), R(A(a), A(c)))),
        z3.ForAll([a, b, c], z3.Implies(z3.And(inn(a, b, c), z3.Not(R(A(a), A(b))), z3.Not(R(A(b), A(a))), z3.Not(R(A(b), A(c))), z3.Not(R(A(c), A(b)))), z3.And(z3.Not(R(A(a), A(c))), z3.Not(R(A(c), A(a))))))),
        'std-precondition', what + ': comparator is a strict weak order on the range')
def sort_model(name, stable):
    def f(ex, st, a, dem, i):
        F, L = itp(a[0]), itp(a[1])
        if F.obj is None: return
        if not is_arr_it(st, F, L): raise Unsupported(name)
        rng(ex, st, F, L)
        typ, this = cmp_arg(ex, st, a, dem, name, 2, i.x['callee'])
        o, k, old, tg = elems(st, F); f0, l0 = T(F.idx), T(L.idx)
        ia, ib = fresh('ia', I), fresh('ib', I)
        R = relation(ex, st, typ, this, k, k, lambda x, y: [ia >= f0, ia < l0, ib >= f0, ib < l0, x == z3.Select(old, ia), y == z3.Select(old, ib)], tg, tg)
        swo(ex, st, R, old, F.idx, L.idx, name)
        new = fresh('srt', old.sort()); n = uid()
        P = z3.Function('perm!%d' % n, I, I); Q = z3.Function('pinv!%d' % n, I, I)
        q, r = z3.Ints('q r'); N = lambda x: z3.Select(new, x); inn = lambda x: z3.And(f0 <= x, x < l0)
        st.assume(z3.ForAll([q], z3.Implies(z3.Not(inn(q)), N(q) == z3.Select(old, q)), patterns=[N(q)]))
        st.assume(z3.ForAll([q], z3.Implies(inn(q), z3.And(inn(P(q)), N(q) == z3.Select(old, P(q)), Q(P(q)) == q)), patterns=[N(q), P(q)]))
        st.assume(z3.ForAll([q], z3.Implies(inn(q), z3.And(inn(Q(q)), P(Q(q)) == q, N(Q(q)) == z3.Select(old, q))), patterns=[Q(q), z3.Select(old, q)] if not z3.is_K(old) and z3.is_const(old) else [Q(q)]))
        st.assume(z3.ForAll([q, r], z3.Implies(z3.And(inn(q), inn(r), q < r), z3.Not(R(N(r), N(q)))), patterns=[z3.MultiPattern(N(q), N(r))]))
        if stable: st.assume(z3.ForAll([q, r], z3.Implies(z3.And(inn(q), inn(r), q < r, z3.Not(R(N(q), N(r)))), P(q) < P(r)), patterns=[z3.MultiPattern(N(q), N(r))]))
        st.ghost['sorts'] = st.ghost.get('sorts', ()) + ((P, Q, old, new, R),)
        chg(st, F.obj, new, None, False)
        if getattr(ex, 'on_sort', None): ex.on_sort(st, st.ghost['sorts'][-1])
    return f
TAB['std::stable_sort'] = sort_model('std::stable_sort', True)
TAB['std::sort'] = sort_model('std::sort', False)
@model('std::nth_element')
def a_nth(ex, st, a, dem, i):
    """rearranges the range: the element at nth has the rank it would have in sorted order"""
    name = 'std::nth_element'; F, M, L = itp(a[0]), itp(a[1]), itp(a[2])
    if F.obj is None: return None
    if not is_arr_it(st, F, L) or M.obj != F.obj: raise Unsupported(name)
    rng(ex, st, F, M); rng(ex, st, M, L)
    typ, this = cmp_arg(ex, st, a, dem, name, 3, i.x['callee'])
    o, k, old, tg = elems(st, F); f0, m0, l0 = T(F.idx), T(M.idx), T(L.idx); ia, ib = fresh('ia', I), fresh('ib', I)
    R = relation(ex, st, typ, this, k, k, lambda x, y: [ia >= f0, ia < l0, ib >= f0, ib < l0, x == z3.Select(old, ia), y == z3.Select(old, ib)], tg, tg)
    swo(ex, st, R, old, F.idx, L.idx, name)
    new = fresh('nth', old.sort()); n = uid(); q = z3.Int('q'); N = lambda x: z3.Select(new, x); inn = lambda x: z3.And(f0 <= x, x < l0)
    P = z3.Function('perm!%d' % n, I, I); Q = z3.Function('pinv!%d' % n, I, I)
    st.assume(z3.ForAll([q], z3.Implies(z3.Not(inn(q)), N(q) == z3.Select(old, q)), patterns=[N(q)]))
    st.assume(z3.ForAll([q], z3.Implies(inn(q), z3.And(inn(P(q)), N(q) == z3.Select(old, P(q)), Q(P(q)) == q)), patterns=[N(q), P(q)]))
    st.assume(z3.ForAll([q], z3.Implies(inn(q), z3.And(inn(Q(q)), P(Q(q)) == q, N(Q(q)) == z3.Select(old, q))), patterns=[Q(q)]))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(inn(q), m0 < l0), z3.And(z3.Implies(q < m0, z3.Not(R(N(m0), N(q)))), z3.Implies(q > m0, z3.Not(R(N(q), N(m0)))))), patterns=[N(q)]))
    st.ghost['sorts'] = st.ghost.get('sorts', ()) + ((P, Q, old, new, R),)
    chg(st, F.obj, new, None, False)
    if getattr(ex, 'on_sort', None): ex.on_sort(st, st.ghost['sorts'][-1])
def bound_model(name, lower, upper):
    def f(ex, st, a, dem, i):
        F, L = itp(a[0]), itp(a[1])
        if not is_arr_it(st, F, L): raise Unsupported(name)
        rng(ex, st, F, L)
        o, k, arr, tg = elems(st, F); f0, l0 = T(F.idx), T(L.idx)
        ta = targs(dem, name)
        typ, this = cmp_arg(ex, st, a, dem, name, 3, i.x['callee'])
        from .models import kind_of
        vk = kind_of(ta[1]); v = elem(ex, st, a[2], vk); vt = None
        if vk.name == 'ptr': vt = (v.obj, v.off); v = v.idx
        A = lambda x: z3.Select(arr, x); q, r = z3.Ints('q r'); ia = fresh('ia', I)
        out = []
        if lower:
            R = relation(ex, st, typ, this, k, vk, lambda x, y: [ia >= f0, ia < l0, x == A(ia), y == T(v)], tg, vt)
            ex.obligation(st, z3.ForAll([q, r], z3.Implies(z3.And(f0 <= q, q < r, r < l0, R(A(r), T(v))), R(A(q), T(v)))), 'std-precondition', name + ': range is partitioned by the value')
            x = fresh('lb', I); out.append(x); st.assume(z3.And(x >= f0, x <= l0))
            st.assume(z3.ForAll([q], z3.Implies(z3.And(f0 <= q, q < l0), R(A(q), T(v)) == (q < x)), patterns=[A(q)]))
            for e in (x, x-1): st.assume(z3.Implies(z3.And(e >= f0, e < l0), R(A(e), T(v)) == (e < x)))
        if upper:
            R2 = relation(ex, st, typ, this, vk, k, lambda y, x: [ia >= f0, ia < l0, x == A(ia), y == T(v)], vt, tg)
            ex.obligation(st, z3.ForAll([q, r], z3.Implies(z3.And(f0 <= q, q < r, r < l0, R2(T(v), A(q))), R2(T(v), A(r)))), 'std-precondition', name + ': range is partitioned by the value')
            x = fresh('ub', I); out.append(x); st.assume(z3.And(x >= f0, x <= l0))
            st.assume(z3.ForAll([q], z3.Implies(z3.And(f0 <= q, q < l0), R2(T(v), A(q)) == (q >= x)), patterns=[A(q)]))
            for e in (x, x-1): st.assume(z3.Implies(z3.And(e >= f0, e < l0), R2(T(v), A(e)) == (e >= x)))
        if lower and upper:
            ex.obligation(st, z3.ForAll([q], z3.Implies(z3.And(f0 <= q, q < l0, R2(T(v), A(q))), z3.Not(R(A(q), T(v))))), 'std-precondition', name + ': comparator consistent')
            st.assume(out[0] <= out[1])
        ps = [PtrV(F.obj, 0, x, F.gen) for x in out]
        return [(st, ps[0] if len(ps) == 1 else ps)]
    return f
TAB['std::lower_bound'] = bound_model('std::lower_bound', True, False)
TAB['std::upper_bound'] = bound_model('std::upper_bound', False, True)
TAB['std::equal_range'] = bound_model('std::equal_range', True, True)

def predicate(ex, st, typ, this, k, assume, tg=None):
    """python function R(x) -> z3 Bool for a unary predicate (its real body, executed symbolically)"""
    x = fresh('px', k.sort); rs = apply_fn(ex, st, typ, this, [Val(k, x, tg)], assume(x))
    f = tobool(rs[-1][1])
    for c, v in reversed(rs[:-1]): f = z3.If(c, tobool(v), f)
    f = z3.simplify(f)
    return lambda p: z3.substitute(f, (x, T(p)))
@model('std::partition', 'std::stable_partition')
def a_partition(ex, st, a, dem, i):
    name = strip(dem); F, L = itp(a[0]), itp(a[1])
    if F.obj is None: return [(st, a[0])]
    if not is_arr_it(st, F, L): raise Unsupported(name)
    rng(ex, st, F, L)
    typ, this = cmp_arg(ex, st, a, dem, name, 2, i.x['callee'])
    o, k, old, tg = elems(st, F); f0, l0 = T(F.idx), T(L.idx); ia = fresh('ia', I)
    R = predicate(ex, st, typ, this, k, lambda x: [ia >= f0, ia < l0, x == z3.Select(old, ia)], tg)
    new = fresh('part', old.sort()); n = uid(); m = fresh('pp', I); q = z3.Int('q'); N = lambda x: z3.Select(new, x); inn = lambda x: z3.And(f0 <= x, x < l0)
    P = z3.Function('perm!%d' % n, I, I); Q = z3.Function('pinv!%d' % n, I, I)
    st.assume(z3.And(f0 <= m, m <= l0))
    st.assume(z3.ForAll([q], z3.Implies(z3.Not(inn(q)), N(q) == z3.Select(old, q)), patterns=[N(q)]))
    st.assume(z3.ForAll([q], z3.Implies(inn(q), z3.And(inn(P(q)), N(q) == z3.Select(old, P(q)), Q(P(q)) == q)), patterns=[N(q), P(q)]))
    st.assume(z3.ForAll([q], z3.Implies(inn(q), z3.And(inn(Q(q)), P(Q(q)) == q, N(Q(q)) == z3.Select(old, q))), patterns=[Q(q)]))
    st.assume(z3.ForAll([q], z3.Implies(inn(q), R(N(q)) == (q < m)), patterns=[N(q)]))
    if name.endswith('stable_partition'):
        r = z3.Int('r'); st.assume(z3.ForAll([q, r], z3.Implies(z3.And(inn(q), inn(r), q < r, (q < m) == (r < m)), P(q) < P(r)), patterns=[z3.MultiPattern(N(q), N(r))]))
    chg(st, F.obj, new, None, False)
    if getattr(ex, 'on_part', None): ex.on_part(st, (old, new, f0, m, l0))
    return [(st, PtrV(F.obj, 0, m, F.gen))]

# ---------------- string comparison
def sget(ex, st, p):
    """value of a string argument (std::string object)"""
    return ex.getstr(st, p)
def str_cmp(fn):
    def f(ex, st, a, dem, i):
        ps = splitargs(params(dem))
        if len(ps) != 2 or not all('basic_string<char' in p for p in ps): return [(st, Tail(i.x['callee'], a))]
        x, y = sget(ex, st, a[0]), sget(ex, st, a[1])
        if x.eq(y): return [(st, fn(0, 0))]
        return [(st, fn(sord(x), sord(y)))]
    return f
import operator as _op
for _n, _f in (('<', _op.lt), ('>', _op.gt), ('<=', _op.le), ('>=', _op.ge), ('==', _op.eq), ('!=', _op.ne)): TAB['std::operator' + _n] = str_cmp(_f)
