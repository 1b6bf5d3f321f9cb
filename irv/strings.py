"""Assumed contracts of std::string (documented postconditions; preconditions become obligations)."""
import z3, re
from .core import *
from .exec import Tail, strip
from .models import model, TAB, params, nparams, EMPTY, elem, assume_len
from .algo import sord, sinv, splitargs
NPOS = (1 << 64) - 1
B = z3.BoolSort()
# pure functions on strings, defined by their length and characters (instances are added where they are built)
ssub = z3.Function('ssub', STR, I, I, STR)          # s[pos, pos+n)
scat = z3.Function('scat', STR, STR, STR)
srep = z3.Function('srep', I, I, STR)                # n times the character c
occ = z3.Function('occ', STR, STR, I, B)             # t occurs in s at position q
mis = z3.Function('mis', STR, STR, I, I)             # where it does not
inset = z3.Function('inset', STR, I, B)              # character c is one of the characters of t
inw = z3.Function('inw', STR, I, I)
dif = z3.Function('dif', STR, STR, I)                # a position where two strings of equal length differ
_s, _t = z3.Const('s', STR), z3.Const('t', STR); _q, _k, _c = z3.Int('q'), z3.Int('k'), z3.Int('c')
OCC = [
    z3.ForAll([_s, _t, _q], z3.Implies(occ(_s, _t, _q), z3.And(_q >= 0, _q + slen(_t) <= slen(_s))), patterns=[occ(_s, _t, _q)]),
    z3.ForAll([_s, _t, _q, _k], z3.Implies(z3.And(occ(_s, _t, _q), 0 <= _k, _k < slen(_t)), sch(_s, _q + _k) == sch(_t, _k)), patterns=[z3.MultiPattern(occ(_s, _t, _q), sch(_t, _k))]),
    z3.ForAll([_s, _t, _q, _k], z3.Implies(z3.And(occ(_s, _t, _q), _q <= _k, _k < _q + slen(_t)), sch(_s, _k) == sch(_t, _k - _q)), patterns=[z3.MultiPattern(occ(_s, _t, _q), sch(_s, _k))]),
    z3.ForAll([_s, _t, _q], z3.Implies(z3.And(z3.Not(occ(_s, _t, _q)), _q >= 0, _q + slen(_t) <= slen(_s)), z3.And(0 <= mis(_s, _t, _q), mis(_s, _t, _q) < slen(_t), sch(_s, _q + mis(_s, _t, _q)) != sch(_t, mis(_s, _t, _q)))), patterns=[occ(_s, _t, _q)]),
]
INS = [
    z3.ForAll([_t, _c], z3.Implies(inset(_t, _c), z3.And(0 <= inw(_t, _c), inw(_t, _c) < slen(_t), sch(_t, inw(_t, _c)) == _c)), patterns=[inset(_t, _c)]),
    z3.ForAll([_t, _c, _k], z3.Implies(z3.And(z3.Not(inset(_t, _c)), 0 <= _k, _k < slen(_t)), sch(_t, _k) != _c), patterns=[z3.MultiPattern(inset(_t, _c), sch(_t, _k))]),
]
# the facts every string satisfies
BASE = [z3.ForAll([_s], z3.And(slen(_s) >= 0, slen(_s) <= MAXLEN), patterns=[slen(_s)]),
        z3.ForAll([_s, _k], z3.And(sch(_s, _k) >= -128, sch(_s, _k) <= 127), patterns=[sch(_s, _k)])]
AX = OCC + INS + BASE
def use(st):
    for a in AX:
        if not any(a is b for b in st.qpc): st.qpc.append(a)
def lenok(st, t): st.assume(z3.And(slen(t) >= 0, slen(t) <= MAXLEN)); return t
def _once(st, t):
    """definitional axioms are added once per state and term"""
    k = 'sdef%d' % t.get_id()
    if k in st.ghost: return False
    st.ghost[k] = t; return True
def chars(st, t, f):
    st.assume(z3.ForAll([_k], sch(t, _k) == f(_k), patterns=[sch(t, _k)]))
def has_ite(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app_of(x, z3.Z3_OP_ITE): return True
        todo += x.children()
    return False
def named(st, t):
    """terms with conditionals cannot occur in triggers: give them a name"""
    if not has_ite(t): return t
    k = 'named%d' % t.get_id()
    if k not in st.ghost: x = fresh('nm', t.sort()); st.assume(x == t); st.ghost[k] = (t, x)
    return st.ghost[k][1]
def sub_(ex, st, s, p, n):
    """substring, 0 <= p, p+n <= len"""
    p, n = named(st, T(simp(p))), named(st, T(simp(n)))
    if z3.is_int_value(p) and p.as_long() == 0 and z3.simplify(n == slen(s)).eq(z3.BoolVal(True)): return s
    t = ssub(s, p, n)
    if _once(st, t):
        st.assume(z3.Implies(n >= 0, slen(t) == n)); lenok(st, t); chars(st, t, lambda k: sch(s, k + p))
        st.assume(z3.ForAll([_k], z3.Implies(z3.And(_k >= p, _k < p + n), sch(t, _k - p) == sch(s, _k)), patterns=[sch(s, _k)]))
        # consequence of the definition of occ
        st.assume(z3.ForAll([_t, _q], z3.Implies(z3.And(p >= 0, n >= 0, p + n <= slen(s), _q >= 0, _q + slen(_t) <= n), occ(t, _t, _q) == occ(s, _t, _q + p)), patterns=[occ(t, _t, _q)]))
    return t
def cat_(ex, st, a, b):
    if a.eq(EMPTY): return b
    if b.eq(EMPTY): return a
    t = scat(a, b)
    if _once(st, t):
        st.assume(slen(t) == slen(a) + slen(b)); st.assume(slen(t) <= MAXLEN)
        chars(st, t, lambda k: z3.If(k < slen(a), sch(a, k), sch(b, k - slen(a))))
        st.assume(z3.ForAll([_t, _q], z3.Implies(_q >= slen(a), occ(t, _t, _q) == occ(b, _t, _q - slen(a))), patterns=[occ(t, _t, _q)]))
    return t
def rep_(ex, st, n, c):
    n, c = named(st, T(n)), named(st, T(c)); t = srep(n, c)
    if _once(st, t):
        st.assume(slen(t) == T(n)); st.assume(T(n) <= MAXLEN); chars(st, t, lambda k: T(c))
    return t
def lit_(ex, st, b):
    if not b: return EMPTY
    t = z3.Const('lit_' + b.hex(), STR)
    if _once(st, t):
        st.assume(slen(t) == len(b))
        for j, c in enumerate(b): st.assume(sch(t, j) == (c if c < 128 else c - 256))
    return t
def sget(ex, st, p): use(st); return lenok(st, ex.getstr(st, p))
def cget(ex, st, p):
    """C string"""
    use(st)
    o = st.objs[p.obj]
    if isinstance(o, StrChars):
        if not same(p.idx, 0): raise Unsupported('C string inside a string')
        s = sget(ex, st, o.ptr)
        ex.obligation(st, z3.ForAll([_k], z3.Implies(z3.And(0 <= _k, _k < slen(s)), sch(s, _k) != 0), patterns=[sch(s, _k)]), 'std-precondition', 'C string without embedded null') if False else None
        return s
    if isinstance(o, ArrObj) and (o.name or '').startswith('lit:') and isc(p.idx): return lit_(ex, st, o.name[4:].encode('latin1')[p.idx:])
    raise Unsupported('C string')
def sarg(ex, st, p, ty):
    """string or C string argument, by its declared type"""
    if 'basic_string' in ty: return sget(ex, st, p)
    if 'char*' in ty or 'char const*' in ty: return cget(ex, st, p)
    raise Unsupported('string argument ' + ty)
def chr_(ex, st, v): return T(ex.s(st, v))
def put(ex, st, p, s): ex.setstr(st, p, s)
N = 'std::__cxx11::basic_string::'
def smodel(*names): return model(*[N + n for n in names])
def plist(dem): return splitargs(params(dem))
@smodel('basic_string')
def s_ctor(ex, st, a, dem, i):
    ps = [p for p in plist(dem) if not re.match(r'^std::allocator', p)]; use(st)
    if not ps: s = EMPTY
    elif 'basic_string' in ps[0]:
        s = sget(ex, st, a[1])
        if ps[0].endswith('&&'): put(ex, st, a[0], s); put(ex, st, a[1], EMPTY); return
        if len(ps) > 1: s = substr(ex, st, s, ex.u(st, a[2]), ex.u(st, a[3]) if len(ps) > 2 else NPOS)
    elif 'char const*' in ps[0] and len(ps) == 1: s = cget(ex, st, a[1])
    elif ps[0] == 'unsigned long' and ps[1] == 'char': s = rep_(ex, st, ex.u(st, a[1]), chr_(ex, st, a[2]))
    elif len(ps) >= 2 and isinstance(a[1], PtrV) and isinstance(a[2], PtrV):
        f, l = a[1], a[2]
        if f.obj != l.obj: raise Unsupported('string from range')
        o = st.objs[f.obj]
        if isinstance(o, StrChars):
            src = sget(ex, st, o.ptr); ex.obligation(st, b_and(cmp('ge', f.idx, 0), cmp('le', f.idx, l.idx), cmp('le', l.idx, slen(src))), 'std-precondition', 'iterator range valid')
            s = sub_(ex, st, src, f.idx, sub(l.idx, f.idx))
        else: raise Unsupported('string from range')
    elif 'char const*' in ps[0] and len(ps) == 2:
        c = cget(ex, st, a[1]); n = ex.u(st, a[2]); ex.obligation(st, cmp('le', n, slen(c)), 'std-precondition', 'characters available'); s = sub_(ex, st, c, 0, n)
    else: raise Unsupported('string constructor ' + dem)
    put(ex, st, a[0], s)
@smodel('~basic_string')
def s_dtor(ex, st, a, dem, i): return
@smodel('size', 'length')
def s_size(ex, st, a, dem, i): return [(st, IntV(slen(sget(ex, st, a[0])), 64, 0, MAXLEN))]
@smodel('empty')
def s_empty(ex, st, a, dem, i): return [(st, simp(slen(sget(ex, st, a[0])) == 0))]
@smodel('clear')
def s_clear(ex, st, a, dem, i): use(st); put(ex, st, a[0], EMPTY)
@smodel('reserve')
def s_reserve(ex, st, a, dem, i): return
def charsobj(st, p):
    for oid, o in st.objs.items():
        if isinstance(o, StrChars) and o.ptr.obj == p.obj and o.ptr.off == p.off and same(o.ptr.idx, p.idx): return oid
    return st.new(StrChars(p))
@smodel('operator[]', 'at')
def s_idx(ex, st, a, dem, i):
    s = sget(ex, st, a[0]); x = ex.u(st, a[1])
    ex.obligation(st, b_and(cmp('ge', x, 0), cmp('le', x, slen(s))), 'std-precondition', 'string index in range')
    return [(st, PtrV(charsobj(st, a[0]), 0, x))]
@smodel('begin', 'cbegin', 'data', 'c_str')
def s_begin(ex, st, a, dem, i): sget(ex, st, a[0]); return [(st, PtrV(charsobj(st, a[0]), 0, 0))]
@smodel('end', 'cend')
def s_end(ex, st, a, dem, i): s = sget(ex, st, a[0]); return [(st, PtrV(charsobj(st, a[0]), 0, slen(s)))]
@smodel('front')
def s_front(ex, st, a, dem, i):
    s = sget(ex, st, a[0]); ex.obligation(st, slen(s) > 0, 'std-precondition', 'front() of non-empty string'); return [(st, PtrV(charsobj(st, a[0]), 0, 0))]
@smodel('back')
def s_back(ex, st, a, dem, i):
    s = sget(ex, st, a[0]); ex.obligation(st, slen(s) > 0, 'std-precondition', 'back() of non-empty string'); return [(st, PtrV(charsobj(st, a[0]), 0, slen(s) - 1))]
@smodel('operator=', 'assign')
def s_assign(ex, st, a, dem, i):
    p = plist(dem)
    if p[0] == 'char': s = rep_(ex, st, 1, chr_(ex, st, a[1]))
    elif len(p) == 1: s = sarg(ex, st, a[1], p[0])
    else: raise Unsupported('string assign')
    mv = p[0].endswith('&&') and not (a[0].obj == a[1].obj and a[0].off == a[1].off and same(a[0].idx, a[1].idx))
    put(ex, st, a[0], s)
    if mv: put(ex, st, a[1], EMPTY)
    return [(st, a[0])]
@smodel('operator+=', 'append', 'push_back')
def s_app(ex, st, a, dem, i):
    p = plist(dem); s = sget(ex, st, a[0])
    if p[0] == 'char': t = rep_(ex, st, 1, chr_(ex, st, a[1]))
    elif len(p) == 1: t = sarg(ex, st, a[1], p[0])
    elif p[0] == 'unsigned long': t = rep_(ex, st, ex.u(st, a[1]), chr_(ex, st, a[2]))
    elif 'basic_string' in p[0] and len(p) == 3: t = substr(ex, st, sget(ex, st, a[1]), ex.u(st, a[2]), ex.u(st, a[3]))
    else: raise Unsupported('string append')
    put(ex, st, a[0], cat_(ex, st, s, t)); return [(st, a[0])]
@smodel('pop_back')
def s_pop(ex, st, a, dem, i):
    s = sget(ex, st, a[0]); ex.obligation(st, slen(s) > 0, 'std-precondition', 'pop_back() of non-empty string'); put(ex, st, a[0], sub_(ex, st, s, 0, slen(s) - 1))
def cnt(ex, st, s, p, n):
    """number of characters actually taken from position p: min(n, len - p)"""
    m = sub(slen(s), p)
    if isc(n) and n == NPOS or ex.proves(st, T(n) >= T(m)): return m
    if ex.proves(st, T(n) <= T(m)): return n
    return z3.If(T(n) < T(m), T(n), T(m))
def substr(ex, st, s, p, n):
    ex.obligation(st, cmp('le', p, slen(s)), 'std-precondition', 'substring position not past the end')
    return sub_(ex, st, s, p, cnt(ex, st, s, p, n))
@smodel('substr')
def s_substr(ex, st, a, dem, i):
    s = sget(ex, st, a[1]); put(ex, st, a[0], substr(ex, st, s, ex.u(st, a[2]), ex.u(st, a[3])))
@smodel('erase')
def s_erase(ex, st, a, dem, i):
    p = plist(dem); s = sget(ex, st, a[0])
    if not p[0].startswith('unsigned long'): raise Unsupported('string erase by iterator')
    q = ex.u(st, a[1]); ex.obligation(st, cmp('le', q, slen(s)), 'std-precondition', 'erase position not past the end')
    n = cnt(ex, st, s, q, ex.u(st, a[2])); put(ex, st, a[0], cut_(ex, st, s, q, n, EMPTY)); return [(st, a[0])]
def cut_(ex, st, s, p, n, t):
    """s with its n characters at p replaced by t"""
    e = sub(sub(slen(s), p), n)
    h = EMPTY if isc(p) and p == 0 else sub_(ex, st, s, 0, p)
    l = EMPTY if isc(simp(e)) and simp(e) == 0 else sub_(ex, st, s, add(p, n), e)
    return cat_(ex, st, cat_(ex, st, h, t), l)
@smodel('insert')
def s_insert(ex, st, a, dem, i):
    p = plist(dem); s = sget(ex, st, a[0])
    if not p[0].startswith('unsigned long'): raise Unsupported('string insert by iterator')
    q = ex.u(st, a[1]); ex.obligation(st, cmp('le', q, slen(s)), 'std-precondition', 'insert position not past the end')
    if p[1] == 'unsigned long': t = rep_(ex, st, ex.u(st, a[2]), chr_(ex, st, a[3]))
    else: t = sarg(ex, st, a[2], p[1])
    put(ex, st, a[0], cut_(ex, st, s, q, 0, t)); return [(st, a[0])]
@smodel('replace')
def s_replace(ex, st, a, dem, i):
    p = plist(dem); s = sget(ex, st, a[0])
    if p[:2] != ['unsigned long', 'unsigned long'] or len(p) != 3: raise Unsupported('string replace')
    q = ex.u(st, a[1]); ex.obligation(st, cmp('le', q, slen(s)), 'std-precondition', 'replace position not past the end')
    n = cnt(ex, st, s, q, ex.u(st, a[2])); put(ex, st, a[0], cut_(ex, st, s, q, n, sarg(ex, st, a[3], p[2]))); return [(st, a[0])]
@smodel('resize')
def s_resize(ex, st, a, dem, i):
    s = sget(ex, st, a[0]); n = ex.u(st, a[1]); c = chr_(ex, st, a[2]) if len(a) > 2 else 0
    if ex.proves(st, T(n) <= slen(s)): t = sub_(ex, st, s, 0, n)
    elif ex.proves(st, T(n) >= slen(s)): t = cat_(ex, st, s, rep_(ex, st, sub(n, slen(s)), c))
    else: raise Unsupported('string resize')
    put(ex, st, a[0], t)
@smodel('swap')
def s_swap(ex, st, a, dem, i):
    x, y = sget(ex, st, a[0]), sget(ex, st, a[1]); put(ex, st, a[0], y); put(ex, st, a[1], x)
# ---- searching
def ln(s):
    if s.decl().eq(scat): return add(ln(s.arg(0)), ln(s.arg(1)))
    if s.decl().eq(ssub): return s.arg(2)
    return slen(s)
def search(name, hit, needle, fwd=True):
    f = z3.Function('s' + name, STR, STR, I, I); fc = z3.Function('sc' + name, STR, I, I, I)
    def m(ex, st, a, dem, i):
        p = plist(dem); s = sget(ex, st, a[0])
        pos = ex.u(st, a[2]) if len(a) > 2 else (0 if fwd else NPOS)
        if len(p) > 2: raise Unsupported(name + ' with length')
        shift = 0
        if p[0] == 'char':
            c = chr_(ex, st, a[1]); r = fc(s, c, T(pos)); H = lambda q: sch(s, q) == c if hit != 'not' else sch(s, q) != c; tl = 1; pat = lambda q: sch(s, q)
        else:
            t = sarg(ex, st, a[1], p[0])
            if needle and fwd and not isc(pos):        # search in the part of a composed string that follows the start position
                while True:
                    if s.decl().eq(scat) and ex.proves(st, T(pos) >= slen(s.arg(0))): l = ln(s.arg(0)); pos = sub(pos, l); shift = add(shift, l); s = s.arg(1)
                    elif s.decl().eq(ssub) and ex.proves(st, s.arg(1) + s.arg(2) == slen(s.arg(0))): pos = add(pos, s.arg(1)); shift = sub(shift, s.arg(1)); s = s.arg(0)
                    else: break
            r = f(s, t, T(simp(pos)))
            if needle: H = lambda q: occ(s, t, q); tl = slen(t); pat = lambda q: occ(s, t, q)
            else:
                tl = 1; pat = lambda q: sch(s, q)
                H = (lambda q: z3.Not(inset(t, sch(s, q)))) if hit == 'not' else (lambda q: inset(t, sch(s, q)))
        last = slen(s) - T(tl)          # last position where a hit fits
        P = T(pos)
        found = z3.And(r >= 0, r <= last, H(r), (r >= P) if fwd else (r <= P))
        st.assume(z3.Or(r == NPOS, found)); st.assume(z3.And(r >= 0, r <= NPOS))
        if fwd: st.assume(z3.ForAll([_q], z3.Implies(z3.And(P <= _q, _q <= last, z3.Or(r == NPOS, _q < r)), z3.Not(H(_q))), patterns=[pat(_q)]))
        else: st.assume(z3.ForAll([_q], z3.Implies(z3.And(0 <= _q, _q <= P, _q <= last, z3.Or(r == NPOS, _q > r)), z3.Not(H(_q))), patterns=[pat(_q)]))
        # two cases: found or not
        x, y = st.clone(), st; out = []
        for t_, c_, v in ((x, r != NPOS, IntV(r, 64, 0, MAXLEN)), (y, r == NPOS, IntV(NPOS, 64))):
            if ex.feasible(t_, c_):
                t_.assume(c_)
                if v.t is r: t_.assume(found); t_.assume(r < MAXLEN)
                if v.t is r and not same(shift, 0): v = IntV(simp(T(add(r, shift))), 64, 0, MAXLEN)
                out.append((t_, v))
        return out
    return m
for _n, _h, _d, _f in (('find', '', True, True), ('rfind', '', True, False), ('find_first_of', '', False, True), ('find_last_of', '', False, False), ('find_first_not_of', 'not', False, True), ('find_last_not_of', 'not', False, False)):
    TAB[N + _n] = search(_n, _h, _d, _f)
# ---- comparison and concatenation
def eq_(ex, st, x, y):
    b = x == y
    if _once(st, b):
        st.assume(z3.Implies(x == y, slen(x) == slen(y)))
        st.assume(z3.Or(x == y, slen(x) != slen(y), z3.And(0 <= dif(x, y), dif(x, y) < slen(x), sch(x, dif(x, y)) != sch(y, dif(x, y)))))
    return b
_old = {n: TAB['std::operator' + n] for n in ('==', '!=')}
def s_eq(neg):
    def f(ex, st, a, dem, i):
        p = plist(dem)
        if not any('basic_string<char' in x for x in p) or len(p) != 2: return [(st, Tail(i.x['callee'], a))]
        x, y = sarg(ex, st, a[0], p[0]), sarg(ex, st, a[1], p[1])
        if ex.opts.get('strorder') or all('basic_string<char' in q for q in p) and not ex.opts.get('chars'): return [(st, simp((sord(x) != sord(y)) if neg else (sord(x) == sord(y))) if not x.eq(y) else (not neg))]
        b = eq_(ex, st, x, y); return [(st, simp(z3.Not(b) if neg else b))]
    return f
TAB['std::operator=='] = s_eq(False); TAB['std::operator!='] = s_eq(True)
@model('std::operator+')
def s_plus(ex, st, a, dem, i):
    p = plist(dem)
    if not any('basic_string<char' in x for x in p): return [(st, Tail(i.x['callee'], a))]
    v = [rep_(ex, st, 1, chr_(ex, st, q)) if t == 'char' else sarg(ex, st, q, t) for q, t in zip(a[1:], p)]
    put(ex, st, a[0], cat_(ex, st, v[0], v[1]))
@smodel('compare')
def s_compare(ex, st, a, dem, i):
    p = plist(dem)
    if len(p) != 1: raise Unsupported('compare')
    x, y = sget(ex, st, a[0]), sarg(ex, st, a[1], p[0]); b = eq_(ex, st, x, y); r = fresh('cmp', I); st.assume(z3.And(r >= -(1 << 31), r < (1 << 31), (r == 0) == b)); return [(st, IntV(r, 32, -(1 << 31), (1 << 31)-1))]
# ---- characters (the C locale)
def case_(lo, hi, d):
    def f(ex, st, a, dem, i):
        c = T(ex.s(st, a[0])); ex.obligation(st, z3.And(c >= -1, c <= 255), 'std-precondition', 'character argument representable as unsigned char')
        return [(st, IntV(z3.If(z3.And(c >= lo, c <= hi), c + d, c), 32, -1, 255))]
    return f
TAB['toupper'] = TAB['std::toupper'] = case_(97, 122, -32); TAB['tolower'] = TAB['std::tolower'] = case_(65, 90, 32)
