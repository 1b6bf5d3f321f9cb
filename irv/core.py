"""Symbolic values, memory and solver interface of the deductive verifier."""
import z3, time, itertools, fractions, math

z3.set_param('smt.random_seed', 1)
I = z3.IntSort()
F64 = z3.DeclareSort('F64'); F32 = z3.DeclareSort('F32'); STR = z3.DeclareSort('Str'); OPQ = z3.DeclareSort('Opq')
isnan = {F64.name(): z3.Function('isnan64', F64, z3.BoolSort()), F32.name(): z3.Function('isnan32', F32, z3.BoolSort())}
ordf = {F64.name(): z3.Function('ord64', F64, z3.RealSort()), F32.name(): z3.Function('ord32', F32, z3.RealSort())}
slen = z3.Function('slen', STR, I)
sch = z3.Function('sch', STR, I, I)

class Unsupported(Exception): pass
class Split(Exception):
    def __init__(s, conds): s.conds = conds
class Infeasible(Exception): pass

_cnt = itertools.count()
def uid(): return next(_cnt)
def fresh(name, sort): return z3.Const('%s!%d' % (name, uid()), sort)
def isc(t): return isinstance(t, (int, bool))
def T(t):
    """to z3 term"""
    if isinstance(t, bool): return z3.BoolVal(t)
    if isinstance(t, int): return z3.IntVal(t)
    return t
def simp(t):
    if isc(t): return t
    r = z3.simplify(t)
    if z3.is_int_value(r): return r.as_long()
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
def same(a, b):
    if isc(a) and isc(b): return a == b
    if isc(a) or isc(b): return False
    return a.eq(b)
def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return simp(T(a) + T(b))
def sub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    return simp(T(a) - T(b))
mulf = z3.Function('mulf', I, I, I)
_x, _y = z3.Ints('_mx _my'); MULCOMM = [z3.ForAll([_x, _y], mulf(_x, _y) == mulf(_y, _x), patterns=[mulf(_x, _y)])]
QD = z3.Function('quot', I, I, I); QM = z3.Function('rem_', I, I, I)     # quotient and remainder (non-negative dividend, positive divisor)
def mul(a, b):
    if isc(a) and isc(b): return a * b
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x == 0: return 0
            if x == 1: return y
            return simp(z3.IntVal(x) * y)
    return NL.mul(a, b)
def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if same(a, b): return a
    return z3.If(c, T(a), T(b))
def b_and(*xs):
    o = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        o.append(x)
    if not o: return True
    return o[0] if len(o) == 1 else z3.And(o)
def b_or(*xs):
    o = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        o.append(x)
    if not o: return False
    return o[0] if len(o) == 1 else z3.Or(o)
def b_not(x):
    if isc(x): return not x
    return z3.Not(x)
def cmp(op, a, b):
    if isc(a) and isc(b):
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
    a, b = T(a), T(b)
    if a.eq(b): return op in ('eq', 'le', 'ge')
    d = z3.simplify(a - b)
    if z3.is_int_value(d):
        return cmp(op, d.as_long(), 0)
    return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]

class NL:
    """Products of two unknowns.  Represented by the function mulf together with the
    (quantifier-free) instances of the ring and order axioms below, added for every product
    term the proof mentions; mulf(a,b) is the mathematical product a*b."""
    @staticmethod
    def mul(a, b):
        a = z3.simplify(T(a)); b = z3.simplify(T(b))
        # distribute over sums: keep products of atoms only
        ta = _lin(a); tb = _lin(b)
        tot = 0
        for ca, xa in ta:
            for cb, xb in tb:
                if xa is None and xb is None: term = ca*cb
                elif xa is None: term = z3.IntVal(ca*cb) * xb
                elif xb is None: term = z3.IntVal(ca*cb) * xa
                else:
                    term = z3.IntVal(ca*cb) * NL.atom(xa, xb)
                tot = T(tot) + term
        return simp(tot)
    @staticmethod
    def atom(x, y):
        fs = sorted(NL.factors(x) + NL.factors(y), key=lambda t: (t.sexpr() if False else t.get_id()))
        r = fs[0]
        for f in fs[1:]:
            r = mulf(r, f)
        return r
    @staticmethod
    def factors(x):
        if z3.is_app(x) and x.decl().eq(mulf): return NL.factors(x.arg(0)) + NL.factors(x.arg(1))
        return [x]

def _lin(t):
    """linear form [(coef, atom|None)]"""
    if z3.is_int_value(t): return [(t.as_long(), None)]
    if z3.is_add(t):
        r = []
        for c in t.children(): r += _lin(c)
        return r
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        return [(t.arg(0).as_long()*c, x) for c, x in _lin(t.arg(1))]
    if z3.is_sub(t):
        r = _lin(t.arg(0))
        for c in t.children()[1:]: r += [(-k, x) for k, x in _lin(c)]
        return r
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        return [(-c, x) for c, x in _lin(t.arg(0))]
    return [(1, t)]

def syn_div(x, y):
    """x = A*y + R where every product in x that has the atom y as a factor is in A; None if there is none"""
    A = 0; R = 0; hit = False
    for c, t in _lin(z3.simplify(T(x))):
        fs = [] if t is None else NL.factors(t)
        j = [k for k, f in enumerate(fs) if f.eq(y)]
        if j:
            rest = fs[:j[0]] + fs[j[0]+1:]; p = 1
            for f in rest: p = mul(p, f)
            A = add(A, mul(c, p)); hit = True
        else: R = add(R, c if t is None else mul(c, t))
    return (A, R) if hit else None

class IntV:
    """machine integer of width w: the mathematical term t represents it modulo 2^w;
    [lo,hi] are known bounds of t"""
    __slots__ = ('t', 'w', 'lo', 'hi')
    def __init__(s, t, w, lo=None, hi=None):
        if isc(t): lo = hi = int(t); t = int(t)
        s.t = t; s.w = w; s.lo = lo; s.hi = hi
    def __repr__(s): return 'i%d:%s' % (s.w, s.t)

class PtrV:
    __slots__ = ('obj', 'off', 'idx', 'gen')
    def __init__(s, obj, off=0, idx=0, gen=None): s.obj = obj; s.off = off; s.idx = idx; s.gen = gen
    def __repr__(s): return 'ptr(%s,+%s,[%s])' % (s.obj, s.off, s.idx)
NULL = PtrV(None)

class FnV:
    def __init__(s, name): s.name = name

class VecV:
    """abstract std::vector: owns array object"""
    __slots__ = ('obj',)
    def __init__(s, obj): s.obj = obj
    def __repr__(s): return 'vec@%d' % s.obj

class StrV:
    __slots__ = ('s',)
    def __init__(s, t): s.s = t

class PackV:
    """several integers copied together as one (coerced aggregate): parts {byte offset: (value, size)}"""
    def __init__(s, parts): s.parts = parts
    def __repr__(s): return 'pack%r' % (s.parts,)
class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class Kind:
    """element kind"""
    def __init__(s, name, sort, size, w=None, signed=False, lo=None, hi=None):
        s.name = name; s.sort = sort; s.size = size; s.w = w; s.signed = signed; s.lo = lo; s.hi = hi
    def __repr__(s): return s.name
def _ik(n, w, sg, size=None):
    return Kind(n, I, size or w//8, w, sg, -(1 << (w-1)) if sg else 0, (1 << (w-1))-1 if sg else (1 << w)-1)
KINDS = {k.name: k for k in [
    _ik('i8', 8, True), _ik('u8', 8, False), _ik('i16', 16, True), _ik('u16', 16, False), _ik('i32', 32, True), _ik('u32', 32, False),
    _ik('i64', 64, True), _ik('u64', 64, False), Kind('bool', I, 1, 8, False, 0, 1),
    Kind('f64', F64, 8), Kind('f32', F32, 4), Kind('str', STR, 32), Kind('ptr', I, 8)]}
CXX = {'int': 'i32', 'unsigned int': 'u32', 'long': 'i64', 'unsigned long': 'u64', 'char': 'i8', 'signed char': 'i8', 'unsigned char': 'u8',
       'short': 'i16', 'unsigned short': 'u16', 'double': 'f64', 'float': 'f32', 'bool': 'bool', 'long long': 'i64', 'unsigned long long': 'u64',
       'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >': 'str', 'std::string': 'str'}
MAXLEN = (1 << 47)

class CellObj:
    """memory made of scalar cells at constant offsets"""
    def __init__(s, size, name=''): s.size = size; s.cells = {}; s.name = name; s.const = False
    def copy(s):
        r = CellObj(s.size, s.name); r.cells = dict(s.cells); r.const = s.const; return r

class ArrObj:
    """unbounded array: comps {byte offset in element: (kind, z3 array)}"""
    def __init__(s, esize, comps, length, name=''):
        s.esize = esize; s.comps = comps; s.len = length; s.name = name; s.gen = uid(); s.alive = True; s.target = {}; s.cap = None
    def copy(s):
        r = ArrObj.__new__(ArrObj); r.__dict__.update(s.__dict__); r.comps = dict(s.comps); r.target = dict(s.target); return r
    @property
    def kind(s): return s.comps[0][0]
    @property
    def arr(s): return s.comps[0][1]

class StrChars:
    """pseudo object: characters of the string stored at ptr"""
    def __init__(s, ptr): s.ptr = ptr
    def copy(s): return s

def newarr(kind, length, name='a', content=None):
    k = KINDS[kind] if isinstance(kind, str) else kind
    return ArrObj(k.size, {0: (k, content if content is not None else fresh(name, z3.ArraySort(I, k.sort)))}, length, name)

# ---- floating point -------------------------------------------------------------------
class FP:
    consts = {}
    axioms = []
    qaxioms = []
    fns = {}
    @staticmethod
    def sort(w): return F64 if w == 64 else F32
    @staticmethod
    def const(v, w):
        key = (repr(v), w)
        if key in FP.consts: return FP.consts[key]
        so = FP.sort(w); c = z3.Const('fc%d_%s' % (w, repr(v)), so); FP.consts[key] = c
        nn = isnan[so.name()](c); o = ordf[so.name()](c)
        if math.isnan(v): FP.axioms.append(nn)
        else:
            FP.axioms.append(z3.Not(nn))
            if math.isinf(v): val = z3.RealVal((1 if v > 0 else -1) * (1 << 1025))
            else:
                fr = fractions.Fraction(v); val = z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator))
            FP.axioms.append(o == z3.simplify(val))
        return c
    @staticmethod
    def fn(name, *sorts):
        k = (name,) + tuple(s.name() for s in sorts)
        if k not in FP.fns:
            f = FP.fns[k] = z3.Function(name, *sorts)
            if name.startswith(('fadd_', 'fmul_')):      # addition and multiplication are commutative
                a, b = z3.Const('fa', sorts[0]), z3.Const('fb', sorts[1]); FP.qaxioms.append(z3.ForAll([a, b], f(a, b) == f(b, a), patterns=[f(a, b)]))
        return FP.fns[k]
    @staticmethod
    def bin(op, a, b):
        so = a.sort()
        # exact identities of IEEE arithmetic used by the compiler: (-c)*x = -(c*x), x + (-y) = x - y, x - (-y) = x + y
        if op == 'fmul':
            for x, y in ((a, b), (b, a)):
                n = FP.negconst(x)
                if n is not None: return FP.un('fneg', FP.bin('fmul', n, y))
        if op in ('fadd', 'fsub'):
            if FP.isneg(b): return FP.bin('fsub' if op == 'fadd' else 'fadd', a, b.arg(0))
            if op == 'fadd' and FP.isneg(a): return FP.bin('fsub', b, a.arg(0))
        return FP.fn('%s_%s' % (op, so.name()), so, so, so)(a, b)
    @staticmethod
    def isneg(a): return z3.is_app(a) and a.decl().name().startswith('fneg_')
    @staticmethod
    def negconst(a):
        """-a for a negative constant a"""
        if not (z3.is_const(a) and a.decl().name().startswith('fc')): return None
        w = 64 if a.sort() == F64 else 32
        for (r, w2), c in FP.consts.items():
            if w2 == w and c.eq(a): v = float(r); return FP.const(-v, w) if v < 0 else None
    @staticmethod
    def un(op, a):
        if op == 'fneg' and FP.isneg(a): return a.arg(0)
        so = a.sort(); return FP.fn('%s_%s' % (op, so.name()), so, so)(a)
    @staticmethod
    def cmp(pred, a, b):
        so = a.sort().name(); na, nb = isnan[so](a), isnan[so](b); oa, ob = ordf[so](a), ordf[so](b)
        if a.eq(b): uno = na
        else: uno = z3.Or(na, nb)
        o = z3.Not(uno)
        rel = {'eq': oa == ob, 'gt': oa > ob, 'ge': oa >= ob, 'lt': oa < ob, 'le': oa <= ob, 'ne': oa != ob}
        if pred == 'true': return True
        if pred == 'false': return False
        if pred == 'ord': return o
        if pred == 'uno': return uno
        r = rel[pred[1:]]
        return z3.And(o, r) if pred[0] == 'o' else z3.Or(uno, r)
def flt(a, b): return FP.cmp('olt', a, b)
def feq(a, b): return FP.cmp('oeq', a, b)
def fnan(a): return isnan[a.sort().name()](a)

# ---- solver ---------------------------------------------------------------------------
def has_quant(t, _c={}):
    k = t.get_id()
    if k in _c: return _c[k][1]
    r = False; st = [t]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): r = True; break
        st.extend(x.children())
    _c[k] = (t, r)
    return r

def mul_terms(ts, _c={}):
    """all mulf applications (ground) in list of terms"""
    out = {}
    for t in ts:
        k = t.get_id()
        if k not in _c:
            res = {}; st = [t]; seen = set()
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_quantifier(x): st.append(x.body()); continue
                if z3.is_app(x):
                    if (x.decl().eq(mulf) or x.decl().eq(QD) or x.decl().eq(QM)) and not _hasvar(x): res[x.get_id()] = x
                    st.extend(x.children())
            _c[k] = (t, res)
        out.update(_c[k][1])
    return list(out.values())
def _hasvar(t):
    if z3.is_var(t): return True
    return any(_hasvar(c) for c in t.children()) if z3.is_app(t) else True

class Stats:
    def __init__(s): s.q = 0; s.t = 0.0; s.obl = []
STATS = Stats()

class Ground:
    """incremental quantifier-free solver following the path condition stack"""
    def __init__(s, timeout=400):
        s.timeout = timeout; s.reset()
    def reset(s):
        s.s = z3.SimpleSolver(); s.s.set('timeout', s.timeout)
        s.stack = []; s.nax = 0; s.cache = {}; s.n = 0
    def sync(s, pc):
        g = pc
        i = 0
        while i < len(g) and i < len(s.stack) and g[i] is s.stack[i]: i += 1
        if len(s.stack) > i: s.s.pop(len(s.stack)-i); del s.stack[i:]
        for x in g[i:]:
            s.s.push(); s.s.add(x); s.stack.append(x)
    def unsat(s, pc, extra):
        key = (tuple(x.get_id() for x in pc), extra.get_id())
        if key in s.cache: return s.cache[key][0]
        t = time.time()
        s.n += 1
        if s.n % 3000 == 0: c = s.cache; s.reset(); s.cache = c
        s.sync(pc)
        s.s.push()
        s.s.add(extra)
        ms = mul_terms(list(pc) + [extra])
        for a in nl_axioms(ms): s.s.add(a)
        for a in FP.axioms: s.s.add(a)
        r = s.s.check() == z3.unsat
        s.s.pop()
        STATS.q += 1; STATS.t += time.time()-t
        s.cache[key] = (r, extra, list(pc))
        return r

NLX = {'on': False}     # further instances for sums of products (per contract)
def nl_axioms(ms, _c={}):
    """instances of ordered-ring facts about products (valid for mulf = multiplication) and of the
    definition of quotient and remainder"""
    if not ms: return []
    key = tuple(sorted(m.get_id() for m in ms))
    if key in _c: return _c[key][1]
    ax = []; ms0 = ms
    dv = {}
    for m in ms:
        if not m.decl().eq(mulf): dv[(m.arg(0).get_id(), m.arg(1).get_id())] = (m.arg(0), m.arg(1))
    if dv:
        for x, y in dv.values():
            q, r = QD(x, y), QM(x, y); m = T(mul(q, y))
            ax.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(x == m + r, r >= 0, r < y, q >= 0, q <= x)))
            if z3.is_app(x) and x.decl().eq(QD): ax.append(z3.Implies(z3.And(x >= 0, y > 0), T(mul(x, x.arg(1))) == T(mul(m + r, x.arg(1)))))
        ms = [m for m in {t.get_id(): t for t in mul_terms(ax) + list(ms)}.values() if m.decl().eq(mulf)]
        # a remainder of a number already below the divisor is that number, also inside products
        n0 = len(ax)
        for m in list(ms):
            fs = NL.factors(m)
            for j, q in enumerate(fs):
                if z3.is_app(q) and q.decl().eq(QM):
                    o = q.arg(0)
                    for f in fs[:j] + fs[j+1:]: o = mul(o, f)
                    ax.append(z3.Implies(z3.And(q.arg(0) >= 0, q.arg(0) < q.arg(1)), z3.And(q == q.arg(0), m == T(o))))
        if len(ax) > n0: ms = [m for m in {t.get_id(): t for t in mul_terms(ax[n0:]) + list(ms)}.values() if m.decl().eq(mulf)]
    # associativity/commutativity: a product of three or more factors, split at each factor
    have = {m.get_id() for m in ms}; ms = list(ms)
    for m in list(ms):
        fs = NL.factors(m)
        if 3 <= len(fs) <= 4:
            for j in range(len(fs)):
                rest = fs[:j] + fs[j+1:]; r = rest[0]
                for f in sorted(rest, key=lambda t: t.get_id())[0:1]: r = f
                for f in sorted(rest, key=lambda t: t.get_id())[1:]: r = mulf(r, f)
                alt = mulf(r, fs[j])
                if not alt.eq(m): ax.append(m == alt)
                for t in (alt, r):
                    if t.get_id() not in have and z3.is_app(t) and t.decl().eq(mulf): have.add(t.get_id()); ms.append(t)
    for m in ms:
        a, b = m.arg(0), m.arg(1)
        ax += [z3.Implies(z3.And(a >= 0, b >= 0), m >= 0), z3.Implies(a == 0, m == 0), z3.Implies(b == 0, m == 0),
               z3.Implies(a == 1, m == b), z3.Implies(b == 1, m == a),
               z3.Implies(z3.And(a >= 1, b >= 1), z3.And(m >= a, m >= b)),
               z3.Implies(z3.And(m == 0), z3.Or(a == 0, b == 0))]
    for i in range(len(ms)):
        for j in range(len(ms)):
            if i == j: continue
            x, y = ms[i], ms[j]
            for (xa, xb) in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                for (ya, yb) in ((y.arg(0), y.arg(1)), (y.arg(1), y.arg(0))):
                    if xb.eq(yb):   # x = xa*b, y = ya*b
                        ax.append(z3.Implies(z3.And(xb >= 0, xa <= ya), x <= y))
                        ax.append(z3.Implies(z3.And(xb >= 0, xa + 1 <= ya), x + xb <= y))
                        ax.append(z3.Implies(xa == ya, x == y))
                        ax.append(z3.Implies(xa + 1 == ya, x + xb == y))
    # sums of products sharing a factor: x*a + x*b against x*c
    by = {}
    for m in ms:
        for a, b in ((m.arg(0), m.arg(1)), (m.arg(1), m.arg(0))): by.setdefault(a.get_id(), (a, []))[1].append((b, m))
    more = NLX['on']
    for x, l in by.values():
        if not (2 if more else 3) <= len(l) <= (7 if more else 6): continue
        for p in range(len(l)):
            for q in range(p + (0 if more else 1), len(l)):
                for r in range(len(l)):
                    if r in (p, q): continue
                    (a, ma), (b, mb), (c, mc) = l[p], l[q], l[r]
                    ax += [z3.Implies(z3.And(x >= 0, a + b + 1 <= c), ma + mb + x <= mc), z3.Implies(z3.And(x >= 0, a + b <= c), ma + mb <= mc), z3.Implies(z3.And(x >= 0, a + b >= c), ma + mb >= mc)]
                    if more: ax += [z3.Implies(z3.And(x >= 0, a + b + 2 <= c), ma + mb + 2*x <= mc), z3.Implies(z3.And(x >= 0, a + b + 1 >= c), ma + mb + x >= mc), z3.Implies(z3.And(x >= 0, a + b >= c + 1), ma + mb >= mc + x)]
    _c[key] = (ms0, ax)
    return ax
