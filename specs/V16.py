from irv.contract import *
from irv.lib import *
from irv import algo, models
from irv.exec import Tail, targs
BOUNDED = 'every range of up to 9 indices starting at 0, 1, 3 or 10 with 0 to 4 workers and chunk sizes 0, 1, 2, 3, 7, 100; random ranges up to 900 indices with up to 6 workers; repeated use of the same object; real threads'
ASSUME = ['thread_t::start runs the given function once and thread_t::join waits for it; in the proof the workers run one after the other (any other schedule takes the same chunks from query_chunk, which the mutex makes atomic)', 'std::mutex excludes', 'the body may be called for any index of the range in any order', 'first <= last, and the range is far from the largest representable index', 'not verbose (progress display)']
ORACLE_FLAGS = ['-pthread']
SPECS = []
W = 'worker_t'
HELD, STARTED, JOINED, TAKEN = 0, 8, 16, 24
def ghost(st):
    for oid, o in st.objs.items():
        if isinstance(o, CellObj) and o.name == 'lock-ghost': return oid
def gset(st, k, v): oid = ghost(st); o = st.w(oid); st.lg('cell', oid, k); o.cells[k] = (IntV(v, 64, 0, 1 << 62), 8)
def gget(st, k): return st.objs[ghost(st)].cells[k][0].t
def v_ctor(ex, st, a, dem, i):
    if W not in targs(dem, 'std::vector')[0]: return models.TAB['std::vector::vector'](ex, st, a, dem, i)
    o = ArrObj(16, {8: (KINDS['ptr'], z3.K(I, z3.IntVal(0)))}, 0, 'workers'); o.target = {8: (a[0].obj, 0)}; ex.setvec(st, a[0], st.new(o)); ex.pfor = a[0].obj; ex.bodies = set(); ex.shared = set(); st.new(CellObj(32, 'lock-ghost')); [gset(st, k, 0) for k in (HELD, STARTED, JOINED, TAKEN)]
def v_emplace(ex, st, a, dem, i):
    if W not in targs(dem, 'std::vector')[0]: return models.TAB['std::vector::emplace_back'](ex, st, a, dem, i)
    oid = ex.getvec(st, a[0]); o = st.w(oid)
    if o.target[8] != (a[1].obj, a[1].off): raise Unsupported('worker of another object')
    models.chg(st, oid, length=simp(add(o.len, 1))); assume = models.assume_len(ex, st, o.len)
def t_start(ex, st, a, dem, i):
    ty = targs(dem, 'vif::thread::thread_t::start')[0]
    ops = [n for n, p in algo.functor_ops(ex.mod, ty) if not p and ex.mod.fn(n) is not None]
    ex.bodies.add(ops[0]); gset(st, STARTED, simp(add(gget(st, STARTED), 1)))
    if len(ops) != 1 or len(a) != 2: raise Unsupported('thread body ' + ty)
    return [(st, Tail(ops[0], [a[1]]))]
def now(ex, st, a, dem, i): t = fresh('now', I); st.assume(z3.And(t >= 0, t < 1 << 62)); return [(st, IntV(t, 64, 0, 1 << 62))]
def extremum(op):
    def f(ex, st, a, dem, i):
        if targs(dem, 'std::' + op)[0].strip() != 'unsigned long': raise Unsupported('std::' + op)
        k = KINDS['u64']; x, y = (T(models.elem(ex, st, p, k)) for p in a); r = fresh(op, I)
        st.assume(r == (z3.If(x < y, y, x) if op == 'max' else z3.If(y < x, y, x)))
        o = CellObj(8, 'tmp'); o.cells[0] = (IntV(r, 64, k.lo, k.hi), 8); return [(st, PtrV(st.new(o)))]
    return f
def t_join(ex, st, a, dem, i): gset(st, JOINED, simp(add(gget(st, JOINED), 1)))
def lock(ex, st, a, dem, i):
    if len(a) != 2 or a[1].obj != ex.pfor: raise Unsupported('lock of another mutex')
    ex.obligation(st, cmp('eq', gget(st, HELD), 0), 'ownership', 'the mutex is not locked twice'); gset(st, HELD, 1); gset(st, TAKEN, simp(add(gget(st, TAKEN), 1)))
def mlock(ex, st, a, dem, i): return lock(ex, st, [None, a[0]], dem, i)
def unlock(ex, st, a, dem, i): gset(st, HELD, 0)
def watch(ex, st, p, what):
    """state shared by the workers (written by a thread body) is accessed by thread bodies only under the mutex"""
    if p.obj != getattr(ex, 'pfor', -1) or not any(f.fn.name in ex.bodies for f in st.frames): return
    if what == 'write': ex.shared.add(p.off)
    if p.off in ex.shared: ex.obligation(st, cmp('eq', gget(st, HELD), 1), 'ownership', 'shared state %sn under the mutex' % ('writte' if what == 'write' else 'read i'))
nop = lambda ex, st, a, dem, i: None
EXTRA = {'std::max': extremum('max'), 'std::min': extremum('min'), 'std::vector::vector': v_ctor, 'std::vector::emplace_back': v_emplace, 'vif::thread::thread_t::start': t_start, 'vif::thread::thread_t::join': t_join, 'std::chrono::_V2::system_clock::now': now, 'std::unique_lock::unique_lock': lock, 'std::unique_lock::~unique_lock': unlock, 'std::unique_lock::unlock': unlock, 'std::lock_guard::lock_guard': lock, 'std::lock_guard::~lock_guard': unlock, 'std::mutex::mutex': nop, 'std::mutex::lock': mlock, 'std::mutex::unlock': unlock}
A_ = [Int('w'), Int('chunk')]
val = lambda c, n: c.old[n].val
def pre(c): o = c.old['out']; f = val(c, 'first') if 'first' in c.old else z3.IntVal(0); return [f <= val(c, 'last'), val(c, 'last') <= T(o.len), val(c, 'w') <= 1 << 40, forall(o[K] == 0, pats=[o[K]])]
def post(c): o = c.new['out']; f = val(c, 'first') if 'first' in c.old else z3.IntVal(0); return [('every started thread was joined', T(gget(c.st, STARTED)) == T(gget(c.st, JOINED))), ('size', T(o.len) == T(c.old['out'].len)), ('exactly once for every index of the range', forall(z3.Implies(inr(K, 0, o.len), o[K] == z3.If(inr(K, f, val(c, 'last')), 1, 0))))]
fst = lambda c: val(c, 'first') if 'first' in c.old else z3.IntVal(0)
def h_ran(c, env):
    for A in env.arrs:
        if A.ekind.name != 'u64': continue
        for i in env.ints:
            if i.kind != 'int': continue
            for b in [z3.IntVal(0), fst(c)] + env.outer:
                yield (('ran', str(A), str(i), str(b)), lambda st, A=A, i=i, b=b: z3.ForAll([K], env.val(A, st)[K] == z3.If(inr(K, fst(c), b + T(env.val(i, st))), 1, 0), patterns=[env.val(A, st)[K]]))
    for i in env.ints:
        yield (('bounds', str(i)), lambda st, i=i: inr(T(env.val(i, st)), fst(c), val(c, 'last') + 1), False)
        yield (('positive', str(i)), lambda st, i=i: T(env.val(i, st)) >= 1, False)
        for j in env.ints:
            if i is not j and i.kind == 'int' and j.kind == 'ptr': yield (('counts', str(i), str(j)), lambda st, i=i, j=j: T(env.val(i, st)) == T(env.val(j, st)), False)
            if i is not j and i.kind == 'int' and j.kind == 'ptr': yield (('done', str(i), str(j)), lambda st, i=i, j=j: z3.Or(T(env.val(j, st)) <= 0, T(env.val(i, st)) == val(c, 'last')), False)
            if i is not j and i.kind == 'int' and j.kind == 'int': yield (('chunk', str(i), str(j)), lambda st, i=i, j=j: z3.Or(T(env.val(i, st)) < T(env.val(j, st)), T(env.val(i, st)) == val(c, 'last')), False)
O = Vec('out', 1, 'u64', out=1)
CASES = (('0', lambda c: [val(c, 'w') == 0], 'no worker'), ('c', lambda c: [val(c, 'w') > 0, val(c, 'chunk') == 0], 'workers, default chunks'), ('n', lambda c: [val(c, 'w') > 0, val(c, 'chunk') > 0], 'workers, given chunk size'))
for e, args, doc in (('h_exec', [Int('first'), Int('last')], 'execute(first, last)'), ('h_exec1', [Int('last')], 'execute(last)')):
    for t, p, d in CASES:
        if e + t == 'h_exec1n': continue
        SPECS.append(Spec(e + t, A_ + args + [O], post, pre=lambda c, p=p: pre(c) + p(c), extra_models=EXTRA, hints=[h_ran], opts=dict(terminates=int(t == '0'), lean=1, watch=watch), doc=doc + ', ' + d))
HARNESS_FLAGS = ['-fno-access-control']
def qpre(c): a, b, e, d = (val(c, x) for x in ('i0', 'i1', 'iend', 'di')); return [0 <= a, a <= b, b <= e, e < 1 << 60, 1 <= d, d < 1 << 60, z3.Or(a < b, a == e)]
def qpost(c):
    a, b, e, d = (val(c, x) for x in ('i0', 'i1', 'iend', 'di')); A, B, o0, o1, g = (T(c.new[x].val) for x in ('i0', 'i1', 'o0', 'o1', 'got'))
    return [('refused exactly at the end', (g == 0) == (a == e)), ('nothing taken when refused', z3.Implies(g == 0, A == a)),
            ('the chunk handed out is exactly what is removed from the remaining range, and not empty', z3.Implies(g != 0, z3.And(o0 == a, o1 == A, o0 < o1, o1 <= e))),
            ('taken under a single acquisition of the mutex', T(gget(c.st, TAKEN)) == 1), ('mutex released', T(gget(c.st, HELD)) == 0)]
def watch_q(ex, st, p, what):
    if p.obj != getattr(ex, 'pfor', -1) or not any('query_chunk' in f.fn.name for f in st.frames): return
    if what == 'write': ex.obligation(st, cmp('eq', gget(st, HELD), 1), 'ownership', 'shared state written under the mutex')
SPECS.append(Spec('h_query', [Ref('i0', 'u64', out=1), Ref('i1', 'u64', out=1), Int('iend'), Int('di'), Ref('o0', 'u64', out=1), Ref('o1', 'u64', out=1), Ref('got', 'u64', out=1)], qpost, pre=qpre, extra_models=EXTRA, harness='V16b.cpp', opts=dict(terminates=1, watch=watch_q), doc='query_chunk: a chunk is taken atomically from the remaining range'))
