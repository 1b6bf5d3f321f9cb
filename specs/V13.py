from irv.contract import *
from irv.lib import *
from irv.strings import occ, inset, ssub, AX
BOUNDED = 'every function on all texts over a two- or three-letter alphabet up to length 6 to 8 with all patterns up to length 3, all word numbers -4..4, line lengths 1..9; replace_block, replace_blocks, the text produced by wrap, views and two-dimensional collapse, char and char* overloads only here'
ASSUME = ['std::string members follow their documented postconditions', 'toupper/tolower of the C locale', 'a moved-from std::string is empty', 'a first (last) position with a decidable property exists or not (definitions of the ghost positions)', 'replace_block, replace_blocks and the text produced by wrap: bounded stand-in only', 'word numbers of get_word above -2^31 and below 2^31-1', 'cut: positive line length']
SPECS = []
Q = z3.Int("q"); C = dict(chars=1, terminates=1)
s_ = lambda c: c.old['s'].val; t_ = lambda c: c.old['t'].val; n_ = lambda c: c.old['n'].val
o_ = lambda c: c.new['out'].val
LN = slen
def text(o, n, f, lab='text'):
    """o has n characters, character k is f(k)"""
    return [(lab + ': length', slen(o) == n), (lab + ': characters', forall(z3.Implies(inr(K, 0, n), sch(o, K) == f(K)), pats=[sch(o, K)]))]
mn = lambda a, b: z3.If(a < b, a, b)
OUT = Str('out', out=1)
def S(e, args, post, doc, **k): k.setdefault('opts', C); SPECS.append(Spec(e, args, post, doc=doc, **k))
ret = lambda c: unat(c, c.ret)
rb = lambda c: T(c.ret)
S('h_length', [Str('s')], lambda c: [('length', ret(c) == LN(s_(c)))], 'length')
S('h_empty', [Str('s')], lambda c: [('empty', rb(c) == (LN(s_(c)) == 0))], 'empty')
m_ = lambda c: mn(n_(c), LN(s_(c)))
S('h_keep_first', [Str('s'), Int('n'), OUT], lambda c: text(o_(c), m_(c), lambda k: sch(s_(c), k)), 'keep_first')
S('h_keep_last', [Str('s'), Int('n'), OUT], lambda c: text(o_(c), m_(c), lambda k: sch(s_(c), LN(s_(c)) - m_(c) + k)), 'keep_last')
S('h_erase_begin', [Str('s'), Int('n'), OUT], lambda c: text(o_(c), LN(s_(c)) - m_(c), lambda k: sch(s_(c), m_(c) + k)), 'erase_begin(n)')
S('h_erase_end', [Str('s'), Int('n'), OUT], lambda c: text(o_(c), LN(s_(c)) - m_(c), lambda k: sch(s_(c), k)), 'erase_end(n)')
# prefixes and suffixes
def h_pre(c, env):
    for i in env.ints:
        yield (('prefix agrees', str(i)), lambda st, i=i: z3.ForAll([K], z3.Implies(inr(K, 0, env.val(i, st)), sch(s_(c), K) == sch(t_(c), K)), patterns=[sch(t_(c), K)]))
        yield (('suffix agrees', str(i)), lambda st, i=i: z3.ForAll([K], z3.Implies(z3.And(1 <= K, K < T(env.val(i, st))), sch(s_(c), LN(s_(c)) - K) == sch(t_(c), LN(t_(c)) - K)), patterns=[sch(t_(c), LN(t_(c)) - K)]))
        yield (('suffix agrees k', str(i)), lambda st, i=i: z3.ForAll([K], z3.Implies(z3.And(LN(t_(c)) - T(env.val(i, st)) < K, K < LN(t_(c))), sch(s_(c), LN(s_(c)) - LN(t_(c)) + K) == sch(t_(c), K)), patterns=[sch(t_(c), K)]))
pre_ = lambda s, t: occ(s, t, 0)
suf_ = lambda s, t: z3.And(LN(s) >= LN(t), occ(s, t, LN(s) - LN(t)))
TWO = [Str('s'), Str('t')]
S('h_begins', TWO, lambda c: [('prefix', rb(c) == pre_(s_(c), t_(c)))], 'begins_with', hints=[h_pre])
S('h_ends', TWO, lambda c: [('suffix', rb(c) == suf_(s_(c), t_(c)))], 'ends_with', hints=[h_pre])
S('h_erase_begin_p', TWO + [OUT], lambda c: text(o_(c), LN(s_(c)) - LN(t_(c)), lambda k: sch(s_(c), LN(t_(c)) + k)), 'erase_begin(prefix)', err=lambda c: z3.Not(pre_(s_(c), t_(c))), hints=[h_pre])
S('h_erase_end_p', TWO + [OUT], lambda c: text(o_(c), LN(s_(c)) - LN(t_(c)), lambda k: sch(s_(c), k)), 'erase_end(suffix)', err=lambda c: z3.Not(suf_(s_(c), t_(c))), hints=[h_pre])
# find
def first_occ(s, t, r, lo=0): return z3.Or(z3.And(r == NPOS, forall(z3.Implies(Q >= lo, z3.Not(occ(s, t, Q))), Q, pats=[occ(s, t, Q)])), z3.And(r >= lo, occ(s, t, r), forall(z3.Implies(z3.And(lo <= Q, Q < r), z3.Not(occ(s, t, Q))), Q, pats=[occ(s, t, Q)])))
S('h_find', TWO, lambda c: [('first occurrence, or not found', first_occ(s_(c), t_(c), ret(c)))], 'find')
# distance: number of differing positions
cg = {}
def G(c):
    k = id(c)
    if k not in cg: cg[k] = (c, count('ndiff', lambda j: sch(s_(c), j) != sch(t_(c), j), lambda j: sch(s_(c), j)))
    return cg[k][1]
ab = lambda x: z3.If(x < 0, -x, x)
def h_dist(c, env):
    for i in env.ints:
        for d in env.ints:
            if i is not d: yield (('dist', str(i), str(d)), lambda st, i=i, d=d: T(env.val(d, st)) == ab(LN(s_(c)) - LN(t_(c))) + G(c).f(T(env.val(i, st))))
S('h_distance', TWO, lambda c: [('differing characters plus difference of lengths', ret(c) == ab(LN(s_(c)) - LN(t_(c))) + G(c).f(mn(LN(s_(c)), LN(t_(c)))))], 'distance', ghosts=lambda c: [G(c)], hints=[h_dist])
# trim
class Def(Ghost):
    """ghost functions introduced by an explicit definition (no lemma)"""
    def __init__(s, name, axioms): Ghost.__init__(s, name); s.axioms += axioms
def ends(s, I_, tag=''):
    """[b, e): s without the leading and trailing characters satisfying I_"""
    b, e = z3.Int('first_kept' + tag), z3.Int('end_kept' + tag); n = LN(s)
    return b, e, [0 <= b, b <= e, e <= n, z3.Implies(e < n, I_(sch(s, n-1))), z3.Implies(b > 0, I_(sch(s, 0))), z3.Implies(z3.And(e < n, b < n), I_(sch(s, e))), forall(z3.Implies(z3.Or(inr(K, 0, b), inr(K, e, n)), I_(sch(s, K))), pats=[sch(s, K)]), z3.Or(b == n, z3.And(b < e, z3.Not(I_(sch(s, b))), z3.Not(I_(sch(s, e-1)))))]
def trim_spec(e, args, I_, doc):
    def post(c): b, n, _ = ends(s_(c), lambda x: I_(c, x)); return text(o_(c), n - b, lambda k: sch(s_(c), b + k))
    S(e, args + [OUT], post, doc, ghosts=lambda c: [Def('kept', ends(s_(c), lambda x: I_(c, x))[2])])
trim_spec('h_trim', TWO, lambda c, x: inset(t_(c), x), 'trim(characters)')
trim_spec('h_trim1', [Str('s')], lambda c, x: z3.Or(x == 32, x == 9, x == 10, x == 13), 'trim')
# case
def h_case(f):
    def h(c, env):
        for r in env.strs:
            yield (('length', str(r)), lambda st, r=r: LN(env.val(r, st)) == LN(s_(c)), False)
            for i in env.ints:
                yield (('converted', str(r), str(i)), lambda st, r=r, i=i: z3.ForAll([K], z3.Implies(inr(K, 0, env.val(i, st)), sch(env.val(r, st), K) == f(sch(s_(c), K))), patterns=[sch(env.val(r, st), K)]))
                yield (('left', str(r), str(i)), lambda st, r=r, i=i: z3.ForAll([K], z3.Implies(inr(K, env.val(i, st), LN(s_(c))), sch(env.val(r, st), K) == sch(s_(c), K)), patterns=[sch(env.val(r, st), K)]))
    return h
up = lambda x: z3.If(z3.And(x >= 97, x <= 122), x - 32, x); low = lambda x: z3.If(z3.And(x >= 65, x <= 90), x + 32, x)
for e, f in (('h_upper', up), ('h_lower', low)): S(e, [Str('s'), OUT], lambda c, f=f: text(o_(c), LN(s_(c)), lambda k: f(sch(s_(c), k))), e[2:], hints=[h_case(f)])
# alignment
f_ = lambda c: c.old['f'].val
pad = lambda c: z3.If(n_(c) > LN(s_(c)), n_(c) - LN(s_(c)), 0)
def align(left): return lambda c: text(o_(c), LN(s_(c)) + pad(c), lambda k: z3.If(z3.And(k >= left(c), k < left(c) + LN(s_(c))), sch(s_(c), k - left(c)), f_(c)))
AL = [Str('s'), Int('n'), Int('f', 'i8'), OUT]
fit = lambda c: [n_(c) <= MAXLEN]
S('h_left', AL, align(lambda c: z3.IntVal(0)), 'align_left', pre=fit)
S('h_right', AL, align(pad), 'align_right', pre=fit)
S('h_center', AL, align(lambda c: pad(c) / 2), 'align_center', pre=fit)
# ---- splitting on a pattern: piece k is s[at(k), end(k)), where end(k) is the first occurrence from at(k) on
SV = Vec('out', 1, 'str', out=1)
at = z3.Function('piece_at', I, I); nx = z3.Function('next_occ', I, I)
def end(c, k): return z3.If(nx(at(k)) == NPOS, LN(s_(c)), nx(at(k)))
def g_split(c):
    s, t = s_(c), t_(c); p = z3.Int('p')
    d = Def('pieces', AX + [z3.ForAll([p], z3.Implies(p >= 0, z3.And(nx(p) >= p, z3.Or(nx(p) == NPOS, occ(s, t, nx(p))))), patterns=[nx(p)]),
                       z3.ForAll([p, Q], z3.Implies(z3.And(0 <= p, p <= Q, Q < nx(p)), z3.Not(occ(s, t, Q))), patterns=[z3.MultiPattern(nx(p), occ(s, t, Q))]),
                       at(0) == 0, z3.ForAll([K], z3.Implies(K >= 0, at(K+1) == z3.If(nx(at(K)) == NPOS, NPOS, nx(at(K)) + LN(t))), patterns=[at(K+1)])])
    d.lemma('pieces start inside', lambda k: z3.And(at(k) >= 0, z3.Or(at(k) == NPOS, at(k) <= LN(s))))
    d.axioms.append(z3.ForAll([K], z3.Implies(K >= 0, z3.And(at(K) >= 0, z3.Or(at(K) == NPOS, at(K) <= LN(s)))), patterns=[at(K)]))
    return d
def h_pieces(b, e, more=lambda c, k: z3.BoolVal(True)):
    """strings collected so far are s[b(k), e(k))"""
    def h(c, env):
        for A in env.arrs:
            if A.ekind.sort != STR: continue
            for n in env.ints:
                if n.kind != 'int': continue
                def f(st, A=A, n=n): a = env.val(A, st); return z3.ForAll([K], z3.Implies(inr(K, 0, env.val(n, st)), z3.And(LN(a[K]) == e(c, K) - b(c, K), more(c, K))), patterns=[a[K]])
                def g(st, A=A, n=n): a = env.val(A, st); return z3.ForAll([K, J], z3.Implies(z3.And(inr(K, 0, env.val(n, st)), inr(J, 0, e(c, K) - b(c, K))), sch(a[K], J) == sch(s_(c), b(c, K) + J)), patterns=[sch(a[K], J)])
                yield (('piece lengths', str(A), str(n)), f); yield (('pieces', str(A), str(n)), g)
    return h
def h_at(c, env):
    for n in env.ints:
        yield (('no iteration for an empty pattern', str(n)), lambda st, n=n: z3.Implies(LN(t_(c)) == 0, T(env.val(n, st)) == 0), False)
        for p in env.ints:
            if n is p: continue
            yield (('at', str(n), str(p)), lambda st, n=n, p=p: T(env.val(p, st)) == at(T(env.val(n, st))), True)
        yield (('all found', str(n)), lambda st, n=n: z3.ForAll([K], z3.Implies(inr(K, 0, env.val(n, st)), nx(at(K)) != NPOS), patterns=[at(K)]), True)
def pieces(c, b, e):
    o = c.new['out']; return [('piece lengths', forall(z3.Implies(inr(K, 0, o.len), LN(o[K]) == e(c, K) - b(c, K)), pats=[o[K]])), ('piece characters', forall(z3.Implies(z3.And(inr(K, 0, o.len), inr(J, 0, e(c, K) - b(c, K))), sch(o[K], J) == sch(s_(c), b(c, K) + J)), K, J))]
def split_post(c):
    o = c.new['out']; s, t = s_(c), t_(c); N = T(o.len); B = lambda c, k: at(k); q = z3.Int('qq')
    emp = LN(t) == 0
    whole = [('dimensions', dims_ok(o)), ('at least one piece', N >= 1), ('empty pattern: the whole text', z3.Implies(emp, z3.And(N == 1, LN(o[0]) == LN(s), forall(z3.Implies(inr(J, 0, LN(s)), sch(o[0], J) == sch(s, J)), J))))]
    ps = [(l, z3.Implies(z3.Not(emp), f)) for l, f in pieces(c, B, end)]
    return whole + ps + [('a separator follows every piece but the last', z3.Implies(z3.Not(emp), z3.And(nx(at(N-1)) == NPOS, forall(z3.Implies(inr(K, 0, N-1), z3.And(nx(at(K)) != NPOS, occ(s, t, at(K) + LN(o[K])), at(K+1) == at(K) + LN(o[K]) + LN(t))))))),
                         ('no separator inside a piece', z3.Implies(z3.Not(emp), forall(z3.Implies(z3.And(inr(K, 0, N), inr(q, 0, LN(o[K]))), z3.Not(z3.And(occ(s, t, at(K) + q), q + LN(t) <= LN(o[K])))), K, q)))]
S('h_split', TWO + [SV], split_post, 'split on a pattern', ghosts=lambda c: [g_split(c)], hints=[h_pieces(lambda c, k: at(k), end), h_at])
# ---- words: maximal runs of characters outside a set
wb, we, nn, nf = (z3.Function(n, I, I) for n in ('word_begin', 'word_end', 'next_in_word', 'next_sep'))
def g_words(c):
    s, t = s_(c), t_(c); p = z3.Int('p'); n = LN(s)
    ax = []
    for f, good in ((nn, lambda q: z3.Not(inset(t, sch(s, q)))), (nf, lambda q: inset(t, sch(s, q)))):
        ax += [z3.ForAll([p], z3.Implies(p >= 0, z3.And(f(p) >= p, z3.Or(f(p) == NPOS, z3.And(f(p) < n, good(f(p)))))), patterns=[f(p)]),
               z3.ForAll([p, Q], z3.Implies(z3.And(0 <= p, p <= Q, Q < f(p), Q < n), z3.Not(good(Q))), patterns=[z3.MultiPattern(f(p), sch(s, Q))])]
    ax += [nn(NPOS) == NPOS, nf(NPOS) == NPOS, wb(0) == nn(0), z3.ForAll([K], z3.Implies(K >= 0, z3.And(we(K) == nf(wb(K)))), patterns=[we(K)]), z3.ForAll([K], z3.Implies(K >= 0, wb(K+1) == nn(we(K))), patterns=[wb(K+1)])]
    d = Def('words', ax)
    d.lemma('words begin inside', lambda k: z3.And(wb(k) >= 0, z3.Or(wb(k) == NPOS, wb(k) < n)))
    d.axioms.append(z3.ForAll([K], z3.Implies(K >= 0, z3.And(wb(K) >= 0, z3.Or(wb(K) == NPOS, wb(K) < n), z3.Or(we(K) == NPOS, we(K) <= n))), patterns=[wb(K)]))
    d.lemma('after the last word there is none', lambda k: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J <= k, wb(J) == NPOS), wb(k) == NPOS), patterns=[wb(J)]))
    d.axioms.append(z3.ForAll([J, K], z3.Implies(z3.And(0 <= J, J <= K, wb(J) == NPOS), wb(K) == NPOS), patterns=[z3.MultiPattern(wb(J), wb(K))]))
    d.lemma('a word that reaches the end is the last', lambda k: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k, we(J) == NPOS), wb(k) == NPOS), patterns=[we(J)]))
    d.axioms.append(z3.ForAll([J, K], z3.Implies(z3.And(0 <= J, J < K, we(J) == NPOS), wb(K) == NPOS), patterns=[z3.MultiPattern(we(J), wb(K))]))
    return d
wend = lambda c, k: z3.If(we(k) == NPOS, LN(s_(c)), we(k))
def h_wcount(c, env):
    for n in env.ints: yield (('words counted', str(n)), lambda st, n=n: z3.And(0 <= T(env.val(n, st)), T(env.val(n, st)) <= z3.If(n_(c) < 0, -n_(c), n_(c) + 1)), False)
def h_words(c, env):
    for n in env.ints:
        for p in env.ints:
            if n is p: continue
            yield (('word at', str(n), str(p)), lambda st, n=n, p=p: T(env.val(p, st)) == wb(T(env.val(n, st))), True)
            yield (('end of previous', str(n), str(p)), lambda st, n=n, p=p: T(env.val(p, st)) == z3.If(T(env.val(n, st)) == 0, 0, we(T(env.val(n, st)) - 1)), True)
            yield (('begin of previous', str(n), str(p)), lambda st, n=n, p=p: z3.Or(T(env.val(n, st)) == 0, T(env.val(p, st)) == wb(T(env.val(n, st)) - 1)), True)
            yield (('previous complete', str(n), str(p)), lambda st, n=n, p=p: z3.Or(T(env.val(n, st)) == 0, wb(T(env.val(n, st)) - 1) != NPOS), True)
        yield (('all found', str(n)), lambda st, n=n: z3.ForAll([K], z3.Implies(inr(K, 0, env.val(n, st)), wb(K) != NPOS), patterns=[wb(K)]), True)
        yield (('word definition', str(n)), lambda st, n=n: z3.Or(T(env.val(n, st)) <= 0, wb(T(env.val(n, st))) == nn(we(T(env.val(n, st)) - 1))), True)
def words_post(c):
    o = c.new['out']; N = T(o.len)
    return [('dimensions', dims_ok(o)), ('every word', z3.And(wb(N) == NPOS, forall(z3.Implies(inr(K, 0, N), wb(K) != NPOS))))] + pieces(c, lambda c, k: wb(k), wend)
S('h_split_any', TWO + [SV], words_post, 'split into words', ghosts=lambda c: [g_words(c)], hints=[h_pieces(lambda c, k: wb(k), wend), h_words])
# ---- the n-th word, counted from the start, or from the end when n is negative
lb, le, pn, pf = (z3.Function(n, I, I) for n in ('rword_begin', 'rword_end', 'prev_in_word', 'prev_sep'))
def g_rwords(c):
    """k-th word from the end: s[lb(k)+1, le(k)]; lb(k) is NPOS when it starts the text"""
    s, t = s_(c), t_(c); p = z3.Int('p'); n = LN(s); ax = list(AX)
    for f, good in ((pn, lambda q: z3.Not(inset(t, sch(s, q)))), (pf, lambda q: inset(t, sch(s, q)))):
        ax += [z3.ForAll([p], z3.Implies(p >= 0, z3.Or(f(p) == NPOS, z3.And(0 <= f(p), f(p) <= p, f(p) < n, good(f(p))))), patterns=[f(p)]),
               z3.ForAll([p, Q], z3.Implies(z3.And(0 <= Q, Q <= p, Q < n, z3.Or(f(p) == NPOS, Q > f(p))), z3.Not(good(Q))), patterns=[z3.MultiPattern(f(p), sch(s, Q))])]
    ax += [le(0) == pn(NPOS), z3.ForAll([K], z3.Implies(K >= 0, lb(K) == z3.If(le(K) == NPOS, NPOS, pf(le(K)))), patterns=[lb(K)]), z3.ForAll([K], z3.Implies(K >= 0, le(K+1) == z3.If(lb(K) == NPOS, NPOS, pn(lb(K)))), patterns=[le(K+1)])]
    d = Def('words from the end', ax)
    rng = lambda k: z3.And(z3.Or(le(k) == NPOS, z3.And(0 <= le(k), le(k) < n)), z3.Or(lb(k) == NPOS, z3.And(0 <= lb(k), lb(k) < n)))
    d.lemma('words from the end lie inside', rng); d.axioms += [z3.ForAll([K], z3.Implies(K >= 0, rng(K)), patterns=[le(K)]), z3.ForAll([K], z3.Implies(K >= 0, rng(K)), patterns=[lb(K)])]
    d.lemma('before the first word there is none', lambda k: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J <= k, le(J) == NPOS), le(k) == NPOS), patterns=[le(J)]))
    d.axioms.append(z3.ForAll([J, K], z3.Implies(z3.And(0 <= J, J <= K, le(J) == NPOS), le(K) == NPOS), patterns=[z3.MultiPattern(le(J), le(K))]))
    d.lemma('a word that starts the text is the first', lambda k: z3.ForAll([J], z3.Implies(z3.And(0 <= J, J < k, lb(J) == NPOS), le(k) == NPOS), patterns=[lb(J)]))
    d.axioms.append(z3.ForAll([J, K], z3.Implies(z3.And(0 <= J, J < K, lb(J) == NPOS), le(K) == NPOS), patterns=[z3.MultiPattern(lb(J), le(K))]))
    return d
def h_rwords(c, env):
    for n in env.ints:
        yield (('rprevious is not the first', str(n)), lambda st, n=n: z3.Or(T(env.val(n, st)) <= 0, T(env.val(n, st)) >= -n_(c), lb(T(env.val(n, st)) - 1) != NPOS), True)
        yield (('rword definition', str(n)), lambda st, n=n: z3.Or(T(env.val(n, st)) <= 0, le(T(env.val(n, st))) == z3.If(lb(T(env.val(n, st)) - 1) == NPOS, NPOS, pn(lb(T(env.val(n, st)) - 1)))), True)
        for p in env.ints:
            if n is p: continue
            yield (('rbegin of previous', str(n), str(p)), lambda st, n=n, p=p: T(env.val(p, st)) == z3.If(T(env.val(n, st)) == 0, NPOS, lb(T(env.val(n, st)) - 1)), True)
            yield (('rend of previous', str(n), str(p)), lambda st, n=n, p=p: z3.Or(T(env.val(n, st)) == 0, T(env.val(p, st)) == le(T(env.val(n, st)) - 1)), True)
            yield (('rprevious complete', str(n), str(p)), lambda st, n=n, p=p: z3.Or(T(env.val(n, st)) == 0, le(T(env.val(n, st)) - 1) != NPOS), True)
def word_bounds(c):
    n = n_(c); k = -n - 1
    return z3.If(n >= 0, wb(n), z3.If(lb(k) == NPOS, 0, lb(k) + 1)), z3.If(n >= 0, wend(c, n), le(k) + 1)
def word_post(c): b, e = word_bounds(c); return text(o_(c), e - b, lambda k: sch(s_(c), b + k))
WA = [Str('s'), Int('n', 'i32'), Str('t'), OUT]
S('h_word', WA, word_post, 'get_word, from the start', err=lambda c: wb(n_(c)) == NPOS, pre=lambda c: [n_(c) >= 0, n_(c) < (1 << 31) - 1], ghosts=lambda c: [g_words(c)], hints=[h_words, h_wcount])
S('h_rword', WA, word_post, 'get_word, from the end', err=lambda c: le(-n_(c) - 1) == NPOS, pre=lambda c: [n_(c) < 0, n_(c) > -(1 << 31)], ghosts=lambda c: [g_rwords(c)], hints=[h_rwords, h_wcount])
# ---- concatenation
def join(c, sep=None):
    f = z3.Function('joined_at', I, I); v = c.old['v']; L_ = LN(sep) if sep is not None else z3.IntVal(0)
    d = Def('joined', list(AX) + [f(0) == 0, z3.ForAll([K], z3.Implies(K >= 0, f(K+1) == f(K) + LN(v[K]) + L_), patterns=[f(K+1), z3.MultiPattern(f(K), v[K])])])
    d.lemma('joined non negative', lambda k: f(k) >= 0); d.axioms.append(z3.ForAll([K], z3.Implies(K >= 0, f(K) >= 0), patterns=[f(K)]))
    d.lemma('joined increasing', lambda k: z3.ForAll([J], z3.Implies(inr(J, 0, k), f(J) + LN(v[J]) + L_ <= f(k)), patterns=[v[J]]))
    d.axioms.append(z3.ForAll([J, K], z3.Implies(inr(J, 0, K), f(J) + LN(v[J]) + L_ <= f(K)), patterns=[z3.MultiPattern(v[J], f(K))]))
    d.f = f; d.L = L_; return d
jn = {}
def jg(c, sep):
    k = id(c)
    if k not in jn: jn[k] = (c, join(c, sep))
    return jn[k][1]
def h_join(sep):
    def h(c, env):
        g = jg(c, sep(c)); f = g.f; v = c.old['v']; L_ = g.L; sp = sep(c)
        tot = lambda i: f(i) - z3.If(i > 0, L_, 0)
        for r in env.strs:
            for i in env.ints:
                V = lambda st, r=r: env.val(r, st); N = lambda st, i=i: T(env.val(i, st))
                yield (('jlen', str(r), str(i)), lambda st, V=V, N=N: LN(V(st)) == tot(N(st)), True)
                yield (('jtext', str(r), str(i)), lambda st, V=V, N=N: z3.ForAll([K, J], z3.Implies(z3.And(inr(K, 0, N(st)), inr(J, 0, LN(v[K]))), sch(V(st), f(K) + J) == sch(v[K], J)), patterns=[sch(v[K], J)]))
                if sp is not None: yield (('jsep', str(r), str(i)), lambda st, V=V, N=N: z3.ForAll([K, J], z3.Implies(z3.And(inr(K, 0, N(st) - 1), inr(J, 0, L_)), sch(V(st), f(K) + LN(v[K]) + J) == sch(sp, J)), patterns=[z3.MultiPattern(v[K], sch(sp, J))]))
        for i in env.ints:
            yield (('jdef', str(i)), lambda st, i=i: z3.Or(T(env.val(i, st)) <= 0, f(T(env.val(i, st))) == f(T(env.val(i, st)) - 1) + LN(v[T(env.val(i, st)) - 1]) + L_), True)
            for b in env.bools: yield (('first', str(b), str(i)), lambda st, b=b, i=i: env.val(b, st) == (T(env.val(i, st)) == 0), True)
            for b in env.ints:
                if b is not i: yield (('first', str(b), str(i)), lambda st, b=b, i=i: (T(env.val(b, st)) == 1) == (T(env.val(i, st)) == 0), True)
    return h
def join_post(sep):
    def post(c):
        g = jg(c, sep(c)); f = g.f; v = c.old['v']; L_ = g.L; sp = sep(c); N = T(v.len); o = o_(c)
        r = [('length', LN(o) == f(N) - z3.If(N > 0, L_, 0)), ('texts in order', forall(z3.Implies(z3.And(inr(K, 0, N), inr(J, 0, LN(v[K]))), sch(o, f(K) + J) == sch(v[K], J)), K, J))]
        if sp is not None: r.append(('separators between them', forall(z3.Implies(z3.And(inr(K, 0, N-1), inr(J, 0, L_)), sch(o, f(K) + LN(v[K]) + J) == sch(sp, J)), K, J)))
        return r
    return post
S('h_collapse', [Vec('v', 1, 'str'), OUT], join_post(lambda c: None), 'collapse', ghosts=lambda c: [jg(c, None)], hints=[h_join(lambda c: None)])
S('h_collapse_sep', [Vec('v', 1, 'str'), Str('t'), OUT], join_post(t_), 'collapse with separator', ghosts=lambda c: [jg(c, t_(c))], hints=[h_join(t_)])
# ---- lines of fixed length
cb = lambda c, k: mul(k, n_(c)); ce = lambda c, k: mn(T(mul(k + 1, n_(c))), LN(s_(c)))
def cut_post(c):
    o = c.new['out']; N = T(o.len); n = n_(c)
    return [('dimensions', dims_ok(o)), ('enough lines and no more', z3.And(T(mul(N, n)) >= LN(s_(c)), z3.Or(N == 0, T(mul(N - 1, n)) < LN(s_(c)))))] + pieces(c, cb, ce)
S('h_cut', [Str('s'), Int('n'), SV], cut_post, 'cut', pre=lambda c: [n_(c) > 0], hints=[h_pieces(cb, ce)])
# ---- vectorised forms: each string independently
v_ = lambda c, k: c.old['v'][k]
def vlen(c): o = c.new['out']; return ('dimensions', z3.And(dims_ok(o), T(o.dims[0]) == T(c.old['v'].len)))
def h_v(f):
    """f(c, value, string) holds of every element written so far"""
    def h(c, env):
        for A in env.arrs:
            for i in env.ints:
                def g(st, A=A, i=i): a = env.val(A, st); return z3.ForAll([K], z3.Implies(inr(K, 0, env.val(i, st)), f(c, a[K], v_(c, K))), patterns=[a[K]])
                if A.ekind.sort == STR or A.ekind.w: yield (('done', str(A), str(i)), g)
    return h
def V(e, args, kind, f, doc, only=None, **k):
    ok = lambda A: True
    S(e, [Vec('v', 1, 'str')] + args + [Vec('out', 1, kind, out=1)], lambda c: [vlen(c), ('each element', forall(z3.Implies(inr(K, 0, c.old['v'].len), f(c, c.new['out'][K], v_(c, K)))))], doc, hints=[h_v(lambda c, x, s: f(c, x, s) if (x.sort() == STR) == (kind == 'str') else z3.BoolVal(True))] + k.pop('hints', []), **k)
def txt(o, n, f): return z3.And(LN(o) == n, z3.ForAll([J], z3.Implies(inr(J, 0, n), sch(o, J) == f(J)), patterns=[sch(o, J)]))
V('h_v_length', [], 'u64', lambda c, x, s: x == LN(s), 'length of each string')
V('h_v_keep_first', [Int('n')], 'str', lambda c, x, s: txt(x, mn(n_(c), LN(s)), lambda j: sch(s, j)), 'keep_first of each string')
V('h_v_erase_end', [Int('n')], 'str', lambda c, x, s: txt(x, LN(s) - mn(n_(c), LN(s)), lambda j: sch(s, j)), 'erase_end of each string')
V('h_v_left', [Int('n'), Int('f', 'i8')], 'str', lambda c, x, s: txt(x, z3.If(n_(c) > LN(s), n_(c), LN(s)), lambda j: z3.If(j < LN(s), sch(s, j), f_(c))), 'align_left of each string', pre=fit)
V('h_v_find', [Str('t')], 'u64', lambda c, x, s: first_occ(s, t_(c), x), 'find in each string')
vs = lambda st, env: None
def h_prev(c, env):
    vk = lambda i: c.old['v'][i]
    for i in env.ints:
        for o in env.outer:
            s = vk(o)
            yield (('prefix agrees', str(i), str(o)), lambda st, i=i, s=s: z3.ForAll([K], z3.Implies(inr(K, 0, env.val(i, st)), sch(s, K) == sch(t_(c), K)), patterns=[sch(t_(c), K)]))
            yield (('suffix agrees', str(i), str(o)), lambda st, i=i, s=s: z3.ForAll([K], z3.Implies(z3.And(1 <= K, K < T(env.val(i, st))), sch(s, LN(s) - K) == sch(t_(c), LN(t_(c)) - K)), patterns=[sch(t_(c), LN(t_(c)) - K)]))
            yield (('suffix agrees k', str(i), str(o)), lambda st, i=i, s=s: z3.ForAll([K], z3.Implies(z3.And(LN(t_(c)) - T(env.val(i, st)) < K, K < LN(t_(c))), sch(s, LN(s) - LN(t_(c)) + K) == sch(t_(c), K)), patterns=[sch(t_(c), K)]))
V('h_v_begins', [Str('t')], 'bool', lambda c, x, s: (x != 0) == pre_(s, t_(c)), 'begins_with of each string', hints=[h_prev])
V('h_v_ends', [Str('t')], 'bool', lambda c, x, s: (x != 0) == suf_(s, t_(c)), 'ends_with of each string', hints=[h_prev])
# ---- replacement. Scanning from the left: rm(x) characters of an occurrence remain to be skipped at x, ro(x) characters written so far
rm, ro = z3.Function('rem', I, I), z3.Function('written', I, I)
r_ = lambda c: c.old['r'].val
hit = lambda c, x: z3.And(rm(x) == 0, occ(s_(c), t_(c), x))
def g_rep(c):
    s, t, r = s_(c), t_(c), r_(c); x, y = z3.Int('x'), z3.Int('y'); n = LN(s)
    rs = lambda x: rm(x+1) == z3.If(rm(x) > 0, rm(x) - 1, z3.If(occ(s, t, x), LN(t) - 1, 0))
    os = lambda x: ro(x+1) == z3.If(rm(x) > 0, ro(x), ro(x) + z3.If(occ(s, t, x), LN(r), 1))
    d = Def('replaced', list(AX) + [LN(t) > 0, rm(0) == 0, ro(0) == 0, z3.ForAll([x], z3.Implies(x >= 0, z3.And(rs(x), os(x))), patterns=[rm(x+1), ro(x+1), z3.MultiPattern(rm(x), occ(s, t, x))])])
    P = lambda x: z3.And(rm(x) >= 0, ro(x) >= 0); d.lemma('non negative', P); d.axioms.append(z3.ForAll([x], z3.Implies(x >= 0, P(x)), patterns=[rm(x)])); d.axioms.append(z3.ForAll([x], z3.Implies(x >= 0, P(x)), patterns=[ro(x)]))
    # inside an occurrence
    inn = lambda j: z3.ForAll([x], z3.Implies(z3.And(0 <= x, hit(c, x), j < LN(t)), z3.And(rm(x+j+1) == LN(t) - 1 - j, ro(x+j+1) == ro(x) + LN(r))), patterns=[occ(s, t, x)])
    d.lemma('inside an occurrence', inn); d.axioms.append(nx(0) >= 0)
    d.axioms.append(z3.ForAll([x], z3.Implies(z3.And(0 <= x, hit(c, x)), z3.And(rm(x + LN(t)) == 0, ro(x + LN(t)) == ro(x) + LN(r))) , patterns=[occ(s, t, x)]))
    d.axioms.append(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, hit(c, x), x < y, y < x + LN(t)), rm(y) > 0), patterns=[z3.MultiPattern(occ(s, t, x), rm(y))]))
    # a stretch without occurrence: nx(x) is the first occurrence from x on, or the end
    p = z3.Int('p')
    d.axioms += [z3.ForAll([p], z3.Implies(z3.And(p >= 0, p <= n), z3.And(nx(p) >= p, nx(p) <= n, z3.Or(nx(p) == n, occ(s, t, nx(p))))), patterns=[nx(p)]),
                 z3.ForAll([p, Q], z3.Implies(z3.And(0 <= p, p <= Q, Q < nx(p)), z3.Not(occ(s, t, Q))), patterns=[z3.MultiPattern(nx(p), occ(s, t, Q))])]
    st_ = lambda y: z3.ForAll([x], z3.Implies(z3.And(0 <= x, x <= y, rm(x) == 0, x <= n, y <= nx(x)), z3.And(rm(y) == 0, ro(y) == ro(x) + y - x)), patterns=[nx(x)])
    d.lemma('a stretch without occurrence', st_)
    d.axioms.append(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, rm(x) == 0, x <= n, y <= nx(x)), z3.And(rm(y) == 0, ro(y) == ro(x) + y - x)), patterns=[z3.MultiPattern(nx(x), rm(y)), z3.MultiPattern(nx(x), ro(y))]))
    mo = lambda y: z3.ForAll([x], z3.Implies(z3.And(0 <= x, x <= y), z3.And(ro(x) <= ro(y), z3.Implies(z3.And(x < y, rm(x) == 0), ro(x) + z3.If(occ(s, t, x), LN(r), 1) <= ro(y)))), patterns=[ro(x)])
    d.lemma('written increases', mo)
    d.axioms.append(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y), z3.And(ro(x) <= ro(y), z3.Implies(z3.And(x < y, rm(x) == 0), ro(x) + z3.If(occ(s, t, x), LN(r), 1) <= ro(y)))), patterns=[z3.MultiPattern(ro(x), ro(y), occ(s, t, x))]))
    d.axioms.append(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y), ro(x) <= ro(y)), patterns=[z3.MultiPattern(ro(x), ro(y))]))
    return d
def done_to(c, o, X, pat=None):
    x = z3.Int('x'); s, r = s_(c), r_(c)
    return [z3.ForAll([x], z3.Implies(z3.And(inr(x, 0, X), rm(x) == 0, z3.Not(occ(s, t_(c), x))), sch(o, ro(x)) == sch(s, x)), patterns=[z3.MultiPattern(ro(x), occ(s, t_(c), x))]),
            z3.ForAll([x, J], z3.Implies(z3.And(inr(x, 0, X), rm(x) == 0, occ(s, t_(c), x), inr(J, 0, LN(r))), sch(o, ro(x) + J) == sch(r, J)), patterns=[z3.MultiPattern(ro(x), occ(s, t_(c), x), sch(r, J))])]
def h_rep(c, env):
    n = LN(s_(c))
    for o in env.strs:
        for p in env.ints:
            V_ = lambda st, o=o: env.val(o, st); P = lambda st, p=p: T(env.val(p, st)); X = lambda st, V_=V_, P=P: P(st) - LN(V_(st)) + n
            fin = lambda st, P=P: P(st) == NPOS
            g = lambda f, fin=fin: (lambda st: z3.Implies(z3.Not(fin(st)), f(st)))
            yield (('position', str(o), str(p)), g(lambda st, X=X, P=P: z3.And(0 <= X(st), X(st) <= n, rm(X(st)) == 0, ro(X(st)) == P(st), occ(s_(c), t_(c), X(st)), nx(X(st) + LN(t_(c))) >= 0)), True)
            yield (('fits', str(o), str(p)), g(lambda st, X=X, P=P, V_=V_: z3.And(P(st) + LN(t_(c)) <= LN(V_(st)), X(st) >= 0)), False)
            yield (('rest', str(o), str(p)), g(lambda st, X=X, P=P, V_=V_: z3.ForAll([K], z3.Implies(inr(K, P(st), LN(V_(st))), sch(V_(st), K) == sch(s_(c), K - P(st) + X(st))), patterns=[sch(V_(st), K)])), True)
            yield (('same occurrences', str(o), str(p)), g(lambda st, X=X, P=P, V_=V_: z3.And(z3.ForAll([K], z3.Implies(K >= P(st), occ(V_(st), t_(c), K) == occ(s_(c), t_(c), K - P(st) + X(st))), patterns=[occ(V_(st), t_(c), K)]), z3.ForAll([K], z3.Implies(K >= X(st), occ(V_(st), t_(c), K + P(st) - X(st)) == occ(s_(c), t_(c), K)), patterns=[occ(s_(c), t_(c), K)]))), True)
            for q in (0, 1): yield (('done%d' % q, str(o), str(p)), g(lambda st, X=X, V_=V_, q=q: done_to(c, V_(st), X(st))[q]), True)
            yield (('finished', str(o), str(p)), lambda st, fin=fin, V_=V_: z3.Implies(fin(st), LN(V_(st)) == ro(n)), True)
            for q in (0, 1): yield (('finished%d' % q, str(o), str(p)), lambda st, fin=fin, V_=V_, q=q: z3.Implies(fin(st), done_to(c, V_(st), n)[q]), True)
def rep_post(c): o = o_(c); a, b = done_to(c, o, LN(s_(c))); return [('length', LN(o) == ro(LN(s_(c)))), ('text between occurrences', a), ('replacements', b)]
THREE = TWO + [Str('r'), OUT]
S('h_replace', THREE, rep_post, 'replace', pre=lambda c: [LN(t_(c)) > 0], ghosts=lambda c: [g_rep(c)], hints=[h_rep])
S('h_replace0', THREE, lambda c: text(o_(c), LN(s_(c)), lambda k: sch(s_(c), k)), 'replace, empty pattern', pre=lambda c: [LN(t_(c)) == 0])
S('h_wrap', [Str('s'), Int('n'), Str('t'), SV], lambda c: [('dimensions', dims_ok(c.new['out']))], 'wrap: reads inside the text only, terminates')
