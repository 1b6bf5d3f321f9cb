from irv.contract import *
from irv.lib import *
from irv.strings import AX
from specs.V13 import Def, text, ends, txt, LN, s_, o_
BOUNDED = 'all functions on all paths up to 7 characters over separator, letter, dot and blank (up to 5 with tabs and newlines), their consistency and their vectorised forms'
ASSUME = ['std::string members follow their documented postconditions', 'a last position with a decidable property exists or not (definitions of the ghost positions)', 'functions that reach the file system (exists, copy, remove, mkdir, listing) are not covered']
SPECS = []
SL, DOT, BL = 47, 46, 32
OUT = Str('out', out=1)
def S(e, args, post, doc, **k): SPECS.append(Spec(e, args, post, doc=doc, opts=dict(chars=1, terminates=1), **k))
_k = z3.Int('k')
_s = z3.Const('ps', STR)
def last(name, good):
    """name(s, e): last position at or before e of a character of s satisfying good, or NPOS"""
    f = z3.Function(name, STR, I, I); p, q = z3.Int('p'), z3.Int('q'); n = LN(_s); v = f(_s, p)
    return f, [z3.ForAll([_s, p], z3.Implies(p >= 0, z3.Or(v == NPOS, z3.And(0 <= v, v <= p, v < n, good(sch(_s, v))))), patterns=[v]),
               z3.ForAll([_s, p, q], z3.Implies(z3.And(0 <= q, q <= p, q < n, z3.Or(v == NPOS, q > v)), z3.Not(good(sch(_s, q)))), patterns=[z3.MultiPattern(v, sch(_s, q))])]
lb, A1 = last('last_not_blank', lambda c: c != BL); ls, A2 = last('last_sep', lambda c: c == SL); ln, A3 = last('last_not_sep', lambda c: c != SL); ld, A4 = last('last_dot', lambda c: c == DOT)
DEFS = list(AX) + A1 + A2 + A3 + A4
class Path:
    """decomposition of a path"""
    def __init__(p, s):
        n = LN(s); p.s = s; p.n = n
        p.b = lb(s, NPOS); p.isdir = z3.And(p.b != NPOS, sch(s, p.b) == SL)
        nm = ln(s, p.b)
        p.e = z3.If(p.isdir, nm, n - 1)                      # last character of the name
        p.root = z3.And(p.isdir, nm == NPOS)
        p.sep = z3.If(p.isdir, ls(s, nm), ls(s, NPOS)); p.nosep = p.sep == NPOS
        p.start = z3.If(p.nosep, 0, p.sep + 1)
        p.dot = ld(s, NPOS)
def dirnm(p, o):
    return z3.If(p.root, z3.And(LN(o) == 1, sch(o, 0) == SL), z3.If(p.nosep, z3.And(LN(o) == 2, sch(o, 0) == DOT, sch(o, 1) == SL), txt(o, p.sep + 1, lambda j: sch(p.s, j))))
def basenm(p, o): return z3.If(p.root, z3.And(LN(o) == 1, sch(o, 0) == SL), txt(o, p.e + 1 - p.start, lambda j: sch(p.s, p.start + j)))
P = lambda c: Path(s_(c))
gh = lambda c: [Def('path', DEFS)]
S('h_base', [Str('s'), OUT], lambda c: [('base name', basenm(P(c), o_(c)), 1), ('no separator in the base name', z3.Or(P(c).root, forall(z3.Implies(inr(K, 0, LN(o_(c))), sch(o_(c), K) != SL))))], 'get_basename', ghosts=gh)
S('h_dir', [Str('s'), OUT], lambda c: [('directory', dirnm(P(c), o_(c)), 1), ('ends with a separator', z3.And(LN(o_(c)) > 0, sch(o_(c), LN(o_(c)) - 1) == SL))], 'get_directory', ghosts=gh)
blank = lambda x: z3.Or(x == 32, x == 9, x == 10, x == 13)
def dz(s, b, e, o): n = e - b; return z3.If(n == 0, LN(o) == 0, z3.If(sch(s, e-1) == SL, txt(o, n, lambda j: sch(s, b + j)), z3.And(txt(o, n + 1, lambda j: z3.If(j < n, sch(s, b + j), SL)))))
def dirize_post(c): b, e, _ = ends(s_(c), blank); return [('trimmed, with a trailing separator', dz(s_(c), b, e, o_(c)))]
S('h_dirize', [Str('s'), OUT], dirize_post, 'directorize', ghosts=lambda c: [Def('kept', ends(s_(c), blank)[2])])
fn = z3.Int('first_not_blank')
def fnax(s, f): return [0 <= f, f <= LN(s), forall(z3.Implies(inr(K, 0, f), z3.Or(sch(s, K) == 32, sch(s, K) == 9)), pats=[sch(s, K)]), z3.Or(f == LN(s), z3.And(sch(s, f) != 32, sch(s, f) != 9))]
S('h_abs', [Str('s')], lambda c: [('starts with a separator', T(c.ret) == z3.And(fn < LN(s_(c)), sch(s_(c), fn) == SL))], 'is_absolute_path', ghosts=lambda c: [Def('start', AX + fnax(s_(c), fn))])
cutpos = lambda p: z3.If(p.dot == NPOS, p.n, p.dot)
rmext = lambda p, o: txt(o, cutpos(p), lambda j: sch(p.s, j)); ext = lambda p, o: txt(o, p.n - cutpos(p), lambda j: sch(p.s, cutpos(p) + j))
S('h_rmext', [Str('s'), OUT], lambda c: [('text before the last dot', rmext(P(c), o_(c)))], 'remove_extension', ghosts=gh)
S('h_ext', [Str('s'), OUT], lambda c: [('text from the last dot on', ext(P(c), o_(c)))], 'get_extension', ghosts=gh)
S('h_splitext', [Str('s'), OUT, Str('t', out=1)], lambda c: [('text before the last dot', rmext(P(c), o_(c))), ('text from the last dot on', ext(P(c), c.new['t'].val))], 'split_extension', ghosts=gh)
S('h_recompose', [Str('s'), OUT], lambda c: text(o_(c), LN(s_(c)), lambda k: sch(s_(c), k)), 'removing the extension and appending it gives back the path', ghosts=gh)
# ---- vectorised forms: each path independently
from specs.V13 import h_v, vlen, v_
def V(e, kind, f, doc):
    S(e, [Vec('v', 1, 'str'), Vec('out', 1, kind, out=1)], lambda c: [vlen(c), ('each element', forall(z3.Implies(inr(K, 0, c.old['v'].len), f(c.new['out'][K], v_(c, K)))))], doc, ghosts=lambda c: [Def('path', DEFS)], hints=[h_v(lambda c, x, s: f(x, s) if (x.sort() == STR) == (kind == 'str') else z3.BoolVal(True))])
V('h_v_ext', 'str', lambda x, s: ext(Path(s), x), 'get_extension of each path')
V('h_v_rmext', 'str', lambda x, s: rmext(Path(s), x), 'remove_extension of each path')
V('h_v_base', 'str', lambda x, s: basenm(Path(s), x), 'get_basename of each path')
V('h_v_dir', 'str', lambda x, s: dirnm(Path(s), x), 'get_directory of each path')
