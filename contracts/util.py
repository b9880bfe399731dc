"""Contracts of source/util.cpp: text helpers, names, the file writer, documentation strings."""
from cxxv.terms import *
from cxxv.spec import contract, REG
from cxxv.models import SYSTEM, OPENFAIL
from cxxv.conc import PY
from . import config
import z3, re

L = LT(TSTR)
Len = z3.Length
T3 = [STR, STR, STR]


# ------------------------------------------------------------------ replace: left to right, every occurrence, once
def repl_def(s, f, t, p):
    """the first occurrence at or after p is replaced; what was put in is not looked at again"""
    i = z3.IndexOf(s, f, p)
    return z3.If(i < 0, s, REPLF(cat(z3.SubString(s, 0, i), t, z3.SubString(s, i + Len(f), Len(s))), f, t, i + Len(t)))


REPLF = SpecFun('replace_all_from', T3 + [INT], STR, repl_def)
PY['replace_all_from'] = lambda s, f, t, p: s[:p] + s[p:].replace(f, t) if f else s


def REPL(s, f, t): return REPLF(s, f, t, z3.IntVal(0))


def tail_invariant(F, value, find=None):
    """F(variable, ..., position) keeps the value it had at entry"""
    def inv(ex, leaves):
        ints = [x for x, (so, _) in leaves.items() if so == INT]
        strs = [x for x, (so, _) in leaves.items() if so == STR]
        for i in ints:
            for r in strs:
                yield 'rest of the text', lambda env, i=i, r=r: F(env[r], env[i]) == value
                if find is not None:    # the position is already that of the next occurrence, or npos
                    yield 'rest of the text, occurrence found', lambda env, i=i, r=r: z3.If(env[i] == NPOS, env[r] == value, z3.And(find(env[r], env[i]) == env[i], F(env[r], env[i]) == value))
    return inv


def first_occurrence(t, new):
    """the first occurrence at or after p is also the first at or after itself (a fact about strings)"""
    if t.decl().kind() == z3.Z3_OP_SEQ_INDEX and t.num_args() == 3:
        a, b, p = t.children()
        if not (z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_INDEX): new.append(z3.Implies(t >= 0, z3.IndexOf(a, b, t) == t))


@contract('replace', props=['C11', 'C17'])
def _(k):
    k.axiom(first_occurrence)
    s, f, t = k[0], k[1], k[2]
    k.requires(f != S(''))
    k.final(0, REPL(s, f, t))
    k.reveal(REPLF)
    k.invariant(tail_invariant(lambda r, i: REPLF(r, f, t, i), REPL(s, f, t), lambda r, i: z3.IndexOf(r, f, i)))


@contract('replace_', props=['C11', 'C17'])
def _(k):
    k.requires(k[1] != S(''))
    k.result(REPL(k[0], k[1], k[2]))


# ------------------------------------------------------------------ split / indent  (one-character separators)
SPLIT_CUR = Fold('split_current', [STR, STR], STR, lambda s, c: S(''), lambda s, c, i, a: z3.If(charat(s, i) == c, S(''), cat(a, charat(s, i))))
SPLIT_L = Fold('split_lines', [STR, STR], L.sort, lambda s, c: L.nil, lambda s, c, i, a: z3.If(charat(s, i) == c, L.snoc(a, SPLIT_CUR(s, c, i)), a))
SPLIT = SpecFun('split', [STR, STR], L.sort, lambda s, c: z3.If(Len(SPLIT_CUR(s, c, Len(s))) > 0, L.snoc(SPLIT_L(s, c, Len(s)), SPLIT_CUR(s, c, Len(s))), SPLIT_L(s, c, Len(s))))


def _py_split(s, c):
    r = s.split(c)
    if r[-1] == '': r.pop()
    return tuple(r)


PY['split'] = _py_split


@contract('split', props=['C07'])
def _(k):
    k.requires(Len(k[1]) == 1)
    k.assume(Len(k[0]) < 2 ** 32, 'no string is 4 GiB long or longer')
    k.result(SPLIT(k[0], k[1]))
    k.reveal(SPLIT)


INDENT_L = Fold('indent_lines', [L.sort, STR], STR, lambda l, p: S(''), lambda l, p, i, a: cat(a, z3.If(Len(L.at(l, i)) > 0, cat(p, L.at(l, i), S('\n')), cat(L.at(l, i), S('\n')))))


def INDENT(s, p): return INDENT_L(SPLIT(s, S('\n')), p, L.len(SPLIT(s, S('\n'))))


@contract('indent', props=['C06'])
def _(k):
    k.assume(Len(k[0]) < 2 ** 32, 'no string is 4 GiB long or longer')
    k.result(INDENT(k[0], k[1]))


# ------------------------------------------------------------------ C17 names
def base_ns(ns):
    f = z3.LastIndexOf(ns, S('::'))
    return z3.If(f < 0, S(''), z3.SubString(ns, 0, f))


def last_ns(ns):
    f = z3.LastIndexOf(ns, S('::'))
    return z3.If(f < 0, ns, z3.SubString(ns, f + 2, Len(ns) - f - 2))


BASE_NS = SpecFun('base_namespace', [STR], STR, base_ns)
LAST_NS = SpecFun('last_namespace', [STR], STR, last_ns)


@contract('base_namespace', props=['C17', 'C05'])
def _(k):
    k.result(BASE_NS(k[0]))
    k.reveal(BASE_NS)


@contract('last_namespace', props=['C17', 'C05'])
def _(k):
    k.result(LAST_NS(k[0]))
    k.reveal(LAST_NS)


SPECIAL = [' ', '<', '>', ',', ':']
MANGLE = Fold('mangle_chars', [STR], STR, lambda s: S(''), lambda s, i, a: z3.If(z3.Or(*[charat(s, i) == S(c) for c in SPECIAL]), z3.If(z3.Or(a == S(''), z3.Not(z3.SuffixOf(S('_'), a))), cat(a, S('_')), a), cat(a, charat(s, i))))
TEMPL = Exists('has_template_marks', [STR], lambda s, i: z3.Or(*[charat(s, i) == S(c) for c in '<>,']))


def mangled(s, mark):
    m = MANGLE(s, Len(s))
    return z3.If(z3.And(TEMPL(s, Len(s)), mark), cat(REPL(REPL(m, S('*'), S('_star_')), S('&'), S('_ref_')), S('t')), m)


MANGLED = SpecFun('mangled_name', [STR, z3.BoolSort()], STR, mangled)


@contract('mangle_type_name', props=['C17'])
def _(k):
    k.result(MANGLED(k[0], k[1])); k.reveal(MANGLED)


# _Bool as a whole word becomes bool
def idchar(c): return z3.Or(isalpha(c), isdigit(c), c == S('_'))


def bool_word(s, i):
    n = Len(s)
    return z3.And(z3.Or(i == 0, z3.Not(idchar(charat(s, i - 1)))), z3.Or(i + 5 == n, z3.Not(idchar(charat(s, i + 5)))))


def fixb_def(s, p):
    i = z3.IndexOf(s, S('_Bool'), p)
    return z3.If(i < 0, s, FIXB(z3.If(bool_word(s, i), cat(z3.SubString(s, 0, i), S('bool'), z3.SubString(s, i + 5, Len(s))), s), i + 1))


FIXB = SpecFun('fix_bool_from', [STR, INT], STR, fixb_def)
PY['fix_bool_from'] = lambda s, p: s[:p] + re.sub(r'(?<![A-Za-z0-9_])_Bool(?![A-Za-z0-9_])', 'bool', s)[p:] if p == 0 else None


@contract('fix_boolean_types', props=['C17'])
def _(k):
    s = k[0]
    k.final(0, FIXB(s, z3.IntVal(0)))
    k.reveal(FIXB)

    k.invariant(tail_invariant(FIXB, FIXB(s, z3.IntVal(0))))


# ------------------------------------------------------------------ C07 output files
PATH = Fold('dir_path', [STR, L.sort], STR, lambda p, l: p, lambda p, l, i, a: cat(a, S('/'), L.at(l, i)))


def split_not_empty(t, new):
    """definition of split, one step back from the end of the text: so a text that is not empty has at least one part"""
    if t.decl().eq(SPLIT.f):
        s, c = t.children()
        new.append(t == SPLIT.define(s, c))
        new.append(z3.Implies(Len(s) > 0, z3.And(SPLIT_CUR(s, c, Len(s)) == SPLIT_CUR.at_succ([s, c], Len(s) - 1), SPLIT_L(s, c, Len(s)) == SPLIT_L.at_succ([s, c], Len(s) - 1), Len(charat(s, Len(s) - 1)) == 1)))


@contract('update_source_file', props=['C07'])
def _(k):
    prefix, name, code = k[0], k[1], k[2]
    k.requires(name != S(''))
    k.axiom(split_not_empty)
    k.assume(Len(name) < 2 ** 32, 'no string is 4 GiB long or longer')
    full = cat(prefix, S('/'), name)
    dirs = L.pop(SPLIT(name, S('/')))
    cmd = cat(S('mkdir -p '), PATH(prefix, dirs, L.len(dirs)))
    st = k.ex.st.store
    fs, w, cmds = st.get('fs') or named(('map', TSTR, TSTR), 'FS'), st.get('fsw') or named(('set', TSTR), 'FSW'), st['cmds'].t if 'cmds' in st else L.nil
    old = z3.If(z3.Select(fs.t[0], full), z3.Select(fs.t[1], full), S(''))
    write = old != code
    k.raises(z3.Or(SYSTEM(cmd) != 0, z3.And(write, OPENFAIL(full))))
    k.set_store('fs', V(fs.td, (z3.If(write, z3.Store(fs.t[0], full, z3.BoolVal(True)), fs.t[0]), z3.If(write, z3.Store(fs.t[1], full, code), fs.t[1]))))
    k.set_store('fsw', V(w.td, z3.If(write, z3.Store(w.t, full, z3.BoolVal(True)), w.t)))
    k.set_store('cmds', V(('vec', TSTR), L.snoc(cmds, cmd)))
