"""Contract of Context::generate: grouping of the bindings into files and functions, and the root module."""
from .inc import *
from .util import SPLIT, PATH
import itertools

from cxxv.models import OPENFAIL
MI, MIs = ('map', TSTR, TINT), pair_sort_map(TSTR, TINT)
ASB, ASI, ASS = z3.ArraySort(STR, BOOL), z3.ArraySort(STR, INT), z3.ArraySort(STR, STR)
HLs = z3.ArraySort(Ref, RL.sort)
def opt(n): return pack(named(TBOOL, n))


FLAT, SINGLE, TRACE = opt('O_flat'), opt('O_single_file'), opt('O_trace')
ROOT, PREFIX_DIR, MAXLEN = CFG('root_module', TSTR), CFG('prefix', TSTR), CFG('maximum_file_length', TSIZE)
SUFFIX = S('(std::function< pybind11::module &(std::string const &namespace_) > &M)')


def record(name, fields):
    d = z3.Datatype(name)
    d.declare('mk_' + name, *[(name + '_' + f, s) for f, s in fields])
    d = d.create()
    return d, d.constructor(0), {f: d.accessor(0, i) for i, (f, _) in enumerate(fields)}


# ------------------------------------------------------------------ what the virtual functions of a binder give here
PFX_B = z3.Function('prefix_code_of_binder', Ref, STR, STR)
INC_B = z3.Function('includes_for_binder', ISs, Ref, RL.sort, ISs)


@contract('Binder::prefix_code', ret=TSTR, trusted='virtual; the override of ClassBinder returns the prefix code its bind() generated, the others none')
def _(k): k.result(PFX_B(k.this, z3.Select(k.heap('prefix_code_', TSTR), k.this)))


@contract('Binder::add_relevant_includes', ret=TVOID, trusted='virtual; each override is under contract')
def _(k): k.final(0, INC_B(k[0], k.this, z3.Select(k.heap('prefix_includes_', TV), k.this)))


# ------------------------------------------------------------------ one group: consecutive binders of one namespace
GS = [('i', INT), ('code', STR), ('pre', STR), ('inc', ISs), ('tc', INT)]
Gs, GMK, G = record('Group', GS)
PAR = [RL.sort, HSs, HSs, HLs]         # binders, code, prefix code, prefix includes


def group(l, HC, HP, HI, ns, skip, i, code, pre, inc, tc):
    go = z3.And(z3.Or(z3.Length(code) == 0, z3.Length(code) < MAXLEN), i < RL.len(l), ns == NSOF(NAMED(RL.at(l, i))))
    b = RL.at(l, i)
    c1 = z3.If(TRACE, cat(code, '\tstd::cout << "B', itos(tc + 1), '_[', ID(b), ']" << std::endl;\n'), code)
    i1 = MK(z3.If(TRACE, L.snoc(INC(inc), z3.If(ANN, S('<iostream> // --trace'), S('<iostream>'))), INC(inc)), VIS(inc), DEP(inc))
    has = z3.Length(z3.Select(HC, b)) != 0
    nxt = GROUP(l, HC, HP, HI, ns, skip, i + 1, z3.If(skip, code, z3.If(has, cat(c1, z3.Select(HC, b)), c1)), z3.If(skip, pre, cat(pre, PFX_B(b, z3.Select(HP, b)))),
                z3.If(skip, inc, z3.If(has, INC_B(i1, b, z3.Select(HI, b)), i1)), z3.If(z3.And(z3.Not(skip), TRACE), tc + 1, tc))
    return z3.If(go, nxt, GMK(i, code, pre, inc, tc))


GROUP = SpecFun('group_of_bindings', PAR + [STR, BOOL] + [s for _, s in GS], Gs, group)
GROUP.tail = True

# ------------------------------------------------------------------ a file name and a function name nothing else has
NS_ = [('file', STR), ('fun', STR), ('fd', ASB), ('fv', ASI)]
Ns, NMK, N = record('FileName', NS_)
def fun_name(f): return cat('bind_', REPL(f, S('/'), S('_')))
def cur(d, v, k): return z3.If(z3.Select(d, k), z3.Select(v, k), z3.IntVal(0))


def free_name(np, funs, file, fun, fd, fv):
    taken = z3.Or(file == ROOT, contains(TSTR, funs, fun))
    f1 = cat(np, z3.If(FLAT, S(''), S('_')), itos(cur(fd, fv, np)))
    return z3.If(taken, FREE(np, funs, f1, fun_name(f1), z3.Store(fd, np, True), z3.Store(fv, np, cur(fd, fv, np) + 1)), NMK(file, fun, fd, fv))


FREE = SpecFun('free_file_name', [STR, L.sort] + [s for _, s in NS_], Ns, free_name)
FREE.tail = True

# ------------------------------------------------------------------ all groups
MS = [('i', INT), ('fd', ASB), ('fv', ASI), ('nd', ASB), ('nv', ASI), ('src', L.sort), ('fun', L.sort), ('d', ASB), ('v', ASS), ('w', ASB), ('cmd', L.sort), ('tc', INT)]
Ms, MMK, M = record('Output', MS[1:])
TEMPLATE = """
#include <functional>
{0}
#include <string>
{1}
#ifndef BINDER_PYBIND11_TYPE_CASTER
	#define BINDER_PYBIND11_TYPE_CASTER
	{2}
	PYBIND11_DECLARE_HOLDER_TYPE(T, T*, false)
	{3}
#endif

"""


def fill(t, *xs):
    import re
    out = []
    for p in re.split(r'(\{\d\}|\{\{|\}\})', t):
        out.append(xs[int(p[1])] if re.match(r'\{\d\}$', p) else p[:1] if p in ('{{', '}}') else p)
    return cat(*out)


PYB = cat('#include <', CFG('pybind11_include_file_', TSTR), '>')
HOLDER = CFG('holder_type_', TSTR)
CFGI = CFG('includes_to_add', ('vec', TSTR))
from .config import INC_TEXT
INC_ALL = cat(INC_TEXT(CFGI, L.len(CFGI)), z3.If(opt('O_include_pybind11_stl'), S('#include <pybind11/stl.h>\n'), S('')))
INC_CODE = z3.If(INC_ALL == S(''), S(''), cat(INC_ALL, '\n'))
def header(): return fill(TEMPLATE, PYB, INC_CODE, cat('PYBIND11_DECLARE_HOLDER_TYPE(T, ', HOLDER, '<T>, false)'), cat('PYBIND11_MAKE_OPAQUE(', HOLDER, '<void>)'))
NSI, BNS, ANS = CFG('namespace_includes_', MVS), CFG('binder_for_namespaces_', MSS_), CFG('add_on_binder_for_namespaces_', MSS_)
ROOTFILE = cat(PREFIX_DIR, '/', ROOT, '.cpp')
USER_NSI = Fold('includes_configured_for_namespace', [L.sort, L.sort], L.sort, lambda s, l: s, lambda s, l, i, a: L.snoc(a, L.at(l, i)))


def np_of(b): return z3.If(FLAT, cat(ROOT, '_'), FILE_PREFIX(NAMED(b)))


def group_start(ns, nd, nv):
    """user code called for the namespace, and the configured includes"""
    l = z3.Select(MVSs[3](NSI), ns)
    inc = MK(z3.If(z3.Select(MVSs[2](NSI), ns), USER_NSI(L.nil, l, L.len(l)), L.nil), VIS(EMPTY_IS), DEP(EMPTY_IS))
    first = cur(nd, nv, ns) == 0
    def call(m): return cat('\n\t', z3.Select(MSSs[3](m), ns), '(M("', ns, '"));\n')
    skip = z3.Select(MSSs[2](BNS), ns)
    code = z3.If(skip, z3.If(first, call(BNS), S('')), S(''))
    addon = z3.And(z3.Select(MSSs[2](ANS), ns), z3.Length(code) == 0)
    return skip, z3.If(addon, z3.If(first, call(ANS), S('')), code), inc


def main_step(l, HC, HP, HI, i, fd, fv, nd, nv, src, fun, d, v, w, cmd, tc):
    b = RL.at(l, i)
    np = np_of(b)
    n0 = cur(fd, fv, np)
    f0 = cat(np, z3.If(FLAT, itos(n0), z3.If(n0 != 0, cat('_', itos(n0)), S(''))))
    nm = FREE(np, fun, f0, fun_name(f0), z3.Store(fd, np, True), z3.Store(fv, np, n0 + 1))
    file, fn = cat(N['file'](nm), '.cpp'), N['fun'](nm)
    ns = NSOF(NAMED(b))
    skip, code0, inc0 = group_start(ns, nd, nv)
    g = GROUP(l, HC, HP, HI, ns, skip, i, code0, S(''), inc0, tc)
    dirs = sorted_set(INC(G['inc'](g)))
    text = cat(DIRECTIVES(dirs, L.len(dirs)), header(), G['pre'](g), 'void ', fn, SUFFIX, '\n{\n', G['code'](g), '}\n')
    full = cat(PREFIX_DIR, '/', file)
    old = z3.If(z3.Select(d, full), z3.Select(v, full), S(''))
    wr = z3.And(z3.Not(SINGLE), old != text)
    v1 = z3.If(SINGLE, z3.Store(v, ROOTFILE, cat(z3.Select(v, ROOTFILE), '// File: ', file, '\n', text, '\n\n')), z3.If(wr, z3.Store(v, full, text), v))
    ds = L.pop(SPLIT(file, S('/')))
    cmd1 = z3.If(SINGLE, cmd, L.snoc(cmd, cat('mkdir -p ', PATH(PREFIX_DIR, ds, L.len(ds)))))
    ni = G['i'](g)
    return (ni, N['fd'](nm), N['fv'](nm), z3.Store(nd, ns, True), z3.Store(nv, ns, cur(nd, nv, ns) + 1), L.snoc(src, file), L.snoc(fun, fn),
            z3.If(wr, z3.Store(d, full, True), d), v1, z3.If(wr, z3.Store(w, full, True), w), cmd1, G['tc'](g))


def main(l, HC, HP, HI, *st):
    i = st[0]
    empty = z3.Length(z3.Select(HC, RL.at(l, i))) == 0
    return z3.If(i < RL.len(l), z3.If(empty, MAIN(l, HC, HP, HI, i + 1, *st[1:]), MAIN(l, HC, HP, HI, *main_step(l, HC, HP, HI, *st))), MMK(*st[1:]))


MAIN = SpecFun('generated_files', PAR + [s for _, s in MS], Ms, main)
MAIN.tail = lambda l, HC, HP, HI, i, *st: (i >= RL.len(l), MMK(*st))

# ------------------------------------------------------------------ the root module
MAIN_TEMPLATE = open(__file__.rsplit('/', 1)[0] + '/root_module.txt').read()
PAIRS = Fold('namespace_pairs', [L.sort], STR, lambda l: S(''), lambda l, i, a: (lambda n: z3.If(z3.Length(n) != 0, cat(a, '\t\t{"', BASE_NS(n), '", "', LAST_NS(n), '"},\n'), a))(L.at(l, i)))
MODS = Fold('module_names', [L.sort], STR, lambda l: S(''), lambda l, i, a: cat(a, L.at(l, i), ' '))
DECLS = Fold('binding_function_declarations', [L.sort], STR, lambda l: S(''), lambda l, i, a: cat(a, 'void ', L.at(l, i), SUFFIX, ';\n'))
CALLS = Fold('binding_function_calls', [L.sort], STR, lambda l: S(''), lambda l, i, a: cat(a, '\t', L.at(l, i), '(M);\n'))
SRCS = Fold('source_lines', [L.sort, STR], STR, lambda l, p: S(''), lambda l, p, i, a: cat(a, p, L.at(l, i), '\n'))


KEY = {'d': ('fs', ('d',)), 'v': ('fs', ('v',)), 'w': ('fsw', ()), 'cmd': ('cmds', ()), 'tc': ('CONTEXT', ('trace_counter',))}


def value(ex, key):
    """value of one part of the state when the loop at hand is entered"""
    for loc, v in ex.loop_entry.store.items():
        if loc == key[0]:
            for p, t, q in leaves(v):
                if p == key[1]: return t
    return None


def state(ex, lv, env, key): return env[key] if key in lv else value(ex, key)


def maps_of(lv, st):
    """the (domain, value) parts of the maps from text to numbers that the loop changes"""
    return [((x[0], x[1][:-1] + ('d',)), x) for x, (so, _) in lv.items() if x[1][-1:] == ('v',) and so == ASI]


def lists(ex):
    """lists of texts held in variables"""
    return [t for loc, v in ex.loop_entry.store.items() if isinstance(v, V) and loc not in ('cmds', 'CONFIG') and v.td == ('vec', TSTR) for p, t, q in leaves(v)]


def numbers(ex): return [t for loc, v in ex.loop_entry.store.items() if isinstance(v, V) and v.td[0] == 'int' and isinstance(loc, str) for p, t, q in leaves(v)]


def over(ex, x):
    """the list that the index runs over"""
    v = ex.loop_entry.store.get(x[0])
    for p, t, q in leaves(v):
        if p == x[1] and q is not None and q.ident[0] == 'v' and q.ident[1].sort() == L.sort: yield q.ident[1]


DISTINCT = z3.Function('all_different', L.sort, BOOL)


def distinct_axiom(t, new):
    """definition of all_different, by recursion over the list"""
    if t.decl().eq(L.snoc) and t.sort() == L.sort: new.append(DISTINCT(t) == z3.And(DISTINCT(t.arg(0)), z3.Not(contains(TSTR, t.arg(0), t.arg(1)))))
    elif t.eq(L.nil): new.append(DISTINCT(t))


SOURCES, MODULES_ = cat(PREFIX_DIR, '/', ROOT, '.sources'), cat(PREFIX_DIR, '/', ROOT, '.modules')
FS0, FSW0 = named(('map', TSTR, TSTR), 'FS'), named(('set', TSTR), 'FSW')
NOINT = z3.K(STR, z3.IntVal(0))


@contract('Context::generate', props=['C05', 'C06', 'C16'], raises_unspecified=True, once=True)
def _(k):
    for f, td in (('binding_requested_', TBOOL), ('code_', TSTR), ('skipping_requested_', TBOOL), ('prefix_code_', TSTR), ('prefix_includes_', TV), ('dependencies_', TV)): k.havoc_heap(f, td)
    for f in ('binders', 'binded', 'trace_counter'): k.havoc_ctx(f)
    k.loose.update(('fs', 'fsw', 'cmds'))
    k.reveal(GROUP, FREE, MAIN)
    tc0 = k.ctx('trace_counter')
    k.assume(RL.len(k.ctx('binders')) < 2 ** 32 - 1, 'there are fewer than 2^32 - 1 declarations')

    def world(ex):
        return (ex.read(LV('CONTEXT', (('f', 'binders'),))).t, ex.read(LV(('H', 'code_', TSTR))).t, ex.read(LV(('H', 'prefix_code_', TSTR))).t, ex.read(LV(('H', 'prefix_includes_', TV))).t)

    def at_loop(ex):
        save, ex.st = ex.st, ex.loop_entry
        try: return world(ex)
        finally: ex.st = save

    def inv(ex, lv):
        w = at_loop(ex)
        ints = [x for x, (so, _) in lv.items() if so == INT and x[0] not in ('CONTEXT',)]
        strs = [x for x, (so, _) in lv.items() if so == STR]
        vecs = [x for x, (so, _) in lv.items() if so == L.sort and x[0] not in ('cmds',) and 'includes_' not in x[1]]
        maps = maps_of(lv, ex)
        e = {x: lv[x][1] for x in lv}
        for i in ints:
            for (m, n) in itertools.permutations(maps, 2):
                for (a, b) in itertools.permutations(vecs, 2):
                    def f(env, i=i, m=m, n=n, a=a, b=b):
                        return MAIN(*w, env[i], *[state(ex, lv, env, y) for y in m + n], env[a], env[b], *[state(ex, lv, env, KEY[x]) for x in ('d', 'v', 'w', 'cmd', 'tc')])
                    yield 'alt:files still to be generated', lambda env, f=f: f(env) == f(e)
        for b in vecs: yield 'names different', lambda env, b=b: DISTINCT(env[b])
        # a free name
        for m in maps:
            for a, b in itertools.permutations(strs, 2):
                for x in lists(ex):
                    for np in [np_of(RL.at(w[0], j)) for j in numbers(ex)]:
                        def f(env, m=m, a=a, b=b, x=x, np=np): return FREE(np, x, env[a], env[b], *[state(ex, lv, env, y) for y in m])
                        yield 'name still to be found', lambda env, f=f: f(env) == f(e)
        # one group
        incs = [x for x, (so, _) in lv.items() if so == L.sort and x[1][-1:] == ('includes_',)]
        for i in ints:
            for a, b in itertools.permutations(strs, 2):
                for x in incs:
                    for ns in [NSOF(NAMED(RL.at(w[0], e[i])))]:
                        for sk in [z3.Select(MSSs[2](BNS), ns)]:
                            def f(env, i=i, a=a, b=b, x=x, ns=ns, sk=sk):
                                s = MK(env[x], *[state(ex, lv, env, (x[0], x[1][:-1] + ('stack_', y))) for y in 'dv'])
                                return GROUP(*w, ns, sk, env[i], env[a], env[b], s, state(ex, lv, env, KEY['tc']))
                            yield 'bindings still to be added to this group', lambda env, f=f: f(env) == f(e)
        # lists of lines
        for i in ints:
            for l in list(over(ex, i)) or ([] if maps or incs else lists(ex)):
                for x in incs: yield 'configured includes', lambda env, i=i, l=l, x=x: env[x] == USER_NSI(e[x], l, env[i])
                for x in strs:
                    for F in (PAIRS, MODS, DECLS, CALLS): yield F.name, lambda env, F=F, i=i, l=l, x=x: env[x] == F(l, env[i])
                if KEY['v'] in lv:
                    v = e[KEY['v']]
                    for path, pre in ((ROOTFILE, '// '), (SOURCES, '')):
                        yield 'sources', lambda env, i=i, l=l, path=path, pre=pre: env[KEY['v']] == z3.If(OPENFAIL(path), v, z3.Store(v, path, cat(z3.Select(v, path), SRCS(l, S(pre), env[i]))))
    k.invariant(inv)
    k.axiom(distinct_axiom)

    def files(ex):
        l, HC, HP, HI = world(ex)
        d0, v0, w0 = FS0.t[0], FS0.t[1], FSW0.t
        m = MAIN(l, HC, HP, HI, z3.IntVal(0), EMPTY, NOINT, EMPTY, NOINT, L.snoc(L.nil, cat(ROOT, '.cpp')), L.nil, z3.Store(d0, ROOTFILE, True), z3.Store(v0, ROOTFILE, S('')), z3.Store(w0, ROOTFILE, True), L.nil, tc0)
        src, fun = M['src'](m), M['fun'](m)
        ns = L.keys(NS_SET(l, HC, RL.len(l)))
        mods = REPL(MODS(ns, L.len(ns)), S('::'), S('.'))
        root = fill(MAIN_TEMPLATE, PYB, DECLS(fun, L.len(fun)), ROOT, PAIRS(ns, L.len(ns)), CALLS(fun, L.len(fun)))
        d, v, w = M['d'](m), M['v'](m), M['w'](m)
        v1 = z3.Store(v, ROOTFILE, cat(z3.Select(v, ROOTFILE), root))
        v2 = z3.Store(v1, ROOTFILE, cat(z3.Select(v1, ROOTFILE), '\n// Source list file: ', SOURCES, '\n', SRCS(src, S('// '), L.len(src)), '\n// Modules list file: ', MODULES_, '\n// ', mods, '\n'))
        def put(x, p, y): return z3.If(OPENFAIL(p), x, z3.Store(x, p, y))
        v3 = put(put(v1, SOURCES, SRCS(src, S(''), L.len(src))), MODULES_, mods)
        return (z3.If(SINGLE, d, put(put(d, SOURCES, True), MODULES_, True)), z3.If(SINGLE, v2, v3), z3.If(SINGLE, w, put(put(w, SOURCES, True), MODULES_, True)), M['cmd'](m), fun)
    def st(ex, key): return ex.st.store[key].t
    k.ensures('content of the files', lambda r, ex: st(ex, 'fs')[1] == files(ex)[1])
    k.ensures('files that exist', lambda r, ex: st(ex, 'fs')[0] == files(ex)[0])
    k.ensures('files written', lambda r, ex: st(ex, 'fsw') == files(ex)[2])
    k.ensures('commands run', lambda r, ex: st(ex, 'cmds') == files(ex)[3])
    k.ensures('the binding functions have different names', lambda r, ex: DISTINCT(files(ex)[4]))
