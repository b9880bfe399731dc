"""Contracts of the include collection: IncludeSet, add_relevant_includes, include directives."""
from .ctx import *

IR = incset()
ISs, MK, INC, VIS, DEP = IR
TIS = ('rec', 'IncludeSet')
PI = ['C16']
from .fun import DEPS as TYPE_DEPS


def deeper(s, d, lv): return z3.Or(z3.Not(z3.Select(VIS(s), d)), z3.Select(DEP(s), d) > lv)       # not yet visited at this depth or less
def visit(s, d, lv): return MK(INC(s), z3.Store(VIS(s), d, True), z3.Store(DEP(s), d, lv))
def addi(s, x): return MK(L.snoc(INC(s), x), VIS(s), DEP(s))


INC_DECL = z3.Function('includes_with_header_of', L.sort, Ref, L.sort)
def for_decl(s, d): return MK(INC_DECL(INC(s), d), VIS(s), DEP(s))


@contract('IncludeSet::add_decl', props=PI)
def _(k):
    d, lv = k[0], k[1]
    m = k.field('stack_')
    M = pair_sort_map(TREF, TINT)
    dom, val = M[2](m), M[3](m)
    new = z3.Or(z3.Not(z3.Select(dom, d)), z3.Select(val, d) > lv)
    k.result(new)
    k.set_field('stack_', ('map', TREF, TINT), z3.If(new, M[1](z3.Store(dom, d, True), z3.Store(val, d, lv)), m))


@contract('IncludeSet::clear', props=PI)
def _(k):
    k.set_field('includes_', ('vec', TSTR), L.nil)
    k.set_field('stack_', ('map', TREF, TINT), pack(default_value(('map', TREF, TINT))))


@contract('add_relevant_include_for_decl', props=PI, ret=TVOID, trusted='looks the declaration up in fixed tables of headers and reads the #include directive of its file; adds at most one include (bounded check)')
def _(k): k.final(1, for_decl(k[1], k[0]))


def inc_q(s, q, lv):
    s = z3.If(isa('PointerType', q), INC_Q(s, pointee(q), lv), s)
    s = z3.If(isa('ReferenceType', q), INC_Q(s, pointee(q), lv), s)
    s = z3.If(nn(cxxrecord(q)), INC_C(s, cxxrecord(q), lv), s)
    t = tagdecl(q)
    return z3.If(z3.And(nn(t), isa('EnumDecl', t)), INC_E(s, t, lv), s)


def inc_e(s, e, lv):
    s1 = for_decl(visit(s, e, lv), e)
    d = A('getDefinition', Ref, e)
    return z3.If(deeper(s, e, lv), z3.If(nn(d), for_decl(s1, d), s1), s)


INC_Q = SpecFun('includes_for_type', [ISs, Ref, INT], ISs, inc_q)
INC_E = SpecFun('includes_for_enum', [ISs, Ref, INT], ISs, inc_e)
INC_F = SpecFun('includes_for_function', [ISs, Ref, INT], ISs, lambda s, f, lv: z3.If(deeper(s, f, lv), INC_TYPES(for_decl(visit(s, f, lv), f), TYPE_DEPS(f), lv, RL.len(TYPE_DEPS(f))), s))
INC_TYPES = Fold('includes_for_types', [ISs, RL.sort, INT], ISs, lambda s, l, lv: s, lambda s, l, lv, i, a: INC_Q(a, RL.at(l, i), lv))


def inc_targ(c, t, lv, a):
    kd = kind_of(t)
    a = z3.If(kd == E_('Type'), INC_Q(a, A('getDesugaredType', Ref, A('getAsType', Ref, t), astctx(c)), lv + 1), a)
    a = z3.If(kd == E_('Template'), for_decl(a, A('getTemplatedDecl', Ref, A('getAsTemplateDecl', Ref, A('getAsTemplate', Ref, t)))), a)
    a = z3.If(kd == E_('Declaration'), for_decl(a, A('getAsDecl', Ref, t)), a)
    return z3.If(kd == E_('Integral'), INC_Q(a, A('getIntegralType', Ref, t), lv + 1), a)


INC_TARGS = Fold('includes_for_template_arguments', [ISs, Ref, INT], ISs, lambda s, c, lv: s, lambda s, c, lv, i, a: inc_targ(c, targ(c, i), lv, a))
def mspec_ok(m): return z3.And(isa('CXXMethodDecl', m), public(m), BINDABLE_F(m), z3.Not(SREQ_F(m)), z3.Not(isa('CXXConstructorDecl', m)), z3.Not(isa('CXXDestructorDecl', m)))


INC_SPECS = Fold('includes_for_member_template', [ISs, Ref, INT], ISs, lambda s, t, lv: s, lambda s, t, lv, i, a: z3.If(mspec_ok(spec(t, i)), INC_F(a, spec(t, i), lv + 1), a))
INC_MT = Fold('includes_for_member_templates', [ISs, Ref, INT], ISs, lambda s, c, lv: s, lambda s, c, lv, i, a: z3.If(isa('FunctionTemplateDecl', decl(c, i)), INC_SPECS(a, decl(c, i), lv, nspecs(decl(c, i))), a))
INC_METH = Fold('includes_for_methods', [ISs, Ref, INT], ISs, lambda s, c, lv: s, lambda s, c, lv, i, a: (lambda m: z3.If(z3.And(public(m), BINDABLE_F(m), z3.Not(isa('CXXDestructorDecl', m))), INC_F(a, m, lv + 1), a))(method(c, i)))


def inc_c(s, c, lv):
    s1 = for_decl(visit(s, c, lv), c)
    s2 = z3.If(is_spec(c), INC_TARGS(s1, c, lv, ntargs(c)), s1)
    s3 = INC_MT(s2, c, lv, ndecls(c))
    return z3.If(deeper(s, c, lv), z3.If(lv < 2, INC_METH(s3, c, lv, nmethods(c)), s3), s)


INC_C = SpecFun('includes_for_class', [ISs, Ref, INT], ISs, inc_c)


@contract('add_relevant_includes', sig='QualType', name='add_relevant_includes(QualType)', props=PI, raises_unspecified=True)
def _(k): k.final(1, INC_Q(k[1], k[0], k[2])); k.reveal(INC_Q)


@contract('add_relevant_includes', sig='EnumDecl', name='add_relevant_includes(EnumDecl)', props=PI, raises_unspecified=True)
def _(k): k.final(1, INC_E(k[1], k[0], k[2])); k.reveal(INC_E)


@contract('add_relevant_includes', sig='FunctionDecl', name='add_relevant_includes(FunctionDecl)', props=PI, raises_unspecified=True)
def _(k):
    k.final(1, INC_F(k[1], k[0], k[2])); k.reveal(INC_F)


@contract('add_relevant_includes', sig='CXXRecordDecl', name='add_relevant_includes(CXXRecordDecl)', props=PI, raises_unspecified=True)
def _(k):
    k.final(1, INC_C(k[1], k[0], k[2])); k.reveal(INC_C)


APP = Fold('includes_appended', [L.sort, L.sort], L.sort, lambda a, b: a, lambda a, b, i, r: L.snoc(r, L.at(b, i)))


@contract('add_includes_to_set', props=['C16', 'C15'])
def _(k):
    s = k[1]
    k.final(1, MK(APP(INC(s), k[0], L.len(k[0])), VIS(s), DEP(s)))


EMPTY_IS = MK(L.nil, z3.K(Ref, z3.BoolVal(False)), z3.K(Ref, z3.IntVal(0)))
INC_CACHED = SpecFun('includes_of_class_alone', [Ref], L.sort, lambda c: INC(INC_C(EMPTY_IS, c, z3.IntVal(1))))


@contract('add_relevant_includes_cached', props=['C15'], memo=lambda k, key: INC_CACHED(key), raises_unspecified=True)
def _(k):
    s, l = k[1], INC_CACHED(k[0])
    k.final(1, MK(APP(INC(s), l, L.len(l)), VIS(s), DEP(s))); k.reveal(INC_CACHED)


@contract('FunctionBinder::add_relevant_includes', props=PI, raises_unspecified=True)
def _(k): k.final(0, INC_F(k[0], k.field('F', TREF), z3.IntVal(0)))


@contract('EnumBinder::add_relevant_includes', props=PI, raises_unspecified=True)
def _(k): k.final(0, INC_E(k[0], k.field('E', TREF), z3.IntVal(0)))


MVS = ('map', TSTR, ('vec', TSTR))
MVSs = pair_sort_map(TSTR, ('vec', TSTR))
ANN = pack(named(TBOOL, 'O_annotate_includes'))
USER_INC = Fold('includes_configured_for_class', [L.sort, L.sort], L.sort, lambda s, l: s, lambda s, l, i, a: L.snoc(a, z3.If(ANN, cat(L.at(l, i), ' // +include_for_class'), L.at(l, i))))
INC_NEST, INC_NEST_T = nested('nested_classes_include_set', [], ISs, None, lambda c, a: INC_CB(a, c, RL.nil), ok=lambda d: z3.BoolVal(True), use=lambda d: d)
INC_FUNS = Fold('includes_for_functions', [ISs, RL.sort], ISs, lambda s, l: s, lambda s, l, i, a: INC_F(a, RL.at(l, i), z3.IntVal(0)))


def inc_cb(s, c, pre):
    q = STD(qname(c))
    m = CFG('class_includes_', MVS)
    l = z3.Select(MVSs[3](m), q)
    s1 = MK(z3.If(z3.Select(MVSs[2](m), q), USER_INC(INC(s), l, L.len(l)), INC(s)), VIS(s), DEP(s))
    s2 = INC_NEST(c, s1, ndecls(c))
    s3 = INC_FUNS(s2, pre, RL.len(pre))
    return addi(INC_C(s3, c, z3.IntVal(0)), S('<sstream> // __str__'))


INC_CB = SpecFun('includes_for_class_binding', [ISs, Ref, RL.sort], ISs, inc_cb)


@contract('ClassBinder::add_relevant_includes', props=PI, raises_unspecified=True)
def _(k):
    k.final(0, INC_CB(k[0], k.field('C', TREF), k.field('prefix_includes_', TV))); k.reveal(INC_CB)


# ------------------------------------------------------------------ the directives
from .config import ANY_PREFIX
SKIPS = CFG('includes_to_skip', ('vec', TSTR))
def SKIP_INC(x): return ANY_PREFIX(SKIPS, x, L.len(SKIPS))


DIRECTIVES = Fold('include_directives', [L.sort], STR, lambda l: S(''), lambda l, i, a: z3.If(SKIP_INC(L.at(l, i)), a, cat(a, '#include ', L.at(l, i), '\n')))
def sorted_set(l): return L.keys(L.toset(l))


@contract('generate_include_directives', props=PI)
def _(k):
    l = sorted_set(INC(k[0]))
    k.result(DIRECTIVES(l, L.len(l)))


# ------------------------------------------------------------------ names of generated files
def file_char(c): return z3.Or(isalnum(c), *[c == S(x) for x in '_/<>.'])


FILE_CHARS = Fold('file_name_characters', [STR], STR, lambda s: S(''), lambda s, i, a: cat(a, z3.If(file_char(charat(s, i)), charat(s, i), S(''))))


def file_prefix(d):
    f = FILE_CHARS(INCLUDE_OF(d), z3.Length(INCLUDE_OF(d)))
    f = z3.If(z3.Length(f) <= 2, S('<unknown/unknown.hh>'), f)
    f = z3.SubString(f, 1, z3.Length(f) - 2)
    ns = NSOF(d)
    f = z3.If(z3.Or(ns == S('std'), z3.PrefixOf(S('std::'), ns)), cat('std/', z3.If(z3.PrefixOf(S('bits/'), f), z3.SubString(f, 5, z3.Length(f) - 5), f)), f)
    for x in ('.hh', '.hpp', '.h'): f = REPL(f, S(x), S(''))
    return REPL(f, S('.'), S('_'))


FILE_PREFIX = SpecFun('file_name_prefix', [Ref], STR, file_prefix)


@contract('file_name_prefix_for_binder', props=['C06'])
def _(k):
    d = NAMED(k[0])
    k.result(FILE_PREFIX(d)); k.reveal(FILE_PREFIX)
    k.hint(FILE_CHARS(INCLUDE_OF(d), z3.Length(INCLUDE_OF(d))))
