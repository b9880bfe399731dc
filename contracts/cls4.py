"""Contracts of source/class.cpp, part 4: __str__, nested classes, the class binding as a whole."""
from .cls3 import *
from cxxv.models import itos

IOs = pair_sort_map(TSTR, TREF)
IO_HAS, IO_AT = IOs[2], IOs[3]

OP_ARGS = Fold('insertion_operator_parameters', [Ref], STR, lambda c: cat('std::ostream & (*)(std::ostream &, const ', STD(uname(c)), '<'), lambda c, i, a: cat(a, 'type-parameter-0-', itos(i), ', '))


def op_name(c): return cat('std::ostream & (*)(std::ostream &, const ', z3.If(B('isStruct')(c), S('struct '), S('class ')), CLASS_QN(c), ' &)')


def op_tname(c):
    s = OP_ARGS(c, ntargs(c))
    return cat(FIX(cat(z3.SubString(s, 0, z3.Length(s) - 2), '>')), ' &)')


def ins_op(io, c):
    n1, n2 = op_name(c), op_tname(c)
    return z3.If(z3.Select(IO_HAS(io), n1), z3.Select(IO_AT(io), n1), z3.If(z3.And(is_spec(c), z3.Select(IO_HAS(io), n2)), z3.Select(IO_AT(io), n2), NULL))


INS_OP = SpecFun('global_insertion_operator', [IOs[0], Ref], Ref, ins_op)


@contract('Context::global_insertion_operator', props=['C18'])
def _(k):
    k.result(INS_OP(k.ctx('insertion_operators'), k[0])); k.reveal(INS_OP)
    k.hint(OP_ARGS(k[0], ntargs(k[0])))


@contract('Context::add_insertion_operator', props=['C18'])
def _(k):
    io, key = k.ctx('insertion_operators'), FPTR(k[0])
    k.set_ctx('insertion_operators', IOs[1](z3.Store(IO_HAS(io), key, True), z3.Store(IO_AT(io), key, k[0])))


# ------------------------------------------------------------------ __str__
def str_skipped(c): return z3.Or(named_in('functions_to_skip', cat(CLASS_QN(c), '::__str__')), named_in('functions_to_skip', STD(cat(qname(c), '::__str__'))))


def repr_text(io, c):
    f = INS_OP(io, c)
    ns = NSOF(f)
    return z3.If(z3.Or(str_skipped(c), z3.Not(nn(f))), S(''), cat('\n\tcl.def("__str__", [](', CLASS_QN(c), ' const &o) -> std::string { std::ostringstream s;', z3.If(z3.Length(ns) > 0, cat(' using namespace ', ns, ';'), S('')), ' s << o; return s.str(); } );\n'))


REPR = SpecFun('str_binding', [IOs[0], Ref], STR, repr_text)
REPR_INC = SpecFun('includes_for_str', [IOs[0], Ref, RL.sort], RL.sort, lambda io, c, v: z3.If(z3.Or(str_skipped(c), z3.Not(nn(INS_OP(io, c)))), v, RL.snoc(v, INS_OP(io, c))))


@contract('ClassBinder::bind_repr', props=['C18', 'C16'], raises_unspecified=True)
def _(k):
    c = k.field('C', TREF)
    io = k.ctx('insertion_operators')
    v = k.field('prefix_includes_', TV)
    k.result(REPR(io, c))
    k.set_field('prefix_includes_', TV, REPR_INC(io, c, v))
    k.reveal(REPR, REPR_INC)


# ------------------------------------------------------------------ nested classes
def definition(d): return z3.If(z3.And(z3.Not(B('isThisDeclarationADefinition')(d)), B('hasDefinition')(d)), A('getDefinition', Ref, d), d)
def nest_ok(d): return z3.And(B('isFirstDecl')(d), BINDABLE_C(definition(d)), z3.Not(named_in('classes_to_skip', CLASS_QN(definition(d)))))


def nested(name, sorts, out, init, step, ok=None, use=None):
    """fold over the public nested classes, those of member templates included: step(params..., class, accumulator)"""
    inner = Fold(name + '_of_template', sorts + [Ref, out], out, lambda *a: a[-1], lambda *a: (lambda ps, t, i, acc: z3.If(z3.And(isa('CXXRecordDecl', spec(t, i)), (ok or nest_ok)(spec(t, i))), step(*ps, (use or definition)(spec(t, i)), acc), acc))(a[:len(sorts)], a[len(sorts)], a[-2], a[-1]))

    def outer(*a):
        ps, c, i, acc = a[:len(sorts)], a[len(sorts)], a[-2], a[-1]
        d = decl(c, i)
        return z3.If(isa('CXXRecordDecl', d), z3.If(z3.And(public(d), (ok or nest_ok)(d)), step(*ps, (use or definition)(d), acc), acc), z3.If(z3.And(isa('ClassTemplateDecl', d), public(d)), inner(*ps, d, acc, nspecs(d)), acc))
    return Fold(name, sorts + [Ref, out], out, lambda *a: a[-1], outer), inner


IO_ = IOs[0]
NEST_TXT, NEST_TXT_T = nested('nested_classes_code', [IO_], STR, None, lambda io, c, a: cat(a, CLASS_CODE(io, c), '\n'))
NEST_PFX, NEST_PFX_T = nested('nested_classes_prefix', [], STR, None, lambda c, a: cat(a, CLASS_PFX(c, S(''))))
NEST_INC, NEST_INC_T = nested('nested_classes_includes', [IO_], RL.sort, None, lambda io, c, a: RL.app(a, CLASS_INC(io, c, RL.nil)))
NEST_DEP, NEST_DEP_T = nested('nested_classes_dependencies', [], RL.sort, None, lambda c, a: RL.app(a, CLASS_DEP(c, RL.nil)))
NEST_REQ, NEST_REQ_T = nested('requested_by_nested_classes', WS[1:], HBs, None, lambda HC, HS, TY, c, a: CLASS_REQ(a, HC, HS, TY, c))
NEST = SpecFun('nested_classes', [IO_, Ref], STR, lambda io, c: (lambda t: z3.If(z3.Length(t) == 0, t, cat('\n', t)))(NEST_TXT(io, c, S(''), ndecls(c))))


@contract('ClassBinder::bind_nested_classes', props=['C18', 'C03', 'C05', 'C04', 'C16', 'C06'], raises_unspecified=True)
def _(k):
    c = k.field('C', TREF)
    io = k.ctx('insertion_operators')
    w = World(k)
    n = ndecls(c)
    k.result(NEST(io, c)); k.reveal(NEST)
    F = [('prefix_code_', TSTR, NEST_PFX, ()), ('prefix_includes_', TV, NEST_INC, (io,)), ('dependencies_', TV, NEST_DEP, ())]
    for f, td, fold, p in F:
        v = k.field(f, td)
        k.set_field(f, td, fold(*p, c, v, n))
        k.hint(fold(*p, c, v, n))
    k.set_heap('binding_requested_', TBOOL, NEST_REQ(w.HC, w.HS, w.TY, c, w.HB, n))
    k.hint(NEST_REQ(w.HC, w.HS, w.TY, c, w.HB, n), NEST_TXT(io, c, S(''), n))


# ------------------------------------------------------------------ the class
def TR(c): return z3.And(CB_NEEDED(c), CB_CONS(c))
def TN(c): return z3.If(TR(c), CB_NAME(c), S(''))
def is_named(c): return z3.Not(B('isAnonymousStructOrUnion')(c))
def is_member(c): return z3.And(B('isCXXClassMember')(c), is_named(c))
def ctors_wanted(c): return z3.And(z3.Or(z3.Not(B('isAbstract')(c)), TR(c)), is_named(c))
def cfgm(f): return CFG(f, MSS_)


MSSs = pair_sort_map(TSTR, TSTR)
def external(c): return z3.Select(MSSs[2](cfgm('binders_')), STD(qname(c)))


def ctor_ok(t): return z3.And(public(t), z3.Not(B('isMoveConstructor')(t)), BINDABLE_F(t), z3.Not(SREQ_F(t)))
def is_default(t): return z3.And(B('isDefaultConstructor')(t), nparams(t) == 0)
def is_copy(t): return B('isCopyConstructor')(t)
def cbis(c, t): return c, t, TR(c), CLASS_QN(c), TN(c)


OWN_CTORS = Fold('own_constructors', [Ref], STR, lambda c: S(''), lambda c, i, a: (lambda t: z3.If(ctor_ok(t), cat(a, z3.If(is_copy(t), CCTOR(*cbis(c, t)), z3.If(is_default(t), DCTOR(*cbis(c, t)), CTOR(*cbis(c, t))))), a))(ctor(c, i)))
OWN_CREQ = Fold('requested_by_own_constructors', WS + [Ref], HBs, lambda HB, HC, HS, TY, c: HB, lambda HB, HC, HS, TY, c, i, a: (lambda t: z3.If(z3.And(ctor_ok(t), z3.Not(is_copy(t)), z3.Not(is_default(t))), CREQ(a, HC, HS, TY, t), a))(ctor(c, i)))


def uctor(u, i): return target(shadow(u, i))
def uctor_is(u, i): return z3.And(isa('UsingShadowDecl', shadow(u, i)), isa('CXXConstructorDecl', uctor(u, i)))
def uctor_ok(u, i): return z3.And(uctor_is(u, i), BINDABLE_F(uctor(u, i)), z3.Not(is_copy(uctor(u, i))))


UCTORS_1 = Fold('constructors_named_by_using', [Ref, Ref, STR], STR, lambda c, u, s: s, lambda c, u, s, i, a: (lambda t: z3.If(uctor_ok(u, i), cat(a, z3.If(is_default(t), DCTOR(*cbis(c, t)), CTOR(*cbis(c, t)))), a))(uctor(u, i)))
UCTORS = Fold('inherited_constructors', [Ref, STR], STR, lambda c, s: s, lambda c, s, i, a: z3.If(using_of(decl(c, i)), UCTORS_1(c, decl(c, i), a, nshadows(decl(c, i))), a))
UCREQ_1 = Fold('requested_by_constructors_named_by_using', WS[1:] + [Ref, HBs], HBs, lambda HC, HS, TY, u, h: h, lambda HC, HS, TY, u, h, i, a: z3.If(z3.And(uctor_ok(u, i), z3.Not(is_default(uctor(u, i)))), CREQ(a, HC, HS, TY, uctor(u, i)), a))
UCREQ = Fold('requested_by_inherited_constructors', WS + [Ref], HBs, lambda HB, HC, HS, TY, c: HB, lambda HB, HC, HS, TY, c, i, a: z3.If(using_of(decl(c, i)), UCREQ_1(HC, HS, TY, decl(c, i), a, nshadows(decl(c, i))), a))
HAS_DEF = Exists('has_default_constructor', [Ref], lambda c, i: B('isDefaultConstructor')(ctor(c, i)))
UHAS_1 = Exists('using_names_default_constructor', [Ref], lambda u, i: z3.And(uctor_is(u, i), B('isDefaultConstructor')(uctor(u, i))))
UHAS = Exists('inherits_default_constructor', [Ref], lambda c, i: z3.And(using_of(decl(c, i)), UHAS_1(decl(c, i), nshadows(decl(c, i)))))


def implicit(c): return z3.And(z3.Not(z3.Or(HAS_DEF(c, nctors(c)), UHAS(c, ndecls(c)))), B('needsImplicitDefaultConstructor')(c), BDDC(c))


CTORS_TXT = SpecFun('constructors', [Ref], STR, lambda c: cat(z3.If(implicit(c), DCTOR(*cbis(c, NULL)), S('')), UCTORS(c, OWN_CTORS(c, nctors(c)), ndecls(c))))


def enum_ok(e): return z3.And(isa('EnumDecl', e), public(e), BINDABLE_E(e), z3.Not(SREQ_E(e)))


ENUMS = Fold('nested_enums', [Ref], STR, lambda c: S(''), lambda c, i, a: z3.If(enum_ok(decl(c, i)), cat(a, '\n', ENUM_TEXT(S('cl'), decl(c, i))), a))


def class_text(io, c):
    q, u = CLASS_QN(c), STD(qname(c))
    mv = z3.If(is_member(c), S('enclosing_class'), modvar(NSOF(c)))
    extra = cat(z3.If(MLOCAL(NSOF(c)), S(', pybind11::module_local()'), S('')), z3.If(named_in('buffer_protocols', u), S(', pybind11::buffer_protocol()'), S('')))
    head = z3.If(is_named(c), cat(z3.If(named_in('smart_held_classes', u), cat('\tPYBIND11_TYPE_CASTER_BASE_HOLDER(', q, ' ', HOLD(c), ')\n'), S('')),
                                  '\tpybind11::class_<', q, HOLD(c), z3.If(TR(c), cat(', ', CB_NAME(c)), S('')), BASES_TXT(c, nbases(c)), '> cl(', mv, ', "', PY_CLASS(c), '", "', DOC(c), '"', extra, ');\n'), S(''))
    add = cfgm('add_on_binders_')
    addon = z3.If(z3.Select(MSSs[2](add), u), cat('\n\t', z3.Select(MSSs[3](add), u), '(cl);\n'), S(''))
    return INDENT(cat('{ ', COMMENT(c), z3.If(is_member(c), S('\tauto & enclosing_class = cl;\n'), S('')), head, z3.If(ctors_wanted(c), CTORS_TXT(c), S('')), ENUMS(c, ndecls(c)), FIELDS(c), METHODS(c), TBASES(c), REPR(io, c), addon, NEST(io, c), '}\n'), S('\t'))


CLASS_TXT = SpecFun('class_binding', [IO_, Ref], STR, class_text)
def by_kind(c, ext, own, none): return z3.If(BUILTIN(c), none, z3.If(external(c), ext, own))


CLASS_CODE = SpecFun('class_code', [IO_, Ref], STR, lambda io, c: by_kind(c, WITH_TXT(z3.Select(MSSs[3](cfgm('binders_')), STD(qname(c))), c), CLASS_TXT(io, c), S('')))
CLASS_PFX = SpecFun('class_prefix', [Ref, STR], STR, lambda c, s: by_kind(c, s, NEST_PFX(c, z3.If(TR(c), PREFIX(c), s), ndecls(c)), s))
CLASS_INC = SpecFun('class_prefix_includes', [IO_, Ref, RL.sort], RL.sort, lambda io, c, v: by_kind(c, v, NEST_INC(io, c, REPR_INC(io, c, z3.If(TR(c), CB_INC(c, EMPTYSET, v), v)), ndecls(c)), v))
CLASS_DEP = SpecFun('class_dependencies', [Ref, RL.sort], RL.sort, lambda c, v: by_kind(c, v, NEST_DEP(c, z3.If(is_named(c), BASES_DEP(c, v, nbases(c)), v), ndecls(c)), v))


def class_req(HB, HC, HS, TY, c):
    r = (HC, HS, TY)
    h = z3.If(is_named(c), BASES_REQ(HB, *r, c, nbases(c)), HB)
    h = z3.If(ctors_wanted(c), UCREQ(OWN_CREQ(h, *r, c, nctors(c)), *r, c, ndecls(c)), h)
    h = REQ_TB(REQ_M(h, *r, c), *r, c)
    return by_kind(c, HB, NEST_REQ(*r, c, h, ndecls(c)), HB)


CLASS_REQ = SpecFun('requested_by_class', WS + [Ref], HBs, class_req)


@contract('ClassBinder::id', props=['C04'])
def _(k): k.result(CLASS_QN(F_(k, 'C')))


@contract('ClassBinder::named_decl', props=['C04'])
def _(k): k.result(F_(k, 'C'))


@contract('ClassBinder::bindable', props=['C04', 'C09'])
def _(k): k.result(z3.And(BINDABLE_C(F_(k, 'C')), z3.Not(k.field('skipping_requested_', TBOOL))))


@contract('ClassBinder::request_bindings_and_skipping', props=['C04', 'C03'], raises_unspecified=True)
def _(k): request_spec(k, F_(k, 'C'), SREQ_C, BREQ_C)


@contract('ClassBinder::bind', props=['C18', 'C04', 'C05', 'C06', 'C13', 'C08', 'C09'], raises_unspecified=True)
def _(k):
    c = F_(k, 'C')
    io = k.ctx('insertion_operators')
    w = World(k)
    if not k.local: k.assume(NAMED(k.this) == c, 'named_decl() is the declaration the binder was made for')
    done = z3.Length(k.field('code_', TSTR)) != 0
    def unless(f, td, t): k.set_field(f, td, z3.If(done, k.field(f, td), t))
    unless('code_', TSTR, CLASS_CODE(io, c) if k.local else z3.If(BUILTIN(c), k.field('code_', TSTR), CLASS_CODE(io, c)))
    unless('prefix_code_', TSTR, CLASS_PFX(c, k.field('prefix_code_', TSTR)))
    unless('prefix_includes_', TV, CLASS_INC(io, c, k.field('prefix_includes_', TV)))
    unless('dependencies_', TV, CLASS_DEP(c, k.field('dependencies_', TV)))
    k.set_heap('binding_requested_', TBOOL, z3.If(done, w.HB, w.req(CLASS_REQ, c)))
    k.reveal(MLOCAL, CLASS_CODE, CLASS_TXT, CLASS_PFX, CLASS_INC, CLASS_DEP, CLASS_REQ, HOLD, CTORS_TXT)
    n, m, r = ndecls(c), nctors(c), (w.HC, w.HS, w.TY)
    k.hint(OWN_CTORS(c, m), UCTORS(c, OWN_CTORS(c, m), n), HAS_DEF(c, m), UHAS(c, n), ENUMS(c, n))
