"""Contracts of source/class.cpp, part 3: trampolines as a whole, bases, constructors, the class binding."""
from .cls2 import *

TV = ('vec', TREF)
IOT = ('map', TSTR, TREF)


def fld(k, name, td): return k.field(name, td)


def cname(c): return CLASS_QN(c)


EMPTYSET = z3.K(STR, z3.BoolVal(False))
PREFIX = SpecFun('trampoline_struct', [Ref], STR, lambda c: cat(COMMENT(c), 'struct ', CB_NAME(c), ' : public ', CLASS_QN(c), ' {\n\tusing ', CLASS_QN(c), '::', uname(c), ';\n\n', CB_TXT(c, CLASS_QN(c), EMPTYSET, z3.IntVal(0)), '};\n\n'))


@contract('ClassBinder::generate_prefix_code', props=['C13'], raises_unspecified=True)
def _(k):
    c = k.field('C', TREF)
    need = CB_NEEDED(c)
    k.set_field('prefix_code_', TSTR, z3.If(need, PREFIX(c), k.field('prefix_code_', TSTR)))
    v = k.field('prefix_includes_', TV)
    k.set_field('prefix_includes_', TV, z3.If(need, CB_INC(c, EMPTYSET, v), v))
    k.reveal(PREFIX)


HOLDER = lambda: CFG('holder_type_', TSTR)
def dtor(c): return A('getDestructor', Ref, c)


HOLD = SpecFun('holder', [Ref], STR, lambda c: z3.If(z3.And(z3.Not(ESFT(c)), nn(dtor(c)), z3.Not(public(dtor(c)))), cat(', ', CLASS_QN(c), '*'), cat(', ', HOLDER(), '<', CLASS_QN(c), '>')))


@contract('bind_forward_declaration', props=['C18', 'C05'])
def _(k):
    c = k[0]
    inc = INCLUDE_OF(c)
    k.result(cat('\t// Forward declaration for: ', CLASS_QN(c), ' file:', z3.If(z3.Length(inc) > 0, z3.SubString(inc, 1, z3.Length(inc) - 2), S('')), ' line:', LINE(c), '\n',
                 '\tpybind11::class_<', CLASS_QN(c), HOLD(c), '>(', modvar(NSOF(c)), ', "', PY_CLASS(c), '");\n\n'))
    k.reveal(HOLD)


BASE_SKIP = ['std::enable_shared_from_this', 'std::string', 'std::basic_string', 'std::pair', 'std::tuple']
def lists_base(c, i):
    r = base_decl(c, i)
    return z3.And(base_access(c, i) == E_('AS_public'), is_rec(base_type(c, i)), nn(r), z3.Not(z3.Or([STD(qname(r)) == S(x) for x in BASE_SKIP])), BINDABLE_C(r), z3.Not(SREQ_C(r)))


BASES_TXT = Fold('listed_bases', [Ref], STR, lambda c: S(''), lambda c, i, a: z3.If(lists_base(c, i), cat(a, ', ', CLASS_QN(base_decl(c, i))), a))
BASES_REQ = Fold('requested_by_bases', WS + [Ref], HBs, lambda HB, HC, HS, TY, c: HB, lambda HB, HC, HS, TY, c, i, a: z3.If(lists_base(c, i), REQ_T(a, HC, HS, TY, base_type(c, i)), a))
BASES_DEP = Fold('dependencies_on_bases', [Ref, RL.sort], RL.sort, lambda c, v: v, lambda c, v, i, a: z3.If(lists_base(c, i), RL.snoc(a, base_decl(c, i)), a))


@contract('ClassBinder::maybe_base_classes', props=['C05', 'C18', 'C04'], raises_unspecified=True)
def _(k):
    c = k.field('C', TREF)
    w = World(k)
    n = nbases(c)
    v = k.field('dependencies_', TV)
    k.result(BASES_TXT(c, n))
    k.set_heap('binding_requested_', TBOOL, w.req(BASES_REQ, c, n))
    k.set_field('dependencies_', TV, BASES_DEP(c, v, n))
    k.hint(BASES_TXT(c, n), w.req(BASES_REQ, c, n), BASES_DEP(c, v, n))


WITH_ARGS = Fold('user_binder_arguments', [Ref], STR, lambda c: S(''), lambda c, i, a: cat(a, ', "', FIX(MANGLED(STD(ARGSTR(targ(c, i))), T_)), '"'))
WITH_TXT = SpecFun('user_binder_call', [STR, Ref], STR, lambda b, c: cat('\t', COMMENT(c), '\t', b, STD(TSPEC_C(c)), '(', modvar(NSOF(c)), z3.If(is_spec(c), WITH_ARGS(c, ntargs(c)), S('')), ');\n\n'))


@contract('ClassBinder::bind_with', props=['C18'], raises_unspecified=True)
def _(k):
    c = k.field('C', TREF)
    k.set_field('code_', TSTR, WITH_TXT(k[0], c))
    k.reveal(WITH_TXT)
    k.hint(WITH_ARGS(c, ntargs(c)))


# ------------------------------------------------------------------ constructors
def ctor_note(t): return z3.If(pack(named(TBOOL, 'O_annotate_functions')), cat('\t// function-signature: ', FQN(t, T_), '(', ARGS(t), ') file:', inc_path(t), ' line:', LINE(t), '\n'), S(''))


def ctor_text(c, t, tr, q, tn, n):
    direct = z3.And(n == nparams(t), z3.Not(B('isVariadic')(t)))
    m = imin(nparams(t), n)
    pr, ar = z3.If(n != 0, FIX(LAM_R(t, n, m)), S('')), LAM_A(t, n, m)

    def new(x): return cat('[](', pr, '){ return new ', x, '(', ar, '); }')
    lam = z3.If(B('isAbstract')(c), cat('\tcl.def( pybind11::init( ', new(tn), ' ), "doc");'),
                z3.If(tr, cat('\tcl.def( pybind11::init( ', new(q), ', ', new(tn), ' ), "doc");'), cat('\tcl.def( pybind11::init( ', new(q), ' ), "doc" ', PYARGS(t, m), ');')))
    return cat(ctor_note(t), z3.If(direct, cat('\tcl.def( pybind11::init<', ARGS(t), '>()', PYARGS(t, m), ' );\n'), lam))


CBIS = [Ref, Ref, BOOL, STR, STR]
CTOR1 = SpecFun('constructor_binding', CBIS + [INT], STR, ctor_text)
CREQ_ = Fold('requested_by_constructor_parameters', WS + [Ref], HBs, lambda HB, HC, HS, TY, t: HB, lambda HB, HC, HS, TY, t, i, a: REQ_T(a, HC, HS, TY, orig_t(param(t, i))))
CREQ = SpecFun('requested_by_constructor', WS + [Ref], HBs, lambda HB, HC, HS, TY, t: CREQ_(HB, HC, HS, TY, t, nparams(t)))


def cbi(k): return [pack(k.rec(0, f)) for f in ('C', 'T', 'trampoline', 'class_qualified_name', 'trampoline_qualified_name')]


@contract('bind_constructor', sig='int', name='bind_constructor(one arity)', props=['C08', 'C18', 'C04'], raises_unspecified=True)
def _(k):
    x = cbi(k)
    t, n, flag = x[1], k[1], k[2]
    w = World(k)
    k.requires(n >= 0)
    k.requires(z3.Implies(flag, n == nparams(t)))
    m = imin(nparams(t), n)
    k.result(CTOR1(*x, n)); k.reveal(CTOR1, CREQ)
    k.set_heap('binding_requested_', TBOOL, z3.If(flag, w.req(CREQ, t), w.HB))
    k.guard(flag)
    k.hint(PYARGS(t, m), w.req(CREQ_, t, m))


CTOR_N = Fold('constructor_arities', CBIS, STR, lambda c, t, tr, q, tn: S(''), lambda c, t, tr, q, tn, i, a: cat(a, CTOR1(c, t, tr, q, tn, i), '\n'), start=lambda c, t, tr, q, tn: FIRSTDEF(t))
CTOR = SpecFun('constructor_bindings', CBIS, STR, lambda c, t, tr, q, tn: CTOR_N(c, t, tr, q, tn, nparams(t) + 1))


@contract('bind_constructor', sig='!int', name='bind_constructor(all arities)', props=['C08', 'C18', 'C04'], raises_unspecified=True)
def _(k):
    x = cbi(k)
    t = x[1]
    w = World(k)
    k.result(CTOR(*x)); k.reveal(CTOR)
    k.set_heap('binding_requested_', TBOOL, w.req(CREQ, t))

    def last_arity(ex, leaf):
        for h, (srt, e0) in leaf.items():
            if srt != HBs: continue
            for i, (si, _) in leaf.items():
                if si == INT: yield 'requested with the last arity', lambda env, h=h, i=i, e0=e0: env[h] == z3.If(env[i] > nparams(t), w.req(CREQ, t), e0)
    k.invariant(last_arity)
    k.hint(FIRSTDEF(t), SOMEDEF(t, nparams(t)), CTOR_N(*x, nparams(t) + 1))


def dctor_text(c, t, tr, q, tn):
    note = z3.If(pack(named(TBOOL, 'O_annotate_functions')), z3.If(nn(t), ctor_note(t), cat('\t// function-signature: ', q, '()\n')), S(''))

    def new(x): return cat('[](){ return new ', x, '(); }')
    return cat(note, '\tcl.def( pybind11::init( ', z3.If(B('isAbstract')(c), new(tn), z3.If(tr, cat(new(q), ', ', new(tn)), new(q))), ' ) );\n')


DCTOR = SpecFun('default_constructor_binding', CBIS, STR, dctor_text)


@contract('bind_default_constructor', props=['C18'])
def _(k):
    k.result(DCTOR(*cbi(k))); k.reveal(DCTOR)


def cctor_text(c, t, tr, q, tn):
    cst = z3.If(A('isCopyConstructor_quals', INT, t) == E_('Const'), S(' const'), S(''))

    def copy(x): return cat('\tcl.def( pybind11::init( [](', x, cst, ' &o){ return new ', x, '(o); } ) );\n')
    return cat(ctor_note(t), z3.If(tr, z3.If(B('isAbstract')(c), cat('\tcl.def(pybind11::init<', tn, cst, ' &>());\n'), cat(copy(tn), z3.If(public(t), copy(q), S('')))), copy(q)))


CCTOR = SpecFun('copy_constructor_binding', CBIS, STR, cctor_text)


@contract('bind_copy_constructor', props=['C18'])
def _(k):
    k.result(CCTOR(*cbi(k))); k.reveal(CCTOR)
