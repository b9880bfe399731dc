"""Contracts of source/function.cpp: Python names, signatures, default-argument arities, bindability, selection."""
from .ast import *
from .config import listed, ns_terms
from .util import REPL
from . import typ

# ------------------------------------------------------------------ selection vocabulary (the Config as it was read)
VS = ('vec', TSTR)


def cfgl(f): return CFG(f, VS)


def named_in(field, s): return listed(cfgl(field), strip(s, S(' ')))


def ns_bind(ns): return ns_terms(ns, cfgl('namespaces_to_bind'), cfgl('namespaces_to_skip'))[1]
def ns_skip(ns): return ns_terms(ns, cfgl('namespaces_to_bind'), cfgl('namespaces_to_skip'))[2]


# ------------------------------------------------------------------ C12 operators
OPERATORS = {
    'operator+': ['__pos__', '__add__'], 'operator-': ['__neg__', '__sub__'], 'operator*': ['dereference', '__mul__'], 'operator/': ['__truediv__'], 'operator%': ['__mod__'],
    'operator~': ['__invert__'], 'operator|': ['__or__'], 'operator&': ['__and__'], 'operator^': ['__xor__'], 'operator<<': ['__lshift__'], 'operator>>': ['__rshift__'],
    'operator+=': ['__iadd__'], 'operator-=': ['__isub__'], 'operator*=': ['__imul__'], 'operator/=': ['__itruediv__'], 'operator%=': ['__imod__'], 'operator|=': ['__ior__'],
    'operator&=': ['__iand__'], 'operator^=': ['__ixor__'], 'operator<<=': ['__ilshift__'], 'operator>>=': ['__irshift__'], 'operator()': ['__call__'], 'operator==': ['__eq__'],
    'operator!=': ['__ne__'], 'operator[]': ['__getitem__'], 'operator=': ['assign'], 'operator++': ['pre_increment', 'post_increment'], 'operator--': ['pre_decrement', 'post_decrement'], 'operator->': ['arrow']}


def opname(f):
    r = S('')
    for o, names in OPERATORS.items():
        v = S(names[-1])
        for i in range(len(names) - 2, -1, -1): v = z3.If(nparams(f) == i, S(names[i]), v)
        r = z3.If(uname(f) == S(o), v, r)
    return r


OPNAME = SpecFun('operator_name', [Ref], STR, opname)


@contract('cpp_python_operator', props=['C12'])
def _(k):
    k.result(OPNAME(k[0])); k.reveal(OPNAME)


PYNAME = SpecFun('python_name', [Ref], STR, lambda f: z3.If(B('isOverloadedOperator')(f), OPNAME(f), uname(f)))


@contract('python_function_name', props=['C12'])
def _(k):
    k.result(PYNAME(k[0])); k.reveal(PYNAME)


# ------------------------------------------------------------------ C08 signatures
def sep(i, n): return z3.If(i + 1 != n, S(', '), S(''))


ARGS_ = Fold('argument_types', [Ref], STR, lambda f: S(''), lambda f, i, a: cat(a, STDQ(orig_t(param(f, i))), sep(i, nparams(f))))
ARGS = SpecFun('arguments', [Ref], STR, lambda f: FIX(ARGS_(f, nparams(f))))


@contract('function_arguments', props=['C08'])
def _(k):
    k.result(ARGS(k[0])); k.reveal(ARGS)


def arg(i): return cat('a', itos(i))


def lam_sep(f, n, i): return z3.If(z3.And(i + 1 != nparams(f), i + 1 != n), S(', '), S(''))


LAM_R = Fold('lambda_parameters', [Ref, INT], STR, lambda f, n: S(''), lambda f, n, i, a: (lambda q: cat(a, STDQ(q), ' ', z3.If(z3.Or(B('isReferenceType')(q), B('isPointerType')(q)), S(''), z3.If(B('isConstQualified')(q), S('& '), S('const & '))), arg(i), lam_sep(f, n, i)))(orig_t(param(f, i))))
LAM_A = Fold('lambda_arguments', [Ref, INT], STR, lambda f, n: S(''), lambda f, n, i, a: cat(a, arg(i), lam_sep(f, n, i)))


def imin(a, b): return z3.If(a < b, a, b)


@contract('function_arguments_for_lambda', props=['C08'])
def _(k):
    f, n = k[0], k[1]
    m = imin(nparams(f), n)
    k.result(V(('pair', TSTR, TSTR), (vstr(FIX(LAM_R(f, n, m))), vstr(LAM_A(f, n, m)))))


PY_R = Fold('overload_parameters', [Ref], STR, lambda f: S(''), lambda f, i, a: cat(a, STDQ(orig_t(param(f, i))), ' a', itos(i), sep(i, nparams(f))))
PY_A = Fold('overload_arguments', [Ref], STR, lambda f: S(''), lambda f, i, a: cat(a, arg(i), sep(i, nparams(f))))
PY_P = Fold('overload_python_arguments', [Ref], STR, lambda f: S(''), lambda f, i, a: cat(a, z3.If(B('isLValueReferenceType')(orig_t(param(f, i))), S('&'), S('')), arg(i), sep(i, nparams(f))))


@contract('function_arguments_for_py_overload', props=['C13'])
def _(k):
    f = k[0]
    n = nparams(f)
    k.result(V(('pair', TSTR, ('pair', TSTR, TSTR)), (vstr(FIX(PY_R(f, n))), V(('pair', TSTR, TSTR), (vstr(PY_A(f, n)), vstr(PY_P(f, n)))))))


def tsize(t): return A('size', INT, t)
def telem(t, i): return A('elem', Ref, t, i)


ARGSTR = SpecFun('template_argument_string', [Ref], STR)


@contract('template_argument_to_string', trusted='prints a template argument (clang printer)')
def _(k): k.result(ARGSTR(k[0]))


def targ_text(t):
    """an argument as written in the angle brackets; a pack without its own brackets"""
    s = ARGSTR(t)
    return z3.If(z3.And(kind_of(t) == E_('Pack'), z3.Length(s) > 2), z3.SubString(s, 1, z3.Length(s) - 2), s)


def empty_pack(t): return z3.And(kind_of(t) == E_('Pack'), A('pack_size', INT, t) == 0)


TARGS_F = Fold('function_template_arguments', [Ref], STR, lambda f: S(''), lambda f, i, a: (lambda t: z3.If(empty_pack(t), a, cat(a, targ_text(t), ',')))(telem(tal_of(f), i)))


def tspec(f):
    t = cat('<', TARGS_F(f, tsize(tal_of(f))))
    u = z3.If(z3.Length(t) == 1, S(''), cat(z3.SubString(t, 0, z3.Length(t) - 1), '>'))
    spec = z3.Or(tkind(f) == E_('TK_MemberSpecialization'), tkind(f) == E_('TK_FunctionTemplateSpecialization'))
    return STD(z3.If(z3.And(spec, nn(tal_of(f))), FIX(u), S('')))


TSPEC = SpecFun('template_specialization', [Ref], STR, tspec)


@contract('template_specialization', sig='FunctionDecl', props=['C08', 'C17', 'C03'])
def _(k):
    k.result(TSPEC(k[0])); k.reveal(TSPEC)
    k.hint(TARGS_F(k[0], tsize(tal_of(k[0]))))


def is_method(f): return isa('CXXMethodDecl', f)
def is_static(f): return z3.And(is_method(f), B('isStatic')(f))
def is_const(f): return z3.And(is_method(f), B('isConst')(f))


FPTR = SpecFun('function_pointer_type', [Ref], STR, lambda f: FIX(cat(STDQ(ret_t(f)), ' (', z3.If(z3.And(is_method(f), z3.Not(B('isStatic')(f))), cat(CLASS_QN(parent(f)), '::'), S('')), '*)(', ARGS(f), ')', z3.If(is_const(f), S(' const'), S('')))))


@contract('function_pointer_type', props=['C08'])
def _(k):
    k.result(FPTR(k[0])); k.reveal(FPTR)


FQN = SpecFun('function_qualified_name', [Ref, BOOL], STR, lambda f, o: FIX(cat(z3.If(o, S(''), cat(STDQ(ret_t(f)), ' ')), STD(cat(qname(f), TSPEC(f))), '(', ARGS(f), ')', z3.If(is_const(f), S(' const'), S('')))))


@contract('function_qualified_name', props=['C08', 'C03'])
def _(k):
    k.result(FQN(k[0], k[1])); k.reveal(FQN)



# ------------------------------------------------------------------ selection
RL = LT(TREF)
DEPS_P = Fold('dependencies_parameters', [Ref], RL.sort, lambda f: RL.snoc(RL.nil, ret_t(f)), lambda f, i, a: RL.snoc(a, orig_t(param(f, i))))


DEPS_T = Fold('dependencies_template_arguments', [Ref], RL.sort, lambda f: DEPS_P(f, nparams(f)),
              lambda f, i, a: z3.If(kind_of(telem(tal_of(f), i)) == E_('Type'), RL.snoc(a, A('getAsType', Ref, telem(tal_of(f), i))), a))
DEPS = SpecFun('type_dependencies', [Ref], RL.sort, lambda f: z3.If(z3.And(tkind(f) != E_('TK_NonTemplate'), nn(tal_of(f))), DEPS_T(f, tsize(tal_of(f))), DEPS_P(f, nparams(f))))


@contract('get_type_dependencies', sig='FunctionDecl', props=['C03', 'C16'])
def _(k):
    f = k[0]
    k.result(DEPS(f)); k.reveal(DEPS)
    k.hint(DEPS_P(f, nparams(f)), DEPS_T(f, tsize(tal_of(f))))


ANY_B = Exists('some_type_requested', [RL.sort], lambda l, i: BREQ_T(RL.at(l, i)))
ANY_S = Exists('some_type_skipped', [RL.sort], lambda l, i: SREQ_T(RL.at(l, i)))


def breq_f(f):
    return z3.Or(named_in('functions_to_bind', qname(f)), named_in('functions_to_bind', FQN(f, z3.BoolVal(True))), ns_bind(NSOF(f)), ANY_B(DEPS(f), RL.len(DEPS(f))))


def sreq_f(f):
    q, full = STD(qname(f)), FQN(f, z3.BoolVal(True))
    c = parent(f)
    member = z3.And(is_method(f), isa('ClassTemplateSpecializationDecl', c), named_in('functions_to_skip', STD(cat(qname(c), '::', uname(f)))))
    rest = z3.Or(ns_skip(NSOF(f)), member, ANY_S(DEPS(f), RL.len(DEPS(f))))
    return z3.If(named_in('functions_to_skip', full), True, z3.If(named_in('functions_to_bind', full), False, z3.If(named_in('functions_to_skip', q), True, z3.If(named_in('functions_to_bind', q), False, rest))))


BREQ_F.define = breq_f
SREQ_F.define = sreq_f


@contract('is_binding_requested', sig='FunctionDecl', props=['C03'], raises_unspecified=True)
def _(k):
    k.result(BREQ_F(k[0])); k.reveal(BREQ_F)
    k.hint(ANY_B(DEPS(k[0]), RL.len(DEPS(k[0]))))


@contract('is_skipping_requested', sig='FunctionDecl', props=['C03'], raises_unspecified=True)
def _(k):
    k.result(SREQ_F(k[0])); k.reveal(SREQ_F)
    k.hint(ANY_S(DEPS(k[0]), RL.len(DEPS(k[0]))))


# ------------------------------------------------------------------ C09 bindability
ALLB = Exists('some_parameter_unbindable', [Ref], lambda f, i: z3.Not(BINDABLE_T(canonical(orig_t(param(f, i))))))


def bindable_f(f):
    q = qname(f)
    cb = z3.LastIndexOf(q, S(')'))
    named = z3.Or(cb < 0, z3.And(cb > 0, charat(q, cb - 1) == S('(')))
    op = z3.Implies(B('isOverloadedOperator')(f), z3.And(is_method(f), z3.Length(OPNAME(f)) != 0))
    return z3.And(named, op, z3.Not(B('isDeleted')(f)), tkind(f) != E_('TK_FunctionTemplate'), z3.Not(isa('CXXConversionDecl', f)), BINDABLE_T(ret_t(f)), z3.Not(ALLB(f, nparams(f))), z3.Not(BANNED(f)))


BINDABLE_F_RAW = SpecFun('function_bindable_raw', [Ref], BOOL, bindable_f)
BINDABLE_F.define = lambda f: BINDABLE_F_RAW(f)


@contract('is_bindable_raw', sig='FunctionDecl', props=['C09'])
def _(k):
    k.result(BINDABLE_F_RAW(k[0])); k.reveal(BINDABLE_F_RAW)
    k.hint(ALLB(k[0], nparams(k[0])))


@contract('is_bindable', sig='FunctionDecl', props=['C09', 'C15'], memo=lambda k, key: BINDABLE_F_RAW(key))
def _(k):
    k.result(BINDABLE_F(k[0])); k.reveal(BINDABLE_F)


@contract('is_overloadable', props=['C13'])
def _(k): k.result(z3.BoolVal(True))
