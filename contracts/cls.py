"""Contracts of source/class.cpp, part 1: names, selection, bindability, data members."""
from .ast import *
from .config import listed
from .fun import named_in, ns_bind, ns_skip, cfgl, RL, is_const, FQN, ARGSTR
from .util import MANGLED
from .world import BUILTIN
from . import typ, fun

def ntargs(c): return A('size', INT, targs_of(c))
def targ(c, i): return A('elem', Ref, targs_of(c), i)
def is_spec(c): return isa('ClassTemplateSpecializationDecl', c)


def unpacked(s):
    """the text of a parameter pack without its angle brackets"""
    n = z3.Length(s)
    return z3.If(z3.And(charat(s, 0) == S('<'), charat(s, n - 1) == S('>')), z3.SubString(s, 1, n - 2), s)


TARGS = Fold('template_arguments', [Ref], STR, lambda c: S(''), lambda c, i, a: (lambda s: z3.If(z3.Length(s) > 0, cat(a, s, ','), a))(unpacked(ARGSTR(targ(c, i)))))
TSPEC_C = SpecFun('class_template_specialization', [Ref], STR, lambda c: FIX(z3.If(is_spec(c), (lambda t: cat('<', z3.If(z3.Length(t) == 0, S(''), z3.SubString(t, 0, z3.Length(t) - 1)), '>'))(TARGS(c, ntargs(c))), S(''))))


@contract('template_specialization', sig='CXXRecordDecl', props=['C17'])
def _(k):
    k.result(TSPEC_C(k[0])); k.reveal(TSPEC_C)
    k.hint(TARGS(k[0], ntargs(k[0])))


CLASS_NAME = SpecFun('class_name', [Ref], STR, lambda c: (lambda r: z3.If(NSOF(c) == S('std'), SIMPLIFY(r), r))(STD(cat(uname(c), TSPEC_C(c)))))
PY_CLASS = SpecFun('python_class_name', [Ref], STR, lambda c: MANGLED(CLASS_NAME(c), z3.BoolVal(True)))
CLASS_QN.define = lambda c: STD(cat(qname(c), TSPEC_C(c)))


@contract('class_name', props=['C17'])
def _(k):
    k.result(CLASS_NAME(k[0])); k.reveal(CLASS_NAME)


@contract('python_class_name', props=['C17'])
def _(k):
    k.result(PY_CLASS(k[0])); k.reveal(PY_CLASS)


@contract('class_qualified_name', props=['C17', 'C03'])
def _(k):
    k.result(CLASS_QN(k[0])); k.reveal(CLASS_QN)


DEPS_C_ = Fold('class_type_arguments', [Ref], RL.sort, lambda c: RL.nil, lambda c, i, a: z3.If(kind_of(targ(c, i)) == E_('Type'), RL.snoc(a, A('getAsType', Ref, targ(c, i))), a))
DEPS_C = SpecFun('class_type_dependencies', [Ref], RL.sort, lambda c: z3.If(is_spec(c), DEPS_C_(c, ntargs(c)), RL.nil))


@contract('get_type_dependencies', sig='CXXRecordDecl', props=['C03', 'C04'])
def _(k):
    k.result(DEPS_C(k[0])); k.reveal(DEPS_C)
    k.hint(DEPS_C_(k[0], ntargs(k[0])))


# ------------------------------------------------------------------ selection
def any_s(c): return fun.ANY_S(DEPS_C(c), RL.len(DEPS_C(c)))


def breq_c(c):
    named = z3.Or(named_in('classes_to_bind', CLASS_QN(c)), named_in('classes_to_bind', STD(qname(c))))
    return z3.Or(named, z3.And(z3.Or(pack(named_(TBOOL, 'O_bind_class_template_specialization')), z3.Not(is_spec(c))), ns_bind(NSOF(c)), z3.Not(any_s(c))))


named_ = lambda td, n: globals_named(td, n)
from cxxv.terms import named as globals_named


def sreq_c(c):
    full, q = CLASS_QN(c), STD(qname(c))
    rest = z3.Or(ns_skip(NSOF(c)), any_s(c))
    return z3.If(named_in('classes_to_skip', full), True, z3.If(named_in('classes_to_bind', full), False, z3.If(named_in('classes_to_skip', q), True, z3.If(named_in('classes_to_bind', q), False, rest))))


BREQ_C.define = breq_c
SREQ_C.define = sreq_c


@contract('is_binding_requested', sig='CXXRecordDecl', props=['C03', 'C04'], raises_unspecified=True)
def _(k):
    k.result(BREQ_C(k[0])); k.reveal(BREQ_C)
    k.hint(any_s(k[0]))


@contract('is_skipping_requested', sig='CXXRecordDecl', props=['C03', 'C04'], raises_unspecified=True)
def _(k):
    k.result(SREQ_C(k[0])); k.reveal(SREQ_C)
    k.hint(any_s(k[0]))


# ------------------------------------------------------------------ bindability
def nproto(t): return A('len_params', INT, t)
def proto_arg(t, i): return A('getParamType', Ref, t, i)


BADP = Exists('some_prototype_parameter_unbindable', [Ref], lambda t, i: z3.Not(BINDABLE_T(proto_arg(t, i))))


def bad_decl(c, i):
    a = targ(c, i)
    t = A('getParamTypeForDecl', Ref, a)
    return z3.And(kind_of(a) == E_('Declaration'), isa('FunctionProtoType', t), z3.Or(z3.Not(BINDABLE_T(ret_t(t))), BADP(t, nproto(t))))


BADT = Exists('some_function_argument_unbindable', [Ref], bad_decl)
STDF = SpecFun('std_function_bindable', [Ref], BOOL, lambda c: z3.Not(z3.And(is_spec(c), BADT(c, ntargs(c)))))


@contract('is_std_function_bindable', props=['C09'])
def _(k):
    k.result(STDF(k[0])); k.reveal(STDF)
    k.hint(BADT(k[0], ntargs(k[0])))


def bindable_c(c):
    q = qname(c)
    linked = B('hasNameForLinkage')(c)
    anon = z3.Contains(q, S(')'))
    named = z3.And(z3.Not(B('isInAnonymousNamespace')(c)), z3.Or(linked, B('isCXXClassMember')(c)), z3.Implies(anon, z3.And(z3.Not(linked), B('isAnonymousStructOrUnion')(c))))
    acc_ok = z3.And(access(c) != E_('AS_protected'), access(c) != E_('AS_private'))
    inst = z3.If(q == S('std::function'), STDF(c), z3.Or(z3.Not(B('isInvalid')(A('getPointOfInstantiation', Ref, c))), BUILTIN(c)))
    return z3.And(named, z3.Not(B('isDependentType')(c)), acc_ok, z3.Or(B('isCompleteDefinition')(c), z3.And(is_spec(c), inst)), z3.Not(BANNED(c)))


BINDABLE_C_RAW = SpecFun('class_bindable_raw', [Ref], BOOL, bindable_c)
BINDABLE_C.define = lambda c: BINDABLE_C_RAW(c)


@contract('is_bindable_raw', sig='CXXRecordDecl', props=['C09', 'C04'])
def _(k):
    k.result(BINDABLE_C_RAW(k[0])); k.reveal(BINDABLE_C_RAW)


@contract('is_bindable', sig='CXXRecordDecl', props=['C09', 'C15', 'C04'], memo=lambda k, key: BINDABLE_C_RAW(key))
def _(k):
    k.result(BINDABLE_C(k[0])); k.reveal(BINDABLE_C)


# ------------------------------------------------------------------ bases
def nbases(c): return A('len_bases', INT, c)
def base(c, i): return A('at_bases', Ref, c, i)
def base_type(c, i): return canonical(A('getType', Ref, base(c, i)))
def is_rec(t): return isa('RecordType', t)
def base_decl(c, i): return A('getDecl', Ref, base_type(c, i))
def base_access(c, i): return A('getAccessSpecifier', INT, base(c, i))


ESFT_B = Exists('some_base_shares_ownership', [Ref], lambda c, i: z3.And(is_rec(base_type(c, i)), nn(base_decl(c, i)), ESFT(base_decl(c, i))))
ESFT = SpecFun('shares_ownership_of_itself', [Ref], BOOL, lambda c: z3.Or(qname(c) == S('std::enable_shared_from_this'), z3.And(B('isCompleteDefinition')(c), ESFT_B(c, nbases(c)))))


@contract('is_inherited_from_enable_shared_from_this', props=['C18'])
def _(k):
    k.result(ESFT(k[0])); k.reveal(ESFT)
    k.hint(ESFT_B(k[0], nbases(k[0])))


def nctors(c): return A('len_ctors', INT, c)
def ctor(c, i): return A('at_ctors', Ref, c, i)


def nfields(c): return A('len_fields', INT, c)
def cfield(c, i): return A('at_fields', Ref, c, i)
def elem_type(c, t): return A('getBaseElementType', Ref, A('getASTContext', Ref, c), t)
def ftype(f): return A('getType', Ref, f)
def as_class(t): return A('getAsCXXRecordDecl', Ref, t)


BAD_CTOR = Exists('some_default_constructor_unusable', [Ref], lambda c, i: z3.And(B('isDefaultConstructor')(ctor(c, i)), z3.Or(access(ctor(c, i)) == E_('AS_private'), B('isDeleted')(ctor(c, i)))))
DEL_CTOR = Exists('some_default_constructor_deleted', [Ref], lambda c, i: z3.And(B('isDefaultConstructor')(ctor(c, i)), B('isDeleted')(ctor(c, i))))


def implicit_bad(r): return z3.And(B('needsImplicitDefaultConstructor')(r), z3.Not(BDDC(r)))


BAD_BASE = Exists('some_base_not_default_constructible', [Ref], lambda c, i: (lambda r: z3.And(is_rec(base_type(c, i)), nn(r), z3.Or(z3.Not(B('hasDefaultConstructor')(r)), BAD_CTOR(r, nctors(r)), implicit_bad(r))))(base_decl(c, i)))


def bad_member(c, i):
    f = cfield(c, i)
    t = elem_type(c, ftype(f))
    r = as_class(t)
    return z3.And(z3.Not(B('hasInClassInitializer')(f)), z3.Or(B('isReferenceType')(t), z3.If(nn(r), z3.Or(z3.Not(B('hasDefaultConstructor')(r)), DEL_CTOR(r, nctors(r)), implicit_bad(r)), B('isConstQualified')(t))))


BAD_MEMB = Exists('some_member_not_default_constructible', [Ref], bad_member)
BDDC = SpecFun('subobjects_default_constructible', [Ref], BOOL, lambda c: z3.And(z3.Not(BAD_BASE(c, nbases(c))), z3.Or(B('isUnion')(c), z3.Not(BAD_MEMB(c, nfields(c))))))


@contract('base_default_default_constructor_available', props=['C18'])
def _(k):
    k.result(BDDC(k[0])); k.reveal(BDDC)
    k.hint(BAD_BASE(k[0], nbases(k[0])), BAD_MEMB(k[0], nfields(k[0])))


# ------------------------------------------------------------------ data members
def nmethods(c): return A('len_methods', INT, c)
def method(c, i): return A('at_methods', Ref, c, i)


NOASSIGN = Exists('some_copy_assignment_unusable', [Ref], lambda c, i: z3.And(B('isCopyAssignmentOperator')(method(c, i)), z3.Or(access(method(c, i)) != E_('AS_public'), B('isDeleted')(method(c, i)))))
def tdecl(t): return A('getDecl', Ref, canonical(t))


NOASSIGN_B = Exists('some_base_unassignable', [Ref], lambda c, i: z3.Not(ASSIGNABLE_T(A('getType', Ref, base(c, i)))))
NOASSIGN_F = Exists('some_member_unassignable', [Ref], lambda c, i: (lambda t: z3.Or(B('isReferenceType')(t), B('isConstQualified')(t), z3.Not(ASSIGNABLE_T(t))))(elem_type(c, ftype(cfield(c, i)))))
ASSIGNABLE_T = SpecFun('type_assignable', [Ref], BOOL, lambda t: (lambda c: z3.Not(z3.And(is_rec(canonical(t)), nn(c), z3.Or(NOASSIGN(c, nmethods(c)), z3.And(B('needsImplicitCopyAssignment')(c), z3.Or(NOASSIGN_B(c, nbases(c)), NOASSIGN_F(c, nfields(c))))))))(tdecl(t)))
ASSIGNABLE = SpecFun('field_assignable', [Ref], BOOL, lambda f: ASSIGNABLE_T(ftype(f)))


@contract('is_assignable', sig='QualType', props=['C14'])
def _(k):
    k.result(ASSIGNABLE_T(k[0])); k.reveal(ASSIGNABLE_T)
    c = tdecl(k[0])
    k.hint(NOASSIGN(c, nmethods(c)), NOASSIGN_B(c, nbases(c)), NOASSIGN_F(c, nfields(c)))


@contract('is_field_assignable', props=['C14'])
def _(k):
    k.result(ASSIGNABLE(k[0])); k.reveal(ASSIGNABLE)


BINDABLE_D = SpecFun('field_bindable', [Ref], BOOL, lambda f: z3.And(z3.Not(B('isAnyPointerType')(ftype(f))), z3.Not(B('isReferenceType')(ftype(f))), z3.Not(B('isArrayType')(ftype(f))), z3.Not(B('isAnonymousStructOrUnion')(f)), z3.Not(B('isBitField')(f)), BINDABLE_T(ftype(f))))


@contract('is_bindable', sig='FieldDecl', props=['C14', 'C09'])
def _(k):
    k.result(BINDABLE_D(k[0])); k.reveal(BINDABLE_D)


def chopped(s, suf): return z3.If(z3.SuffixOf(S(suf), s), z3.SubString(s, 0, z3.Length(s) - len(suf)), s)


def member_text(f, cq):
    q = chopped(chopped(cq, '::(anonymous)'), '::(anonymous union)')
    return cat(z3.If(z3.Or(B('isConstQualified')(ftype(f)), z3.Not(ASSIGNABLE(f))), S('.def_readonly("'), S('.def_readwrite("')), uname(f), '", &', q, '::', uname(f), ')')


MEMBER = SpecFun('data_member_text', [Ref, STR], STR, member_text)


@contract('bind_data_member', props=['C14'])
def _(k):
    k.result(MEMBER(k[0], k[1])); k.reveal(MEMBER)


# ------------------------------------------------------------------ const overloads
def twin(m, i):
    c = parent(m)
    o = method(c, i)
    nm = FQN(m, z3.BoolVal(True))
    return z3.And(access(o) == access(m), z3.Not(B('isConst')(o)), FQN(o, z3.BoolVal(True)) == z3.SubString(nm, 0, z3.Length(nm) - 6))


TWIN = Exists('some_non_const_twin', [Ref], twin)
CONST_OVER = SpecFun('const_overload', [Ref], BOOL, lambda m: z3.And(B('isConst')(m), z3.Length(FQN(m, z3.BoolVal(True))) > 6, TWIN(m, nmethods(parent(m)))))


@contract('is_const_overload', props=['C09', 'C13'])
def _(k):
    k.result(CONST_OVER(k[0])); k.reveal(CONST_OVER)
    k.hint(TWIN(k[0], nmethods(parent(k[0]))))
