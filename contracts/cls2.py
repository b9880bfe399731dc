"""Contracts of source/class.cpp, part 2: members, trampolines, constructors."""
from .world import *
from .fun2 import *
from .fun import *
from .cls import *
from .enm import *
from .util import MANGLED, INDENT

cfg_fields = cfgl('fields_to_skip')


def ndecls(c): return A('len_decls', INT, c)
def decl(c, i): return A('at_decls', Ref, c, i)
def nshadows(u): return A('len_shadows', INT, u)
def shadow(u, i): return A('at_shadows', Ref, u, i)
def nspecs(t): return A('len_specs', INT, t)
def spec(t, i): return A('at_specs', Ref, t, i)
def target(s): return A('getTargetDecl', Ref, s)
def public(d): return access(d) == E_('AS_public')
def using_of(d): return z3.And(isa('UsingDecl', d), public(d))


# ------------------------------------------------------------------ data members
def field_ok(f): return z3.And(z3.Not(named_in('fields_to_skip', qname(f))), BINDABLE_D(f))
def field_line(c, f): return cat('\tcl', MEMBER(f, CLASS_QN(c)), ';\n')


USED_FIELDS = Fold('fields_named_by_using', [Ref, Ref], STR, lambda c, u: S(''), lambda c, u, i, a: (lambda s: z3.If(z3.And(isa('UsingShadowDecl', s), isa('FieldDecl', target(s)), field_ok(target(s))), cat(a, field_line(c, target(s))), a))(shadow(u, i)))
ALL_USED_FIELDS = Fold('using_fields', [Ref], STR, lambda c: S(''), lambda c, i, a: z3.If(using_of(decl(c, i)), cat(a, USED_FIELDS(c, decl(c, i), nshadows(decl(c, i)))), a))
OWN_FIELDS = Fold('own_fields', [Ref], STR, lambda c: S(''), lambda c, i, a: (lambda d: z3.If(z3.And(isa('FieldDecl', d), public(d), field_ok(d)), cat(a, field_line(c, d)), a))(decl(c, i)))
FIELDS = SpecFun('data_members', [Ref], STR, lambda c: cat(ALL_USED_FIELDS(c, ndecls(c)), OWN_FIELDS(c, ndecls(c))))


@contract('binding_public_data_members', props=['C09', 'C14', 'C03'], raises_unspecified=True)
def _(k):
    c = k[0]
    k.result(FIELDS(c)); k.reveal(FIELDS)
    k.hint(ALL_USED_FIELDS(c, ndecls(c)), OWN_FIELDS(c, ndecls(c)))


# ------------------------------------------------------------------ member functions
def special(m): return z3.Or(isa('CXXConstructorDecl', m), isa('CXXDestructorDecl', m))
def method_ok(m): return z3.And(BINDABLE_F(m), z3.Not(SREQ_F(m)), z3.Not(special(m)), z3.Not(CONST_OVER(m)))
def using_method(s): return z3.And(isa('UsingShadowDecl', s), isa('CXXMethodDecl', target(s)), method_ok(target(s)))
def spec_method(s): return z3.And(isa('CXXMethodDecl', s), public(s), method_ok(s))
T_, F__ = z3.BoolVal(True), z3.BoolVal(False)
CL = S('\tcl')

U_TXT = Fold('using_methods', [Ref, Ref], STR, lambda c, u: S(''), lambda c, u, i, a: z3.If(using_method(shadow(u, i)), cat(a, BTEXT(CL, target(shadow(u, i)), c, T_)), a))
S_TXT = Fold('template_methods', [Ref], STR, lambda t: S(''), lambda t, i, a: z3.If(spec_method(spec(t, i)), cat(a, BTEXT(CL, spec(t, i), NULL, F__)), a))
D_TXT = Fold('declared_methods', [Ref], STR, lambda c: S(''), lambda c, i, a: (lambda d: cat(a, z3.If(using_of(d), U_TXT(c, d, nshadows(d)), S('')), z3.If(isa('FunctionTemplateDecl', d), S_TXT(d, nspecs(d)), S(''))))(decl(c, i)))
M_TXT = Fold('own_methods', [Ref], STR, lambda c: S(''), lambda c, i, a: z3.If(z3.And(public(method(c, i)), method_ok(method(c, i))), cat(a, BTEXT(CL, method(c, i), NULL, F__)), a))
METHODS = SpecFun('member_functions', [Ref], STR, lambda c: cat(D_TXT(c, ndecls(c)), M_TXT(c, nmethods(c))))

# the types those bindings ask for
U_REQ = Fold('requested_by_using', WS + [Ref], HBs, lambda HB, HC, HS, TY, u: HB, lambda HB, HC, HS, TY, u, i, a: z3.If(using_method(shadow(u, i)), REQ_F(a, HC, HS, TY, target(shadow(u, i))), a))
S_REQ = Fold('requested_by_template', WS + [Ref], HBs, lambda HB, HC, HS, TY, t: HB, lambda HB, HC, HS, TY, t, i, a: z3.If(spec_method(spec(t, i)), REQ_F(a, HC, HS, TY, spec(t, i)), a))


def d_req(HB, HC, HS, TY, c, i, a):
    d = decl(c, i)
    h = z3.If(using_of(d), U_REQ(a, HC, HS, TY, d, nshadows(d)), a)
    return z3.If(isa('FunctionTemplateDecl', d), S_REQ(h, HC, HS, TY, d, nspecs(d)), h)


D_REQ = Fold('requested_by_declarations', WS + [Ref], HBs, lambda HB, HC, HS, TY, c: HB, d_req)
M_REQ = Fold('requested_by_methods', WS + [Ref], HBs, lambda HB, HC, HS, TY, c: D_REQ(HB, HC, HS, TY, c, ndecls(c)), lambda HB, HC, HS, TY, c, i, a: z3.If(z3.And(public(method(c, i)), method_ok(method(c, i))), REQ_F(a, HC, HS, TY, method(c, i)), a))
REQ_M = SpecFun('requested_by_member_functions', WS + [Ref], HBs, lambda HB, HC, HS, TY, c: M_REQ(HB, HC, HS, TY, c, nmethods(c)))


@contract('binding_public_member_functions', props=['C09', 'C10', 'C08', 'C04', 'C03'], raises_unspecified=True)
def _(k):
    c = k[0]
    w = World(k)
    k.result(METHODS(c)); k.reveal(METHODS, REQ_M)
    k.set_heap('binding_requested_', TBOOL, w.req(REQ_M, c))
    k.hint(D_TXT(c, ndecls(c)), M_TXT(c, nmethods(c)), w.req(M_REQ, c, nmethods(c)), w.req(D_REQ, c, ndecls(c)))


# ------------------------------------------------------------------ members of public bases of a template
def tb_ok(c, i): return z3.And(base_access(c, i) == E_('AS_public'), z3.Not(B('isVirtual')(base(c, i))), is_rec(base_type(c, i)), nn(base_decl(c, i)), z3.Not(SREQ_C(base_decl(c, i))))


TB_TXT = Fold('members_of_template_bases', [Ref], STR, lambda c: S(''), lambda c, i, a: (lambda r: z3.If(tb_ok(c, i), cat(a, FIELDS(r), METHODS(r), TBASES(r)), a))(base_decl(c, i)))
TBASES = SpecFun('template_bases', [Ref], STR, lambda c: z3.If(is_spec(c), TB_TXT(c, nbases(c)), S('')))
TB_REQ = Fold('requested_by_template_bases_', WS + [Ref], HBs, lambda HB, HC, HS, TY, c: HB, lambda HB, HC, HS, TY, c, i, a: (lambda r: z3.If(tb_ok(c, i), REQ_TB(REQ_M(a, HC, HS, TY, r), HC, HS, TY, r), a))(base_decl(c, i)))
REQ_TB = SpecFun('requested_by_template_bases', WS + [Ref], HBs, lambda HB, HC, HS, TY, c: z3.If(is_spec(c), TB_REQ(HB, HC, HS, TY, c, nbases(c)), HB))


@contract('binding_template_bases', props=['C09', 'C04'], raises_unspecified=True)
def _(k):
    c = k[0]
    w = World(k)
    k.result(TBASES(c)); k.reveal(TBASES, REQ_TB)
    k.set_heap('binding_requested_', TBOOL, w.req(REQ_TB, c))
    k.hint(TB_TXT(c, nbases(c)), w.req(TB_REQ, c, nbases(c)))


# ------------------------------------------------------------------ trampolines
def callback_name(c):
    ns = REPL(NSOF(c), S('::'), S('_'))
    return MANGLED(cat('PyCallBack_', z3.If(ns == S(''), S(''), cat(ns, '_')), PY_CLASS(c)), F__)


CB_NAME = SpecFun('trampoline_name', [Ref], STR, callback_name)


@contract('callback_structure_name', props=['C13', 'C17'])
def _(k):
    k.result(CB_NAME(k[0])); k.reveal(CB_NAME)


def abstract(c): return B('isAbstract')(c)
def pure(m): return B('isPure')(m)
def virtual(m): return B('isVirtual')(m)
def final(x): return A('hasAttr_FinalAttr', BOOL, x)


PURE_TWIN = Exists('some_pure_const_overload', [Ref], lambda c, i: z3.And(pure(method(c, i)), CONST_OVER(method(c, i))))
SOME_VIRTUAL = Exists('some_overridable_virtual', [Ref], lambda c, i: (lambda m: z3.And(access(m) != E_('AS_private'), BINDABLE_F(m), virtual(m), z3.Not(isa('CXXDestructorDecl', m))))(method(c, i)))
BASE_CB = Exists('some_base_needs_trampoline', [Ref], lambda c, i: z3.And(base_access(c, i) != E_('AS_private'), is_rec(base_type(c, i)), nn(base_decl(c, i)), CB_NEEDED(base_decl(c, i))))
CB_NEEDED = SpecFun('trampoline_needed', [Ref], BOOL, lambda c: z3.And(z3.Not(z3.And(abstract(c), PURE_TWIN(c, nmethods(c)))), z3.Not(final(c)), z3.Or(SOME_VIRTUAL(c, nmethods(c)), BASE_CB(c, nbases(c)))))


@contract('is_callback_structure_needed', props=['C13'])
def _(k):
    c = k[0]
    k.result(CB_NEEDED(c)); k.reveal(CB_NEEDED)
    k.hint(PURE_TWIN(c, nmethods(c)), SOME_VIRTUAL(c, nmethods(c)), BASE_CB(c, nbases(c)))


BAD_PURE = Exists('some_pure_not_implementable', [Ref], lambda c, i: (lambda m: z3.And(pure(m), z3.Not(isa('CXXConstructorDecl', m)), z3.Or(access(m) == E_('AS_private'), z3.Not(BINDABLE_F(m)), SREQ_F(m))))(method(c, i)))
BAD_CB_BASE = Exists('some_base_not_implementable', [Ref], lambda c, i: (lambda r: z3.And(is_rec(base_type(c, i)), nn(r), z3.If(base_access(c, i) != E_('AS_private'), z3.Not(CB_CONS(r)), abstract(r))))(base_decl(c, i)))
CB_CONS = SpecFun('trampoline_constructible', [Ref], BOOL, lambda c: z3.Or(z3.Not(abstract(c)), z3.And(z3.Not(BAD_PURE(c, nmethods(c))), z3.Not(BAD_CB_BASE(c, nbases(c))))))


@contract('is_callback_structure_constructible', props=['C13'], raises_unspecified=True)
def _(k):
    c = k[0]
    k.result(CB_CONS(c)); k.reveal(CB_CONS)
    k.hint(BAD_PURE(c, nmethods(c)), BAD_CB_BASE(c, nbases(c)))


SETS_ = ('set', TSTR)
SetS = z3.ArraySort(STR, BOOL)
MSS_ = ('map', TSTR, TSTR)
BODY = ('\npybind11::gil_scoped_acquire gil;\npybind11::function overload = pybind11::get_overload(static_cast<const {0} *>(this), "{1}");\nif (overload) {\n'
        '\tauto o = overload.operator()<pybind11::return_value_policy::reference>({2});\n\tif (pybind11::detail::cast_is_temporary_value_reference<{3}>::value) {\n'
        '\t\tstatic pybind11::detail::override_caster_t<{3}> caster;\n\t\treturn pybind11::detail::cast_ref<{3}>(std::move(o), caster);\n\t}\n'
        '\treturn pybind11::detail::cast_safe<{3}>(std::move(o));\n}\n')


def fill(t, *args):
    import re
    return cat(*[args[int(x[1])] if re.fullmatch(r'\{\d\}', x) else x for x in re.split(r'(\{\d\})', t) if x])


def py_r(m): return FIX(PY_R(m, nparams(m)))
def py_a(m): return PY_A(m, nparams(m))
def cb_ret(m): return FIX(STDQ(ret_t(m)))
def const_of(m): return z3.If(B('isConst')(m), S(' const'), S(''))


CB_KEY = SpecFun('trampoline_key', [Ref], STR, lambda m: cat(uname(m), '(', py_r(m), ')', const_of(m)))


def cb_ok(m):
    return z3.And(access(m) != E_('AS_private'), BINDABLE_F(m), z3.Not(SREQ_F(m)), z3.Not(special(m)), virtual(m), z3.Not(CONST_OVER(m)))


CB_OK = SpecFun('overridable_in_python', [Ref], BOOL, cb_ok)


def est(m): return A('getExceptionSpecType', INT, A('getType', Ref, m))


def est_text(m):
    e = est(m)
    return z3.If(isa('FunctionProtoType', A('getType', Ref, m)), z3.If(z3.Or(e == E_('EST_BasicNoexcept'), e == E_('EST_NoexceptTrue')), S('noexcept '), z3.If(z3.And(e != E_('EST_None'), e != E_('EST_NoexceptFalse')), S('throw() '), S(''))), S(''))


def cb_method(c, cn, m, r):
    """one overriding function; r is the next number of a return type alias"""
    comma = z3.Contains(cb_ret(m), S(','))
    alias = cat('_binder_ret_', itos(r))
    rt0 = z3.If(z3.PrefixOf(S('class '), cb_ret(m)), z3.SubString(cb_ret(m), 6, z3.Length(cb_ret(m)) - 6), cb_ret(m))
    rt = z3.If(comma, alias, cb_ret(m))
    using = z3.If(comma, cat('\tusing ', alias, ' = ', rt0, ';\n'), S(''))
    head = cat('\t', rt, ' ', uname(m), '(', py_r(m), ')', const_of(m), ' ', est_text(m), 'override {')
    full = cat(NSOF(c), z3.If(z3.Length(NSOF(c)) > 0, S('::'), S('')), uname(c), '::', uname(m))
    cmap = unpack(MSS_, CFG('custom_trampoline_functions_', MSS_))
    cust = z3.If(z3.Select(cmap.t[0], full), z3.Select(cmap.t[1], full), S(''))
    std = cat(INDENT(fill(BODY, cn, PYNAME(m), py_a(m), rt), S('\t\t')), z3.If(pure(m), cat('\t\tpybind11::pybind11_fail("Tried to call pure virtual function \\"', uname(c), '::', PYNAME(m), '\\"");\n'),
              cat('\t\treturn ', uname(c), '::', uname(m), '(', py_a(m), ');\n')))
    own = cat('\n\t\treturn ', cust, '<', uname(c), ',', CB_NAME(c), '>(this, "', cn, '", "', uname(m), '"', z3.If(z3.Length(py_a(m)) > 0, cat(', ', py_a(m)), S('')), ');\n')
    return cat(using, head, z3.If(cust == S(''), std, own), '\t}\n')


CB_M = SpecFun('trampoline_function', [Ref, STR, Ref, INT], STR, cb_method)
CB_MSET = Fold('trampoline_keys', [Ref, SetS], SetS, lambda c, s: s, lambda c, s, i, a: z3.If(CB_OK(method(c, i)), z3.Store(a, CB_KEY(method(c, i)), True), a))


def cb_new(c, s, i):
    m = method(c, i)
    return z3.And(CB_OK(m), z3.Not(z3.Select(CB_MSET(c, s, i), CB_KEY(m))), z3.Not(final(m)))


CB_MID = Fold('trampoline_aliases', [Ref, SetS, INT], INT, lambda c, s, r: r, lambda c, s, r, i, a: z3.If(z3.And(cb_new(c, s, i), z3.Contains(cb_ret(method(c, i)), S(','))), a + 1, a))
CB_MTXT = Fold('trampoline_functions', [Ref, STR, SetS, INT], STR, lambda c, cn, s, r: S(''), lambda c, cn, s, r, i, a: z3.If(cb_new(c, s, i), cat(a, CB_M(c, cn, method(c, i), CB_MID(c, s, r, i))), a))
CB_MINC = Fold('trampoline_includes', [Ref, SetS, RL.sort], RL.sort, lambda c, s, v: v, lambda c, s, v, i, a: z3.If(cb_new(c, s, i), RL.snoc(a, method(c, i)), a))


def cbb(c, i): return z3.And(base_access(c, i) != E_('AS_private'), is_rec(base_type(c, i)), nn(base_decl(c, i)))


CB_BSET = Fold('trampoline_keys_of_bases', [Ref, SetS], SetS, lambda c, s: CB_MSET(c, s, nmethods(c)), lambda c, s, i, a: z3.If(cbb(c, i), CB_SET(base_decl(c, i), a), a))
CB_BID = Fold('trampoline_aliases_of_bases', [Ref, SetS, INT], INT, lambda c, s, r: CB_MID(c, s, r, nmethods(c)), lambda c, s, r, i, a: z3.If(cbb(c, i), CB_ID(base_decl(c, i), CB_BSET(c, s, i), a), a))
CB_BTXT = Fold('trampoline_functions_of_bases', [Ref, STR, SetS, INT], STR, lambda c, cn, s, r: CB_MTXT(c, cn, s, r, nmethods(c)),
               lambda c, cn, s, r, i, a: z3.If(cbb(c, i), cat(a, CB_TXT(base_decl(c, i), cn, CB_BSET(c, s, i), CB_BID(c, s, r, i))), a))
CB_BINC = Fold('trampoline_includes_of_bases', [Ref, SetS, RL.sort], RL.sort, lambda c, s, v: CB_MINC(c, s, v, nmethods(c)), lambda c, s, v, i, a: z3.If(cbb(c, i), CB_INC(base_decl(c, i), CB_BSET(c, s, i), a), a))
CB_SET = SpecFun('trampoline_all_keys', [Ref, SetS], SetS, lambda c, s: CB_BSET(c, s, nbases(c)))
CB_ID = SpecFun('trampoline_all_aliases', [Ref, SetS, INT], INT, lambda c, s, r: CB_BID(c, s, r, nbases(c)))
CB_TXT = SpecFun('trampoline_text', [Ref, STR, SetS, INT], STR, lambda c, cn, s, r: CB_BTXT(c, cn, s, r, nbases(c)))
CB_INC = SpecFun('trampoline_all_includes', [Ref, SetS, RL.sort], RL.sort, lambda c, s, v: CB_BINC(c, s, v, nbases(c)))


@contract('bind_member_functions_for_call_back', props=['C13', 'C09', 'C03'], raises_unspecified=True)
def _(k):
    c, cn, s, r, v = k[0], k[1], k[2], k[3], k[4]
    k.result(CB_TXT(c, cn, s, r))
    k.final(2, CB_SET(c, s)); k.final(3, CB_ID(c, s, r)); k.final(4, CB_INC(c, s, v))
    k.reveal(CB_TXT, CB_SET, CB_ID, CB_INC, CB_M, CB_OK, CB_KEY)
    n, b = nmethods(c), nbases(c)
    k.hint(CB_MSET(c, s, n), CB_MID(c, s, r, n), CB_MTXT(c, cn, s, r, n), CB_MINC(c, s, v, n), CB_BSET(c, s, b), CB_BID(c, s, r, b), CB_BTXT(c, cn, s, r, b), CB_BINC(c, s, v, b))
