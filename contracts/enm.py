"""Contracts of source/enum.cpp."""
from cxxv.execu import bitop
from .ast import *
from .fun import named_in, ns_bind, ns_skip, cfgl
from .config import listed
from .world import *

BINDABLE_E = SpecFun('enum_bindable', [Ref], BOOL, lambda e: z3.And(z3.Not(B('isCXXInstanceMember')(e)), z3.Length(uname(e)) > 0, z3.Not(z3.Contains(uname(e), S(')')))))
BREQ_E = SpecFun('enum_binding_requested', [Ref], BOOL, lambda e: z3.Or(named_in('enums_to_bind', qname(e)), ns_bind(NSOF(e))))
SREQ_E = SpecFun('enum_skipping_requested', [Ref], BOOL, lambda e: (lambda q: z3.If(named_in('enums_to_skip', q), True, z3.If(named_in('enums_to_bind', q), False, ns_skip(NSOF(e)))))(STD(qname(e))))


@contract('is_bindable', sig='EnumDecl', props=['C19', 'C09', 'C04'])
def _(k):
    k.result(BINDABLE_E(k[0])); k.reveal(BINDABLE_E)


@contract('is_binding_requested', sig='EnumDecl', props=['C03', 'C04'], raises_unspecified=True)
def _(k):
    k.result(BREQ_E(k[0])); k.reveal(BREQ_E)


@contract('is_skipping_requested', sig='EnumDecl', props=['C03', 'C04'], raises_unspecified=True)
def _(k):
    k.result(SREQ_E(k[0])); k.reveal(SREQ_E)


def n_enum(e): return A('len_enumerators', INT, e)
def enumerator(e, i): return A('at_enumerators', Ref, e, i)


VALUES = Fold('enum_values', [Ref], STR, lambda e: S(''), lambda e, i, a: cat(a, '\t\t.value("', uname(enumerator(e, i)), '", ', qname(enumerator(e, i)), ')\n'))


def mlocal(ns):
    add, skip = cfgl('module_local_namespaces_to_add'), cfgl('module_local_namespaces_to_skip')
    return z3.If(listed(add, S('@all_namespaces')), z3.Not(listed(skip, ns)), listed(add, ns))


MLOCAL = SpecFun('module_local_requested', [STR], BOOL, mlocal)


def chop(s): return z3.SubString(s, 0, z3.Length(s) - 1)


ENUM_TEXT = SpecFun('enum_text', [STR, Ref], STR, lambda m, e: cat(
    chop(cat('\tpybind11::enum_<', qname(e), '>(', m, ', "', uname(e), '"', z3.If(B('isScoped')(e), S(''), S(', pybind11::arithmetic()')), ', "', DOC(e), '"',
             z3.If(MLOCAL(NSOF(e)), S(', pybind11::module_local()'), S('')), ')\n', VALUES(e, n_enum(e)))),
    z3.If(B('isScopedUsingClassTag')(e), S(';\n\n'), S('\n\t\t.export_values();\n\n'))))


@contract('bind_enum', props=['C19', 'C18', 'C11'], raises_unspecified=True)
def _(k):
    k.result(ENUM_TEXT(k[0], k[1])); k.reveal(ENUM_TEXT, MLOCAL)
    k.hint(VALUES(k[1], n_enum(k[1])))


def F_(k, f): return k.field(f, TREF)


@contract('EnumBinder::id', props=['C04'])
def _(k): k.result(qname(F_(k, 'E')))


@contract('EnumBinder::named_decl', props=['C04'])
def _(k): k.result(F_(k, 'E'))


@contract('EnumBinder::bindable', props=['C04', 'C19'])
def _(k): k.result(z3.And(BINDABLE_E(F_(k, 'E')), z3.Not(BANNED(F_(k, 'E')))))


def has(flags, bit): return bitop('&', flags, z3.IntVal(bit)) != 0


def request_spec(k, decl, SREQ, BREQ):
    """skip wins; both only if asked for by the flags"""
    fl = k[1]
    sk = z3.And(has(fl, 1), SREQ(decl))
    HS, HB = k.heap('skipping_requested_', TBOOL), k.heap('binding_requested_', TBOOL)
    k.set_heap('skipping_requested_', TBOOL, z3.If(sk, z3.Store(HS, k.this, True), HS))
    k.set_heap('binding_requested_', TBOOL, z3.If(z3.And(z3.Not(sk), has(fl, 2), BREQ(decl)), z3.Store(HB, k.this, True), HB))


@contract('EnumBinder::request_bindings_and_skipping', props=['C04', 'C03'], raises_unspecified=True)
def _(k): request_spec(k, F_(k, 'E'), SREQ_E, BREQ_E)


def modvar(ns): return cat('M("', ns, '")')


@contract('Context::module_variable_name', props=['C06'])
def _(k): k.result(modvar(k[0]))


def emit(k, b, text):
    HC = k.heap('code_', TSTR)
    k.set_heap('code_', TSTR, z3.If(is_binded(HC, b), HC, z3.Store(HC, b, text)))


@contract('EnumBinder::bind', props=['C04', 'C19', 'C06'], raises_unspecified=True)
def _(k):
    e = F_(k, 'E')
    k.assume(NAMED(k.this) == e, 'named_decl() is the declaration the binder was made for')
    emit(k, k.this, cat('\t', COMMENT(e), ENUM_TEXT(modvar(NSOF(e)), e), ';\n\n'))
