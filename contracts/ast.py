"""Vocabulary shared by the contracts: AST accessors (uninterpreted functions of the declaration) and the
specification functions that stand for whole binder functions."""
from cxxv.terms import *
from cxxv.spec import contract, REG, CFG
import z3
from cxxv.models import itos
from .util import REPL, FIXB


def A(name, sort, *args): return ufapp(name, list(args), sort)


def acc(name, sort): return lambda *a: ufapp(name, list(a), sort)


qname = acc('getQualifiedNameAsString', STR)
uname = acc('getNameAsString', STR)
as_string = acc('getAsString', STR)
canonical = acc('getCanonicalType', Ref)
pointee = acc('getPointeeType', Ref)
parent = acc('getParent', Ref)
access = acc('getAccess', INT)
ret_t = acc('getReturnType', Ref)
orig_t = acc('getOriginalType', Ref)
cxxrecord = acc('getAsCXXRecordDecl', Ref)
tagdecl = acc('getAsTagDecl', Ref)
location = acc('getLocation', Ref)
astctx = acc('getASTContext', Ref)
srcman = acc('getSourceManager', Ref)
tkind = acc('getTemplatedKind', INT)
type_for_decl = acc('getTypeForDecl', Ref)
tal_of = acc('getTemplateSpecializationArgs', Ref)
targs_of = acc('getTemplateArgs', Ref)
kind_of = acc('getKind', INT)


def B(name): return acc(name, BOOL)


def isa(t, x): return A('isa_' + t, BOOL, x)
def nparams(f): return A('len_params', INT, f)
def param(f, i): return A('at_params', Ref, f, i)
def E_(name): return enum_val(name)
def nn(x): return x != NULL


# ---- specification functions (opaque at call sites; the definition is revealed in the function's own proof)
STD = SpecFun('standard_name', [STR], STR, lambda s: STD_RAW(s))                     # standard_name(string)
SIMPLIFY = SpecFun('simplify_std_class_name', [STR], STR)     # drop defaulted allocator / comparator arguments

# inline namespaces of the standard library and the typedef names users write
NAME_MAP = [('std::__1::', 'std::'), ('std::__cxx11::', 'std::'), ('std::basic_string<char>', 'std::string'),
            ('std::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string'),
            ('class std::basic_string<char, struct std::char_traits<char>, class std::allocator<char> >', 'std::string'),
            ('std::basic_ostream<char>', 'std::ostream'), ('std::basic_istream<char>', 'std::istream'), ('class std::string', 'std::string'), ('class std::ostream', 'std::ostream'),
            ('class std::istream', 'std::istream'), ('class std::__thread_id', 'std::thread::id'), ('std::__thread_id', 'std::thread::id'), ('nullptr_t', 'std::nullptr_t')]


def FIX(s): return FIXB(s, z3.IntVal(0))


def std_raw(s):
    for a, b in NAME_MAP: s = REPL(s, S(a), S(b))
    return FIX(z3.If(z3.PrefixOf(S('std::'), s), cat('std::', SIMPLIFY(z3.SubString(s, 5, z3.Length(s) - 5))), s))


STD_RAW = SpecFun('standard_name_raw', [STR], STR, std_raw)
STDQ = SpecFun('standard_name_of_type', [Ref], STR, lambda q: z3.If(as_string(q) == S('std::size_t'), as_string(q), STD(as_string(canonical(q)))))
NSOF = SpecFun('namespace_of', [Ref], STR, lambda d: (lambda q, n: z3.If(n < 0, q, z3.SubString(q, 0, z3.If(n > 1, n - 2, n))))(STD(qname(d)), z3.Length(STD(qname(d))) - z3.Length(uname(d))))
INCLUDE_OF = SpecFun('include_of', [Ref], STR)
LINE = SpecFun('line_of', [Ref], STR, lambda d: z3.If(CFG('skip_line_number', TBOOL), S(''), itos(A('getSpellingLineNumber', INT, srcman(astctx(d)), location(d)))))
COMMENT = SpecFun('comment_of', [Ref], STR, lambda d: cat('// ', STD(qname(d)), ' file:', z3.If(z3.Length(INCLUDE_OF(d)) > 0, z3.SubString(INCLUDE_OF(d), 1, z3.Length(INCLUDE_OF(d)) - 2), S('')), ' line:', LINE(d), '\n'))
DOC = SpecFun('documentation_of', [Ref], STR)
def _pre(s, *ps): return z3.Or([z3.PrefixOf(S(p), s) for p in ps])


def bindable_t(q):
    ok = z3.Not(z3.Or(B('isFunctionPointerType')(q), B('isRValueReferenceType')(q), B('isInstantiationDependentType')(q), B('isArrayType')(q)))
    pq = pointee(q)
    pn = STD(as_string(pq))
    ptr = z3.Implies(isa('PointerType', q), z3.And(z3.Not(B('isPointerType')(pq)), z3.Not(B('isArrayType')(pq)), z3.Not(B('isConstantArrayType')(pq)),
                     z3.Not(_pre(pn, 'struct std::pair', 'const struct std::pair', 'class std::tuple', 'const class std::tuple')), BINDABLE_T(pq)))
    ref = z3.Implies(isa('ReferenceType', q), z3.And(z3.Not(_pre(pn, 'struct std::pair', 'class std::tuple')), BINDABLE_T(pq)))
    rec = z3.Implies(z3.And(nn(q), nn(cxxrecord(q))), BINDABLE_C(cxxrecord(q)))
    tag = z3.Implies(z3.And(nn(q), nn(tagdecl(q))), z3.Not(z3.Or(access(tagdecl(q)) == E_('AS_protected'), access(tagdecl(q)) == E_('AS_private'))))
    return z3.And(ok, ptr, ref, rec, tag)


BINDABLE_T = SpecFun('type_bindable', [Ref], BOOL, bindable_t)
BINDABLE_C = SpecFun('class_bindable', [Ref], BOOL)
BINDABLE_F = SpecFun('function_bindable', [Ref], BOOL)
BANNED = SpecFun('banned', [Ref], BOOL, lambda d: z3.Or(z3.PrefixOf(S('std::_'), STD(qname(d))), STD(qname(d)) == S('std::initializer_list'), STD(qname(d)) == S('std::locale::facet')))
BREQ_T = SpecFun('type_binding_requested', [Ref], BOOL, lambda q: z3.If(isa('PointerType', q), BREQ_T(pointee(q)), z3.If(isa('ReferenceType', q), BREQ_T(pointee(q)), z3.And(nn(cxxrecord(q)), BREQ_C(cxxrecord(q))))))
SREQ_T = SpecFun('type_skipping_requested', [Ref], BOOL, lambda q: z3.If(isa('PointerType', q), SREQ_T(pointee(q)), z3.If(isa('ReferenceType', q), SREQ_T(pointee(q)), z3.And(nn(cxxrecord(q)), SREQ_C(cxxrecord(q))))))
BREQ_C = SpecFun('class_binding_requested', [Ref], BOOL)
SREQ_C = SpecFun('class_skipping_requested', [Ref], BOOL)
BREQ_F = SpecFun('function_binding_requested', [Ref], BOOL)
SREQ_F = SpecFun('function_skipping_requested', [Ref], BOOL)
ISFUN = SpecFun('is_function_type', [Ref], BOOL, lambda q: z3.Or(isa('FunctionType', q), z3.If(isa('PointerType', q), ISFUN(pointee(q)), z3.And(isa('ReferenceType', q), ISFUN(pointee(q))))))
CLASS_QN = SpecFun('class_qualified_name', [Ref], STR)
TYPENAME = SpecFun('type_name_of_declaration', [Ref], STR, lambda d: STD(as_string(A('getCanonicalTypeInternal', Ref, type_for_decl(d)))))
