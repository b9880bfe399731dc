"""Contracts of source/function.cpp, part 2: the text of a function binding, the types it asks for, the binder object."""
from .world import *
from .fun import *
from . import cls
from .enm import request_spec, emit, modvar, F_

POLICY = 'default_%s_%s_return_value_policy_'


def policy(f):
    q = ret_t(f)
    member = z3.And(is_method(f), z3.Not(B('isStatic')(f)))

    def p(kind): return z3.If(member, CFG(POLICY % ('member', kind), TSTR), CFG(POLICY % ('static', kind), TSTR))
    return z3.If(B('isPointerType')(q), cat(', ', p('pointer')), z3.If(B('isLValueReferenceType')(q), cat(', ', p('lvalue_reference')), z3.If(B('isRValueReferenceType')(q), cat(', ', p('rvalue_reference')), S(''))))


RET_PREFIX = [('enum ', ''), ('class ', ''), ('struct ', ''), ('const enum ', 'const '), ('const class ', 'const '), ('const struct ', 'const ')]


def plain_ret(s):
    for a, b in RET_PREFIX: s = z3.If(z3.PrefixOf(S(a), s), cat(b, z3.SubString(s, len(a), z3.Length(s) - len(a))), s)
    return s


PLAIN_RET = SpecFun('elaborated_prefix_removed', [STR], STR, plain_ret)
CALLEE = SpecFun('callee_name', [Ref, Ref], STR, lambda f, p: STD(z3.If(nn(p), cat(CLASS_QN(p), '::', uname(f)), qname(f))))
GUARD = lambda: CFG('default_call_guard_', TSTR)
PYARGS = Fold('python_arguments', [Ref], STR, lambda f: S(''), lambda f, i, a: cat(a, ', pybind11::arg("', A('getName', STR, param(f, i)), '")'))


def fn_expr(f, n, p, lam):
    """the callable handed to pybind11: the exact function pointer, or a lambda taking n arguments"""
    direct = z3.And(n == nparams(f), z3.Not(lam))
    m = imin(nparams(f), n)
    lr, la = FIX(LAM_R(f, n, m)), LAM_A(f, n, m)
    rt = PLAIN_RET(STDQ(ret_t(f)))
    obj = cat(CLASS_QN(z3.If(nn(p), p, parent(f))), z3.If(B('isConst')(f), S(' const'), S('')), ' &o', z3.If(n != 0, S(', '), S('')))
    return z3.If(direct, cat('(', FPTR(f), ') &', CALLEE(f, p), TSPEC(f)),
                 z3.If(z3.And(is_method(f), z3.Not(B('isStatic')(f))), cat('[](', obj, lr, ') -> ', rt, ' { return o.', uname(f), '(', la, '); }'),
                       cat('[](', lr, ') -> ', rt, ' { return ', CALLEE(f, p), '(', la, '); }')))


def fn_doc(f, n, lam):
    d = DOC(f)
    return z3.If(z3.And(n == nparams(f), z3.Not(lam)), cat(d, z3.If(z3.Length(d) > 0, S('\\n\\n'), S('')), 'C++: ', STD(cat(qname(f), '(', ARGS(f), ')', z3.If(is_const(f), S(' const'), S('')), ' --> ', STDQ(ret_t(f))))), S(''))


def ftext(f, n, p, lam):
    pre = z3.If(is_static(f), S('_static'), S(''))
    name = z3.If(is_static(f), cat(CFG('prefix_for_static_member_functions_', TSTR), PYNAME(f)), PYNAME(f))
    return cat('.def', pre, '("', name, '", ', fn_expr(f, n, p, lam), ', "', fn_doc(f, n, lam), '"', policy(f), PYARGS(f, imin(nparams(f), n)),
               z3.If(GUARD() != S(''), cat(', pybind11::call_guard<', GUARD(), '>()'), S('')), ');')


FTEXT = SpecFun('function_binding', [Ref, INT, Ref, BOOL], STR, ftext)
REQP = Fold('requested_by_parameters', WS + [Ref], HBs, lambda HB, HC, HS, TY, f: REQ_T(HB, HC, HS, TY, canonical(ret_t(f))), lambda HB, HC, HS, TY, f, i, a: REQ_T(a, HC, HS, TY, orig_t(param(f, i))))
REQ_F = SpecFun('requested_by_function', WS + [Ref], HBs, lambda HB, HC, HS, TY, f: REQP(HB, HC, HS, TY, f, nparams(f)))


@contract('bind_function', sig='!string', name='bind_function(one arity)', props=['C08', 'C10', 'C11', 'C04', 'C09'], raises_unspecified=True)
def _(k):
    f, n, flag, p, lam = k[0], k[1], k[2], k[4], k[5]
    w = World(k)
    k.requires(n >= 0)
    k.requires(z3.Implies(flag, n == nparams(f)))
    k.result(FTEXT(f, n, p, lam)); k.reveal(FTEXT, PLAIN_RET, CALLEE, REQ_F)
    k.set_heap('binding_requested_', TBOOL, z3.If(flag, w.req(REQ_F, f), w.HB))
    m = imin(nparams(f), n)
    k.hint(PYARGS(f, m), w.req(REQP, f, m))


SOMEFUN = Exists('some_parameter_is_a_function', [Ref], lambda f, i: ISFUN(canonical(orig_t(param(f, i)))))
SOMEDEF = Exists('some_parameter_has_a_default', [Ref], lambda f, i: B('hasDefaultArg')(param(f, i)))
FIRSTDEF = Least('first_default', [Ref], SOMEDEF, nparams, lambda f, i: B('hasDefaultArg')(param(f, i)))
ARITY0 = SpecFun('first_arity', [Ref], INT, lambda f: z3.If(SOMEFUN(f, nparams(f)), nparams(f), FIRSTDEF(f)))
ARITIES = Fold('all_arities', [STR, Ref, Ref, BOOL], STR, lambda m, f, p, lam: S(''), lambda m, f, p, lam, i, a: cat(a, m, FTEXT(f, i, p, lam), '\n'), start=lambda m, f, p, lam: ARITY0(f))


def inc_path(f): return z3.If(z3.Length(INCLUDE_OF(f)) > 0, z3.SubString(INCLUDE_OF(f), 1, z3.Length(INCLUDE_OF(f)) - 2), S(''))


def annot(f):
    return z3.If(pack(named(TBOOL, 'O_annotate_functions')), cat('\t// function-signature: ', FQN(f, z3.BoolVal(False)), '(', ARGS(f), ') file:', inc_path(f), ' line:', LINE(f), '\n'), S(''))


BTEXT = SpecFun('function_bindings', [STR, Ref, Ref, BOOL], STR, lambda m, f, p, lam: cat(annot(f), ARITIES(m, f, p, z3.Or(lam, B('isVariadic')(f)), nparams(f) + 1)))


@contract('bind_function', sig='string', name='bind_function(all arities)', props=['C08', 'C10', 'C04', 'C09'], raises_unspecified=True)
def _(k):
    m, f, p, lam = k[0], k[1], k[3], k[4]
    w = World(k)
    k.result(BTEXT(m, f, p, lam)); k.reveal(BTEXT, ARITY0)
    k.set_heap('binding_requested_', TBOOL, w.req(REQ_F, f))

    def last_arity(ex, leaf):
        for h, (srt, e0) in leaf.items():
            if srt != HBs: continue
            for i, (si, _) in leaf.items():
                if si == INT: yield 'requested with the last arity', lambda env, h=h, i=i, e0=e0: env[h] == z3.If(env[i] > nparams(f), w.req(REQ_F, f), e0)
    k.invariant(last_arity)
    k.hint(SOMEFUN(f, nparams(f)), FIRSTDEF(f), SOMEDEF(f, nparams(f)), ARITIES(m, f, p, z3.Or(lam, B('isVariadic')(f)), nparams(f) + 1))


# ------------------------------------------------------------------ the binder object
@contract('FunctionBinder::id', props=['C04', 'C06'])
def _(k): k.result(FQN(F_(k, 'F'), z3.BoolVal(False)))


@contract('FunctionBinder::named_decl', props=['C04'])
def _(k): k.result(F_(k, 'F'))


@contract('FunctionBinder::bindable', props=['C04'])
def _(k): k.result(BINDABLE_F(F_(k, 'F')))


@contract('FunctionBinder::request_bindings_and_skipping', props=['C04', 'C03'], raises_unspecified=True)
def _(k): request_spec(k, F_(k, 'F'), SREQ_F, BREQ_F)


@contract('FunctionBinder::bind', props=['C04', 'C08', 'C06'], raises_unspecified=True)
def _(k):
    f = F_(k, 'F')
    w = World(k)
    k.assume(NAMED(k.this) == f, 'named_decl() is the declaration the binder was made for')
    emit(k, k.this, cat('\t// ', qname(f), '(', ARGS(f), ') file:', inc_path(f), ' line:', LINE(f), '\n', BTEXT(cat('\t', modvar(NSOF(f))), f, NULL, z3.BoolVal(False)), '\n'))
    HC = w.HC
    k.set_heap('binding_requested_', TBOOL, z3.If(is_binded(HC, k.this), w.HB, REQ_F(w.HB, z3.Store(HC, k.this, cat('\t// ', qname(f), '(', ARGS(f), ') file:', inc_path(f), ' line:', LINE(f), '\n')), w.HS, w.TY, f)))
