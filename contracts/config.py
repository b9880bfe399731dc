"""Contracts of source/config.cpp and the string helpers of source/util.cpp it rests on."""
from cxxv.terms import *
from cxxv.spec import contract, REG, CFG
from cxxv.models import FILE_LINES, READABLE, FFNO, FLNO
from cxxv.execu import LV
import z3

VS = ('vec', TSTR)
L = LT(TSTR)
LS = L.sort
Len = z3.Length
SS = ('set', TSTR)
MSS = ('map', TSTR, TSTR)
MSV = ('map', TSTR, VS)


# ------------------------------------------------------------------ string helpers
@contract('begins_with', props=['C01'])
def _(k): k.result(z3.PrefixOf(k[1], k[0]))


@contract('ends_with', props=['C01'])
def _(k): k.result(z3.SuffixOf(k[1], k[0]))


@contract('Config::get', trusted='returns the one Config object', model=lambda ex, n, this, vals: LV('CONFIG'))
def _(k): pass


# ------------------------------------------------------------------ C01 namespace selection
def ns_match(ns, n):
    """n names ns itself or one of its ancestors ('' is the global root: everything)"""
    return z3.Or(n == S(''), n == ns, z3.PrefixOf(cat(n, '::'), ns))


ML = Fold('longest_match', [LS, STR], INT, lambda l, ns: z3.IntVal(0),
          lambda l, ns, i, acc: z3.If(z3.And(ns_match(ns, L.at(l, i)), Len(L.at(l, i)) > acc), Len(L.at(l, i)), acc))
HAS_EMPTY = Exists('has_empty', [LS], lambda l, i: L.at(l, i) == S(''))


def ns_terms(ns, bind, skip):
    b, s = ML(bind, ns, L.len(bind)), ML(skip, ns, L.len(skip))
    raises = z3.And(b == s, b > 0)
    binding = z3.Or(b > s, z3.And(b == 0, s == 0, HAS_EMPTY(bind, L.len(bind))))
    skipping = s > b
    return raises, binding, skipping


def ns_common(k):
    bind, skip, ns = k.own('namespaces_to_bind'), k.own('namespaces_to_skip'), k[0]
    r, b, s = ns_terms(ns, bind, skip)
    k.raises(r)
    k.template(lambda i: z3.Or(ML(bind, ns, i) > 0, HAS_EMPTY(bind, i)))
    k.hint(HAS_EMPTY(bind, L.len(bind)), HAS_EMPTY(skip, L.len(skip)))
    return b, s


@contract('Config::is_namespace_binding_requested', props=['C01'])
def _(k): k.result(ns_common(k)[0])


@contract('Config::is_namespace_skipping_requested', props=['C01'])
def _(k): k.result(ns_common(k)[1])


# ------------------------------------------------------------------ C03 explicit directives
def listed(l, x): return contains(TSTR, l, x)


def directive(fn, field, prop='C03'):
    def spec(k):
        k.result(listed(k.own(field), strip(k[0], S(' '))))
    contract('Config::' + fn, props=[prop])(spec)


directive('is_function_binding_requested', 'functions_to_bind')
directive('is_function_skipping_requested', 'functions_to_skip')
directive('is_class_binding_requested', 'classes_to_bind')
directive('is_class_skipping_requested', 'classes_to_skip')
directive('is_enum_binding_requested', 'enums_to_bind')
directive('is_enum_skipping_requested', 'enums_to_skip')
directive('is_field_skipping_requested', 'fields_to_skip')
directive('is_buffer_protocol_requested', 'buffer_protocols', 'C18')
directive('is_smart_holder_requested', 'smart_held_classes', 'C18')


@contract('Config::is_module_local_requested', props=['C18'])
def _(k):
    add, skip, ns = k.own('module_local_namespaces_to_add'), k.own('module_local_namespaces_to_skip'), k[0]
    al, a, s = listed(add, S('@all_namespaces')), listed(add, ns), listed(skip, ns)
    k.raises(z3.And(z3.Not(al), a, s))
    k.result(z3.If(al, z3.Not(s), a))


@contract('Config::is_custom_trampoline_function_requested', props=['C13'])
def _(k):
    m = unpack(MSS, k.own('custom_trampoline_functions_'))
    k.result(z3.If(z3.Select(m.t[0], k[0]), z3.Select(m.t[1], k[0]), S('')))


ANY_PREFIX = Exists('any_prefix', [LS, STR], lambda l, s, i: z3.PrefixOf(L.at(l, i), s))


@contract('Config::is_include_skipping_requested', props=['C16'])
def _(k):
    l = k.own('includes_to_skip')
    k.result(ANY_PREFIX(l, k[0], L.len(l)))


INC_TEXT = Fold('include_lines', [LS], STR, lambda l: S(''), lambda l, i, acc: cat(acc, S('#include '), L.at(l, i), S('\n')))


@contract('Config::includes_code', props=['C16'])
def _(k):
    l = k.own('includes_to_add')
    t = cat(INC_TEXT(l, L.len(l)), z3.If(k.opt('O_include_pybind11_stl', TBOOL), S('#include <pybind11/stl.h>\n'), S('')))
    k.result(z3.If(t == S(''), S(''), cat(t, '\n')))


# ------------------------------------------------------------------ C02 the configuration file
def trim_def(s):
    a, b = FFNO(s, S(' \t')), FLNO(s, S(' \t'))
    return z3.If(a == NPOS, S(''), z3.SubString(s, a, b - a + 1))


TRIM = SpecFun('trim', [STR], STR, trim_def)


@contract('trim', props=['C02'])
def _(k):
    k.result(TRIM(k[0]))
    k.reveal(TRIM)


@contract('split_in_two', props=['C02'])
def _(k):
    k.raises(split_bad(k[0]))
    k.result(V(('pair', TSTR, TSTR), (vstr(split_a(k[0])), vstr(split_b(k[0])))))


def split_pos(s):
    a, b = z3.IndexOf(s, ' ', 0), z3.IndexOf(s, '\t', 0)
    return z3.If(a < 0, b, z3.If(b < 0, a, z3.If(b < a, b, a)))


def split_bad(s): return split_pos(s) < 0
def split_a(s): return z3.SubString(s, 0, split_pos(s))
def split_b(s): return z3.SubString(s, split_pos(s) + 1, Len(s) - split_pos(s) - 1)


# A line, as the documentation describes it:  empty lines and '#' lines are comments, one trailing CR is ignored,
# '+'/'-' then the token up to the first space, then the operand.
def l_comment(l): return z3.Or(l == S(''), z3.PrefixOf(S('#'), l))
def l_text(l): return z3.If(z3.SuffixOf(S('\r'), l), z3.SubString(l, 0, Len(l) - 1), l)
def l_skip(l): return z3.Or(l_comment(l), l_text(l) == S(''))
def l_plus(l): return z3.PrefixOf(S('+'), l_text(l))
def l_signed(l): return z3.Or(l_plus(l), z3.PrefixOf(S('-'), l_text(l)))
def l_space(l): return z3.IndexOf(l_text(l), S(' '), 0)
def l_token(l): return z3.SubString(l_text(l), 1, l_space(l) - 1)
def l_name(l): return z3.SubString(l_text(l), l_space(l) + 1, Len(l_text(l)) - l_space(l) - 1)
def l_bare(l): return strip(l_name(l), S(' '))


PLUS = SpecFun('line_plus', [STR], BOOL, l_plus)
SKIP = SpecFun('line_ignored', [STR], BOOL, l_skip)
TOKEN = SpecFun('line_token', [STR], STR, l_token)
NAME = SpecFun('line_operand', [STR], STR, l_name)
MALFORMED = SpecFun('line_malformed', [STR], BOOL, lambda l: z3.Or(z3.Not(l_signed(l)), l_space(l) < 0))

# token -> (sign required to have an effect (True '+', False '-', None both), field, kind)
EFFECTS = [
    ('namespace', True, 'namespaces_to_bind', 'push'), ('namespace', False, 'namespaces_to_skip', 'push'),
    ('class', True, 'classes_to_bind', 'push'), ('class', False, 'classes_to_skip', 'push'),
    ('enum', True, 'enums_to_bind', 'push'), ('enum', False, 'enums_to_skip', 'push'),
    ('python_builtin', True, 'python_builtins', 'insert'), ('python_builtin', False, 'not_python_builtins', 'insert'),
    ('function', True, 'functions_to_bind', 'push'), ('function', False, 'functions_to_skip', 'push'),
    ('include', True, 'includes_to_add', 'push'), ('include', False, 'includes_to_skip', 'push'),
    ('include_for_class', True, 'class_includes_', 'append'), ('include_for_namespace', True, 'namespace_includes_', 'append'),
    ('buffer_protocol', True, 'buffer_protocols', 'push'),
    ('module_local_namespace', True, 'module_local_namespaces_to_add', 'push'), ('module_local_namespace', False, 'module_local_namespaces_to_skip', 'push'),
    ('binder', True, 'binders_', 'put_trim'), ('add_on_binder', True, 'add_on_binders_', 'put_trim'),
    ('binder_for_namespace', True, 'binder_for_namespaces_', 'put_trim'), ('add_on_binder_for_namespace', True, 'add_on_binder_for_namespaces_', 'put_trim'),
    ('field', False, 'fields_to_skip', 'push'),
    ('custom_shared', None, 'holder_type_', 'assign'), ('smart_holder', True, 'smart_held_classes', 'push'),
    ('pybind11_include_file', None, 'pybind11_include_file_', 'assign'),
    ('default_static_pointer_return_value_policy', None, 'default_static_pointer_return_value_policy_', 'assign'),
    ('default_static_lvalue_reference_return_value_policy', None, 'default_static_lvalue_reference_return_value_policy_', 'assign'),
    ('default_static_rvalue_reference_return_value_policy', None, 'default_static_rvalue_reference_return_value_policy_', 'assign'),
    ('default_member_pointer_return_value_policy', None, 'default_member_pointer_return_value_policy_', 'assign'),
    ('default_member_lvalue_reference_return_value_policy', None, 'default_member_lvalue_reference_return_value_policy_', 'assign'),
    ('default_member_rvalue_reference_return_value_policy', None, 'default_member_rvalue_reference_return_value_policy_', 'assign'),
    ('default_call_guard', None, 'default_call_guard_', 'assign'),
    ('prefix_for_static_member_functions', None, 'prefix_for_static_member_functions_', 'assign'),
    ('trampoline_member_function_binder', True, 'custom_trampoline_functions_', 'put'),
]
TOKENS = []
for t_, _s, _f, _k in EFFECTS:
    if t_ not in TOKENS: TOKENS.append(t_)
TWO_PART = ['include_for_class', 'include_for_namespace', 'binder', 'add_on_binder', 'binder_for_namespace', 'add_on_binder_for_namespace', 'trampoline_member_function_binder']


def line_bad(l):
    tok, nm = TOKEN(l), NAME(l)
    unknown = z3.And(*[tok != S(t) for t in TOKENS])
    two = z3.Or(*[tok == S(t) for t in TWO_PART])
    minus_only = z3.Or(tok == S('include_for_class'), tok == S('include_for_namespace'))
    return z3.And(z3.Not(SKIP(l)), z3.Or(MALFORMED(l), unknown, z3.And(PLUS(l), two, split_bad(nm)), z3.And(z3.Not(PLUS(l)), minus_only)))


BAD = Exists('bad_line', [LS], lambda ls, i: line_bad(L.at(ls, i)))
KINDS_TD = {'push': VS, 'insert': SS, 'append': MSV, 'put_trim': MSS, 'put': MSS, 'assign': TSTR}


def effect_fold(tok, sign, field, kind):
    td = KINDS_TD[kind]

    def step(ls, i, acc):
        l = L.at(ls, i)
        c = z3.And(z3.Not(SKIP(l)), TOKEN(l) == S(tok))
        if sign is True: c = z3.And(c, PLUS(l))
        if sign is False: c = z3.And(c, z3.Not(PLUS(l)))
        nm = NAME(l)
        bare = strip(nm, S(' '))
        if kind == 'push': new = L.snoc(acc, bare)
        elif kind == 'insert': new = z3.Store(acc, bare, z3.BoolVal(True))
        elif kind == 'assign': new = bare
        else:
            m = unpack(td, acc)
            d, v = m.t
            key = split_a(nm)
            if kind == 'append':
                cur = z3.If(z3.Select(d, key), z3.Select(v, key), L.nil)
                nv = L.snoc(cur, split_b(nm))
            elif kind == 'put_trim': nv = TRIM(split_b(nm))
            else: nv = split_b(nm)
            new = pack(V(td, (z3.Store(d, key, z3.BoolVal(True)), z3.Store(v, key, nv))))
        return z3.If(c, new, acc)
    return FoldInit('cfg_' + field, [LS], sort_of(td), step)


CFG_FOLDS = {f: effect_fold(t, s, f, kd) for t, s, f, kd in EFFECTS}


@contract('Config::read', props=['C02'])
def _(k):
    lines = FILE_LINES(k[0])
    k.raises(z3.Or(z3.Not(READABLE(k[0])), BAD(lines, L.len(lines))))
    for t, s, f, kd in EFFECTS:
        k.set_cfg(f, CFG_FOLDS[f](k.own(f), lines, L.len(lines)))
    k.reveal(PLUS, SKIP, TOKEN, NAME, MALFORMED)
