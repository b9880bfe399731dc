"""Adapters that call one function of the compiled tree, and generators of inputs for it.  The expected answer comes
from the function's contract, evaluated concretely (cxxv/conc.py)."""
import random, itertools
from cxxv.conc import Arr, pyset, pymap
from contracts.config import EFFECTS, TOKENS

UNITS = {}


class Unit:
    """cpp: adapter body.  gen(rng) -> dict of inputs in adapter order; env(inputs, params) -> evaluation environment;
    outs(k) -> list of (kind, term)"""

    def __init__(self, con, cpp, names, gen, env=None, outs=None, fixed=(), include=''):
        self.include = include
        self.con, self.cpp, self.names, self.gen, self.envf, self.outs, self.fixed = con, cpp, names, gen, env, outs, list(fixed)
        UNITS[con] = self


NS = ['', 'a', 'b', 'a::b', 'ab', 'a::bc', 'a::b::c', 'aa', 'a::bb', 'b::a', 'a::b::cd', 'std', 'aba', 'a::b::c::d', 'a::b_', '::a', 'a:', 'a:b']


def pick(r, xs): return xs[r.randrange(len(xs))]
def some(r, xs, n=4): return [pick(r, xs) for _ in range(r.randrange(n + 1))]
def word(r, alpha, n=8): return ''.join(pick(r, alpha) for _ in range(r.randrange(n + 1)))


def text(alpha, n=8):
    return lambda r: word(r, alpha, n)


def U(con, cpp, names, gen, **kw): return Unit(con, cpp, names, gen, **kw)


def two(alpha, n=5): return lambda r: {0: word(r, alpha, n), 1: word(r, alpha, 3)}


U('begins_with', 'string a = in.s(), b = in.s(); out.put(begins_with(a, b));', [0, 1], two('ab:'))
U('ends_with', 'string a = in.s(), b = in.s(); out.put(ends_with(a, b));', [0, 1], two('ab:'))
U('trim', 'out.put(trim(in.s()));', [0], lambda r: {0: word(r, ' \tab\n', 6)})
U('split_in_two', 'string a = in.s(); out.put(split_in_two(a, "e"));', [0], lambda r: {0: word(r, ' \tab', 6)}, env=lambda d: {'error_string': 'e'}, include='namespace binder { std::pair<std::string, std::string> split_in_two(std::string const &s, std::string const &error_string); }\n')
U('split', 'string a = in.s(), b = in.s(); out.put(split(a, b));', [0, 1], lambda r: {0: word(r, 'ab/\n', 7), 1: pick(r, '/\n')})
U('indent', 'string a = in.s(), b = in.s(); out.put(indent(a, b));', [0, 1], lambda r: {0: word(r, 'ab\n', 7), 1: pick(r, ['', ' ', '\t', '  '])})
U('replace', 'string a = in.s(), b = in.s(), c = in.s(); replace(a, b, c); out.put(a);', [0, 1, 2],
  lambda r: {0: word(r, 'ab\\"\n*&', 7), 1: pick(r, ['a', 'ab', 'b', '\\', '"', '\n', 'aa', '*', '&']), 2: pick(r, ['', 'a', 'aa', 'ba', '\\\\', '\\"', '\\n', '_star_'])}, outs=lambda k: [k.finals[0]])
U('replace_', 'string a = in.s(), b = in.s(), c = in.s(); out.put(replace_(a, b, c));', [0, 1, 2],
  lambda r: {0: word(r, 'ab\\"\n*&', 7), 1: pick(r, ['a', 'ab', 'b', '\\', '"', 'aa']), 2: pick(r, ['', 'a', 'aa', 'ba'])})
U('base_namespace', 'out.put(base_namespace(in.s()));', [0], lambda r: {0: r.choice([word(r, 'ab:', 7), pick(r, NS)])})
U('last_namespace', 'out.put(last_namespace(in.s()));', [0], lambda r: {0: r.choice([word(r, 'ab:', 7), pick(r, NS)])})
U('mangle_type_name', 'string a = in.s(); bool b = in.b(); out.put(mangle_type_name(a, b));', [0, 1], lambda r: {0: word(r, 'ab <>,:*&_', 8), 1: r.random() < .8})
U('fix_boolean_types', 'string a = in.s(); fix_boolean_types(a); out.put(a);', [0],
  lambda r: {0: ''.join(pick(r, ['_Bool', '_Boo', 'a', '_', ' ', '<', '>', ',', '1', '_Bool']) for _ in range(r.randrange(6)))}, outs=lambda k: [k.finals[0]])


def ns_gen(r): return {'Config.namespaces_to_bind': some(r, NS), 'Config.namespaces_to_skip': some(r, NS), 0: pick(r, NS)}


for w in ('binding', 'skipping'):
    U('Config::is_namespace_%s_requested' % w, 'Config c; c.namespaces_to_bind = in.v(); c.namespaces_to_skip = in.v(); out.put(c.is_namespace_%s_requested(in.s()));' % w,
      ['Config.namespaces_to_bind', 'Config.namespaces_to_skip', 0], ns_gen)

NAMES = ['a', 'a::X', 'X', 'X<int>', 'X< int >', 'X<int,a>', 'X<int, a>', 'ab', 'a::Xb', 'a::f(int)', 'a::f(int, int)', 'a::f(int,int)', '', 'a ::X']
for fn, fld in [('is_function_binding_requested', 'functions_to_bind'), ('is_function_skipping_requested', 'functions_to_skip'), ('is_class_binding_requested', 'classes_to_bind'),
                ('is_class_skipping_requested', 'classes_to_skip'), ('is_enum_binding_requested', 'enums_to_bind'), ('is_enum_skipping_requested', 'enums_to_skip'),
                ('is_field_skipping_requested', 'fields_to_skip'), ('is_buffer_protocol_requested', 'buffer_protocols'), ('is_smart_holder_requested', 'smart_held_classes')]:
    U('Config::' + fn, 'Config c; c.%s = in.v(); out.put(c.%s(in.s()));' % (fld, fn), ['Config.' + fld, 0], (lambda fld: lambda r: {'Config.' + fld: [x.replace(' ', '') for x in some(r, NAMES)], 0: pick(r, NAMES)})(fld))
U('Config::is_module_local_requested', 'Config c; c.module_local_namespaces_to_add = in.v(); c.module_local_namespaces_to_skip = in.v(); out.put(c.is_module_local_requested(in.s()));',
  ['Config.module_local_namespaces_to_add', 'Config.module_local_namespaces_to_skip', 0], lambda r: {'Config.module_local_namespaces_to_add': some(r, NS[:6] + ['@all_namespaces'] * 2), 'Config.module_local_namespaces_to_skip': some(r, NS[:6]), 0: pick(r, NS[:7])})
U('Config::is_include_skipping_requested', 'Config c; c.includes_to_skip = in.v(); out.put(c.is_include_skipping_requested(in.s()));', ['Config.includes_to_skip', 0],
  lambda r: {'Config.includes_to_skip': some(r, ['<a', '<a/', '<a/b', '<a.h>', '<ab', '']), 0: pick(r, ['<a/b.h>', '<a.h>', '<ab/c.h>', '<b>', ''])})
U('Config::includes_code', 'Config c; c.includes_to_add = in.v(); O_include_pybind11_stl = in.b(); out.put(c.includes_code());', ['Config.includes_to_add', 'O_include_pybind11_stl'],
  lambda r: {'Config.includes_to_add': some(r, ['<a.h>', '"b.h"', '<c>']), 'O_include_pybind11_stl': r.random() < .5})
U('Config::is_custom_trampoline_function_requested', 'Config c; c.custom_trampoline_functions_ = in.m(); out.put(c.is_custom_trampoline_function_requested(in.s()));', ['Config.custom_trampoline_functions_', 0],
  lambda r: {'Config.custom_trampoline_functions_': {pick(r, NAMES[:6]): pick(r, ['', 'f', 'g']) for _ in range(r.randrange(3))}, 0: pick(r, NAMES[:6])})


# ---- the configuration file
def read_gen(r):
    def line():
        x = r.random()
        if x < .06: return pick(r, ['', '#', '# +class a', '\r', '#\r', ' +class a', '+class', '+', '-', '+nope a', 'class a', '+class\ta'])
        s = pick(r, '+-') + pick(r, TOKENS) + ' '
        s += pick(r, ['a', 'a b', 'a  b', 'a\tb', 'a::X', 'a::X< int > <b.h>', ' a', 'a ', 'a b c', 'a b ', '', 'a\tb c', 'a b\t'])
        return s + ('\r' if r.random() < .15 else '')
    return {'file': '\n'.join(line() for _ in range(r.randrange(1, 6))) + ('\n' if r.random() < .7 else '')}


READ_FIELDS = []
for _t, _s, _f, _k in EFFECTS:
    if _f not in [x for x, _ in READ_FIELDS]: READ_FIELDS.append((_f, _k))
READ_CPP = ('string n = "cfg.tmp"; { std::ofstream o(n); o << in.s(); }\nConfig c;\n' + ''.join('c.%s = "";\n' % f for f, k in READ_FIELDS if k == 'assign') + 'c.read(n);\n' +
            ''.join({'push': 'out.put(c.%s);\n', 'insert': 'out.put(c.%s);\n', 'assign': 'out.put(c.%s);\n'}.get(k, 'out.map(c.%s);\n') % f for f, k in READ_FIELDS))


def read_env(d):
    t = d['file']
    lines = t.split('\n')
    if lines and lines[-1] == '': lines.pop()
    e = {'file_lines': lambda n: tuple(lines), 'file_readable': lambda n: True, 'file_name': 'cfg.tmp'}
    for f, k in READ_FIELDS:
        if k == 'push': e['Config.' + f] = ()
        elif k == 'insert': e['Config.' + f] = Arr(False)
        elif k == 'assign': e['Config.' + f] = ''
        else:
            e['Config.%s.dom' % f], e['Config.%s.val' % f] = Arr(False), Arr(() if k == 'append' else '')
    return e


U('Config::read', READ_CPP, ['file'], read_gen, env=read_env, outs=lambda k: [k.cfgs[f] for f, _ in READ_FIELDS])
USF = r'''
string pre = in.s(), name = in.s(), old = in.s(), code = in.s(); bool exists = in.b();
string full = pre + "/" + name;
if( system(("rm -rf " + pre).c_str()) ) {}
if( exists ) { if( system(("mkdir -p $(dirname " + full + ") && touch -d 2001-01-01 " + pre).c_str()) ) {} std::ofstream(full) << old; if( system(("touch -d 2001-01-01 " + full).c_str()) ) {} }
update_source_file(pre, name, code);
struct stat st; bool there = stat(full.c_str(), &st) == 0;
string got; { std::ifstream f(full); got.assign((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
out.put(there); out.put(got); out.put(there and st.st_mtime > 1000000000L);
'''


def usf_env(d):
    full = d[0] + '/' + d[1]
    return {'FS.dom': Arr(False, {full: True} if d['exists'] else {}), 'FS.val': Arr('', {full: d['old']} if d['exists'] else {}), 'FSW': Arr(False), 'system_rc': lambda c: 0, 'open_for_write_fails': lambda f: False, 'full!': full}


def usf_outs(k):
    import z3
    f = z3.Const('full!', z3.StringSort())
    fs, w = k.stores['fs'], k.stores['fsw']
    return [z3.Select(fs.t[0], f), z3.If(z3.Select(fs.t[0], f), z3.Select(fs.t[1], f), z3.StringVal('')), z3.Select(w.t, f)]


def usf_gen(r):
    c = pick(r, ['', 'a', 'a\n', 'ab', 'a\r\n', 'b' * 5000])
    return {0: 'pfx', 1: pick(r, ['x.cpp', 'd/x.cpp', 'd/e/x.cpp', 'a_b.cpp']), 'old': pick(r, ['', 'a', 'a\n', c, c]), 2: c, 'exists': r.random() < .7}


U('update_source_file', USF, [0, 1, 'old', 2, 'exists'], usf_gen, env=usf_env, outs=usf_outs)
UNITS['update_source_file'].limit = 60
UNITS['update_source_file'].nomodels = True      # its adapter deletes files: only generated names
UNITS['Config::read'].limit = 250
UNITS['update_source_file'].include = '#include <sys/stat.h>\n'
