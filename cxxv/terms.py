"""Sorts, values, specification folds.  Everything is a z3 term; std::string is SMT String, AST nodes are
elements of one uninterpreted sort, vectors are elements of an uninterpreted list sort with
nil/snoc/len/at, sets and maps are SMT arrays, machine integers are mathematical integers."""
import z3, re

Ref = z3.DeclareSort('Ref')
NULL = z3.Const('null', Ref)
STR = z3.StringSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()
NPOS = z3.IntVal(2 ** 64 - 1)
W64 = z3.IntVal(2 ** 64)

TBOOL = ('bool',)
TINT = ('int', 32, False)
TSIZE = ('int', 64, True)
TCHAR = ('char',)
TSTR = ('str',)
TREF = ('ref', '')
TVOID = ('void',)
TITER = ('iter',)
TFUN = ('fun',)


class Unsupported(Exception):
    """construct outside the verifier's reach: the function is undecided, never a violation"""


_sorts = {}
_lists = {}


def tname(td):
    return td[0] + ('' if len(td) == 1 or td[0] in ('int', 'ref') else '_' + '_'.join(tname(x) if isinstance(x, tuple) else str(x) for x in td[1:]))


class ListTheory:
    def __init__(self, elem):
        self.elem = elem
        n = 'L' + tname(elem)
        es = sort_of(elem)
        self.sort = z3.DeclareSort(n)
        self.nil = z3.Const('nil_' + n, self.sort)
        self.snoc = z3.Function('snoc_' + n, self.sort, es, self.sort)
        self.len = z3.Function('len_' + n, self.sort, INT)
        self.at = z3.Function('at_' + n, self.sort, INT, es)
        self.set = z3.Function('set_' + n, self.sort, INT, es, self.sort)
        self.pop = z3.Function('pop_' + n, self.sort, self.sort)
        self.rot = z3.Function('rot_' + n, self.sort, INT, INT, self.sort)   # rotate [b,e,end)
        self.keys = z3.Function('keys_' + n, z3.ArraySort(es, BOOL), self.sort)  # sorted enumeration of a set
        self.toset = z3.Function('toset_' + n, self.sort, z3.ArraySort(es, BOOL))
        self.sorted = z3.Function('sorted_' + n, self.sort, self.sort)
        self.app = z3.Function('app_' + n, self.sort, self.sort, self.sort)


def LT(elem):
    k = canon(elem)
    if k not in _lists: _lists[k] = ListTheory(k)
    return _lists[k]


_pairs = {}


def pair_sort(a, b):
    k = (canon(a), canon(b))
    if k not in _pairs:
        n = 'P_' + tname(k[0]) + '_' + tname(k[1])
        d = z3.Datatype(n)
        d.declare('mk_' + n, ('fst_' + n, sort_of(k[0])), ('snd_' + n, sort_of(k[1])))
        d = d.create()
        _pairs[k] = (d, d.constructor(0), d.accessor(0, 0), d.accessor(0, 1))
    return _pairs[k]


def canon(td):
    if td[0] == 'int': return ('int',)
    if td[0] == 'ref': return ('ref',)
    if td[0] == 'char': return ('str',)
    return tuple(canon(x) if isinstance(x, tuple) else x for x in td)


def sort_of(td):
    k = td[0]
    if k == 'bool': return BOOL
    if k == 'int': return INT
    if k in ('str', 'char'): return STR
    if k == 'ref': return Ref
    if k == 'vec': return LT(td[1]).sort
    if k == 'set': return z3.ArraySort(sort_of(td[1]), BOOL)
    if k == 'pair': return pair_sort(td[1], td[2])[0]
    if k == 'map':
        return pair_sort_map(td[1], td[2])[0]
    if td == ('rec', 'IncludeSet'): return incset()[0]
    raise Unsupported('sort of ' + str(td))


_incset = []


def incset():
    """the value of an IncludeSet: (sort, constructor, includes, visited, depth)"""
    if not _incset:
        d = z3.Datatype('R_IncludeSet')
        d.declare('mk_IncludeSet', ('includes_of', LT(TSTR).sort), ('visited', z3.ArraySort(Ref, BOOL)), ('depth', z3.ArraySort(Ref, INT)))
        d = d.create()
        _incset.append((d, d.constructor(0), d.accessor(0, 0), d.accessor(0, 1), d.accessor(0, 2)))
    return _incset[0]


INCSET_LEAF = {('includes_',): 2, ('stack_', 'd'): 3, ('stack_', 'v'): 4}


_maps = {}


def pair_sort_map(a, b):
    k = (canon(a), canon(b))
    if k not in _maps:
        n = 'M_' + tname(k[0]) + '_' + tname(k[1])
        d = z3.Datatype(n)
        d.declare('mk_' + n, ('dom_' + n, z3.ArraySort(sort_of(k[0]), BOOL)), ('val_' + n, z3.ArraySort(sort_of(k[0]), sort_of(k[1]))))
        d = d.create()
        _maps[k] = (d, d.constructor(0), d.accessor(0, 0), d.accessor(0, 1))
    return _maps[k]


class V:
    __slots__ = ('td', 't')

    def __init__(self, td, t):
        self.td = td
        self.t = t

    def __repr__(self):
        return 'V(%s,%s)' % (self.td, self.t)


class Poison:
    def __init__(self, why): self.why = why


def vstr(s): return V(TSTR, S(s) if isinstance(s, str) else s)
def vint(i, td=TINT): return V(td, z3.IntVal(i) if isinstance(i, int) else i)
def vbool(b): return V(TBOOL, z3.BoolVal(b) if isinstance(b, bool) else b)
def vref(t): return V(TREF, t)
VVOID = V(TVOID, None)


def S(s):
    """z3 string constant for a Python (latin-1) string, byte for byte"""
    return z3.StringVal(s.replace('\\', '\\u{5c}'))


def pystr(t):
    """Python string of a z3 string constant"""
    import re as _re
    return _re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), t.as_string())


def pack(v):
    """value -> z3 term"""
    if isinstance(v, Poison): raise Unsupported('value lost at a join: ' + v.why)
    if v.td[0] == 'pair':
        a, b = v.t
        _, mk, _, _ = pair_sort(a.td, b.td)
        return mk(pack(a), pack(b))
    if v.td[0] == 'map':
        d, vl = v.t
        _, mk, _, _ = pair_sort_map(v.td[1], v.td[2])
        return mk(d, vl)
    if v.td == ('rec', 'IncludeSet'):
        inc, st = v.t.get('includes_'), v.t.get('stack_')
        nm = v.t.get('\0name', 'IncludeSet')
        inc = inc if inc is not None else named(('vec', TSTR), nm + '.includes_')
        st = st if st is not None else named(('map', TREF, TINT), nm + '.stack_')
        R = incset()
        a, b, c = inc.t, st.t[0], st.t[1]
        if all(z3.is_app(x) and x.num_args() == 1 and x.decl().eq(R[i]) for x, i in ((a, 2), (b, 3), (c, 4))) and a.arg(0).eq(b.arg(0)) and a.arg(0).eq(c.arg(0)): return a.arg(0)
        return R[1](a, b, c)
    if v.td[0] in ('rec', 'iter', 'fun', 'void', 'pp'): raise Unsupported('pack ' + v.td[0])
    return v.t


def unpack(td, t):
    if td[0] == 'pair':
        _, mk, f, s = pair_sort(td[1], td[2])
        if z3.is_app(t) and t.decl().eq(mk): return V(td, (unpack(td[1], t.arg(0)), unpack(td[2], t.arg(1))))
        return V(td, (unpack(td[1], f(t)), unpack(td[2], s(t))))
    if td[0] == 'map':
        _, mk, f, s = pair_sort_map(td[1], td[2])
        if z3.is_app(t) and t.decl().eq(mk): return V(td, (t.arg(0), t.arg(1)))
        return V(td, (f(t), s(t)))
    if td == ('rec', 'IncludeSet'):
        R = incset()
        a, b, c = t.children() if z3.is_app(t) and t.decl().eq(R[1]) else (R[2](t), R[3](t), R[4](t))
        return V(td, {'includes_': V(('vec', TSTR), a), 'stack_': V(('map', TREF, TINT), (b, c))})
    return V(td, t)


_cnt = [0]


def fresh_name(base):
    _cnt[0] += 1
    return '%s!%d' % (base, _cnt[0])


def fresh(td, base='v'):
    if td[0] == 'rec': raise Unsupported('fresh record')
    if td[0] == 'pair': return V(td, (fresh(td[1], base + '.1'), fresh(td[2], base + '.2')))
    if td[0] == 'map':
        n = fresh_name(base)
        return V(td, (z3.Const(n + '.dom', z3.ArraySort(sort_of(td[1]), BOOL)), z3.Const(n + '.val', z3.ArraySort(sort_of(td[1]), sort_of(td[2])))))
    return V(td, z3.Const(fresh_name(base), sort_of(td)))


def named(td, name):
    if td[0] == 'pair': return V(td, (named(td[1], name + '.1'), named(td[2], name + '.2')))
    if td[0] == 'map':
        return V(td, (z3.Const(name + '.dom', z3.ArraySort(sort_of(td[1]), BOOL)), z3.Const(name + '.val', z3.ArraySort(sort_of(td[1]), sort_of(td[2])))))
    return V(td, z3.Const(name, sort_of(td)))


def default_value(td):
    k = td[0]
    if k == 'str': return V(td, z3.StringVal(''))
    if k == 'char': return V(td, z3.StringVal(''))
    if k == 'int': return V(td, z3.IntVal(0))
    if k == 'bool': return V(td, z3.BoolVal(False))
    if k == 'ref': return V(td, NULL)
    if k == 'vec': return V(td, LT(td[1]).nil)
    if k == 'set': return V(td, z3.K(sort_of(td[1]), z3.BoolVal(False)))
    if k == 'map':
        return V(td, (z3.K(sort_of(td[1]), z3.BoolVal(False)), z3.K(sort_of(td[1]), pack(default_value(td[2])))))
    if k == 'pair': return V(td, (default_value(td[1]), default_value(td[2])))
    raise Unsupported('default of ' + str(td))


# ---------------------------------------------------------------- C++ type strings -> descriptors
def split_targs(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<(': d += 1
        elif c in '>)': d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip(): out.append(cur.strip())
    return out


INTS = {'int': (32, False), 'unsigned int': (32, True), 'unsigned': (32, True), 'long': (64, False), 'unsigned long': (64, True), 'size_t': (64, True), 'std::size_t': (64, True),
        'std::basic_string::size_type': (64, True), 'uint': (32, True), 'uint64_t': (64, True), 'int64_t': (64, False), 'long long': (64, False), 'unsigned long long': (64, True), 'short': (16, False),
        'unsigned short': (16, True), 'int8_t': (8, False), 'uint8_t': (8, True), 'std::size_type': (64, True), 'signed char': (8, False), 'std::streampos': (64, False), 'ptrdiff_t': (64, False),
        'std::string::size_type': (64, True), 'difference_type': (64, False), 'std::basic_string<char>::size_type': (64, True), 'std::fpos<__mbstate_t>': (64, False), 'uint32_t': (32, True), 'float': (32, False), 'double': (64, False)}

_td_cache = {}
RECORDS = {'Config', 'Context', 'IncludeSet', 'ConstructorBindingInfo'}


def canon_td(td):
    """heap fields are keyed by name and shape: all references are alike"""
    if td[0] == 'ref': return TREF
    return tuple(canon_td(x) if isinstance(x, tuple) else x for x in td)


LOCAL_RECORDS = {'ClassBinder', 'FunctionBinder', 'EnumBinder'}      # heap objects when reached through a pointer, records when they are local variables


def td_of(t):
    r = _td_cache.get(t)
    if r is None:
        r = _td_cache[t] = _td_of(t)
    return r


def _td_of(t):
    t = t.strip()
    t = re.sub(r'\bconst\b', '', t)
    t = re.sub(r'\b(class|struct|enum|typename)\b ', '', t)
    t = re.sub(r'\s+', ' ', t).strip()
    t = t.replace('std::__cxx11::', 'std::')
    while t.endswith('&'): t = t[:-1].strip()
    if t in ('void', ''): return TVOID
    if t in ('bool', '_Bool'): return TBOOL
    if t == 'char' or t == 'unsigned char': return TCHAR
    if t in INTS: return ('int',) + INTS[t]
    if t in ('char *', 'std::string', 'string', 'std::basic_string<char>', 'llvm::StringRef', 'StringRef', 'binder::Config::string', 'binder::Binder::string', 'clang::StringRef', 'llvm::Twine', 'Binder::string', 'Config::string', 'basic_string<char>', 'binder::Context::string', 'Context::string', 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::__cxx11::basic_string<char>'):
        return TSTR
    if t.endswith('::string') and '<' not in t: return TSTR
    if re.match(r'char ?\[\d*\]$', t): return TSTR
    if t in ('std::ostringstream', 'std::stringstream', 'std::basic_ostringstream<char>', 'std::basic_stringstream<char>', 'llvm::raw_string_ostream', 'std::basic_ostringstream<char, std::char_traits<char>, std::allocator<char>>', 'raw_string_ostream'):
        return TSTR
    m = re.match(r'(?:std::)?([a-z_A-Z:]+)<(.*)>$', t)
    if m:
        n, a = m.group(1), split_targs(m.group(2))
        n = n.replace('std::', '').replace('llvm::', '')
        if n in ('vector', 'list', 'deque', 'initializer_list', 'SmallVector'): return ('vec', td_of(a[0]))
        if n in ('set', 'unordered_set', 'multiset'): return ('set', td_of(a[0]))
        if n in ('map', 'unordered_map', 'DenseMap'): return ('map', td_of(a[0]), td_of(a[1]))
        if n == 'StringMap': return ('map', TSTR, td_of(a[0]))
        if n == 'pair': return ('pair', td_of(a[0]), td_of(a[1]))
        if n == 'tuple' and len(a) >= 2:
            r = td_of(a[-1])
            for x in reversed(a[:-1]): r = ('pair', td_of(x), r)
            return r
        if n in ('shared_ptr', 'unique_ptr'): return ('ref', a[0].split('::')[-1])
        if n == 'cl::opt': return td_of(a[0])
        if n in ('function',): return TFUN
    b = t.replace('binder::', '')
    if b in RECORDS or b in LOCAL_RECORDS: return ('rec', b)
    base = re.sub(r'[\s\*]+$', '', t)
    if base.split('::')[-1] in RECORDS and t.endswith('*'): return ('ref', base.split('::')[-1])
    if base in ENUMS or base.split('::')[-1] in ENUMS: return TINT
    return ('ref', base)


ENUMS = {'clang::AccessSpecifier', 'AccessSpecifier', 'RequestFlags', 'binder::RequestFlags', 'OverloadedOperatorKind', 'clang::OverloadedOperatorKind', 'clang::TemplateSpecializationKind', 'TemplateSpecializationKind',
         'clang::ExceptionSpecificationType', 'ExceptionSpecificationType', 'clang::RefQualifierKind', 'RefQualifierKind', 'clang::CanThrowResult', 'CanThrowResult', 'clang::Decl::Kind', 'Kind', 'ArgKind', 'clang::TemplateArgument::ArgKind',
         'ast_type_traits::TraversalKind', 'clang::StorageClass', 'StorageClass', 'clang::Linkage', 'TagTypeKind', 'TemplatedKind', 'clang::FunctionDecl::TemplatedKind'}

# enumerators get distinct integers by name (real values for binder's own enums)
_enumvals = {}


def enum_val(name, value=None):
    if value is not None:
        return z3.IntVal(value)
    if name not in _enumvals: _enumvals[name] = 1000 + len(_enumvals)
    return z3.IntVal(_enumvals[name])


# ---------------------------------------------------------------- uninterpreted functions
_ufs = {}


def uf(name, sorts, res):
    k = (name, tuple(str(s) for s in sorts), str(res))
    if k not in _ufs: _ufs[k] = z3.Function(name + '/' + str(len(sorts)) if k[0] in _ufnames and _ufnames[k[0]] != k else name, *sorts, res)
    _ufnames.setdefault(name, k)
    return _ufs[k]


_ufnames = {}


def ufapp(name, args, res):
    """args: z3 terms"""
    if not args: return z3.Const(name, res)
    s = [a.sort() for a in args]
    k = (name, tuple(str(x) for x in s), str(res))
    f = _ufs.get(k)
    if f is None:
        n = name
        i = 0
        while n in _ufnames and _ufnames[n] != k:
            i += 1
            n = '%s~%d' % (name, i)
        _ufnames[n] = k
        f = _ufs[k] = z3.Function(n, *s, res)
    return f(*args)


# ---------------------------------------------------------------- specification folds
FOLDS = {}        # decl name -> Fold


class Fold:
    """g(params, 0) = init(params);  g(params, i+1) = step(params, i, g(params, i)).
    kind 'exists': Boolean fold  g(i+1) = g(i) or P(i)  (monotone: lemma proved once, instantiated)."""

    def __init__(self, name, psorts, sort, init, step, kind='fold', start=None):
        self.name = name
        self.start = start       # first index, a function of the parameters (default 0): g(params, i) = init for i <= start
        self.sort = sort
        self.kind = kind
        self.init = init
        self.step = step
        self.f = z3.Function(name, *psorts, INT, sort)
        self.n = len(psorts)
        assert name not in FOLDS, name
        FOLDS[name] = self

    def __call__(self, *a):
        a = [S(x) if isinstance(x, str) else x for x in a]
        return self.f(*a)

    def at0(self, params):
        return self.init(*params)

    def at_succ(self, params, i):
        return self.step(*params, i, self.f(*params, i))


def Exists(name, psorts, pred):
    return Fold(name, psorts, BOOL, lambda *p: z3.BoolVal(False), lambda *p: z3.Or(p[-1], pred(*p[:-1])), 'exists')


def Least(name, psorts, exists, length, pred):
    """the least i in [0, length) with pred, or length: exists(params, i) is the Exists fold of pred"""
    r = SpecFun(name, psorts, INT)
    r.facts = lambda *p: z3.And(r(*p) >= 0, r(*p) <= length(*p), z3.Not(exists(*p, r(*p))), z3.Implies(r(*p) < length(*p), z3.And(pred(*p, r(*p)), exists(*p, r(*p) + 1))))
    return r


def FoldInit(name, psorts, sort, step):
    """fold whose initial value is its first parameter"""
    return Fold(name, [sort] + psorts, sort, lambda *p: p[0], lambda *p: step(*p[1:]))


DEFS = {}         # opaque spec functions: decl name -> SpecFun


class SpecFun:
    """opaque specification function: callers see an uninterpreted symbol, `define` is revealed where asked"""

    def __init__(self, name, psorts, sort, define=None, facts=None):
        self.name = name
        self.facts = facts       # definitional facts about an application (characterise a value that exists and is unique)
        self.f = z3.Function(name, *psorts, sort)
        self.define = define
        self.tail = False
        DEFS[name] = self

    def __call__(self, *a):
        a = [S(x) if isinstance(x, str) else x for x in a]
        return self.f(*a)


# ---------------------------------------------------------------- string helpers
def cat(*xs):
    out = []
    for x in xs:
        if isinstance(x, str): x = S(x)
        _flat(x, out)
    m = []
    for x in out:
        if z3.is_string_value(x):
            if x.as_string() == '': continue
            if m and z3.is_string_value(m[-1]):
                m[-1] = S(pystr(m[-1]) + pystr(x))
                continue
        m.append(x)
    if not m: return z3.StringVal('')
    if len(m) == 1: return m[0]
    return z3.Concat(*m)


def _flat(x, out):
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        for c in x.children(): _flat(c, out)
    else:
        out.append(x)


def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b): return c
        if z3.is_false(a) and z3.is_true(b): return neg(c)
        if z3.is_false(b): return conj(c, a)
        if z3.is_true(a): return disj(c, b)
        if z3.is_false(a): return conj(neg(c), b)
        if z3.is_true(b): return disj(neg(c), a)
    if z3.is_string(a):
        # factor common prefix: ite(c, x.p, x.q) -> x . ite(c,p,q)
        fa, fb = [], []
        _flat(a, fa)
        _flat(b, fb)
        k = 0
        while k < len(fa) and k < len(fb) and fa[k].eq(fb[k]): k += 1
        if k:
            return cat(*fa[:k], ite(c, cat(*fa[k:]), cat(*fb[k:])))
    return z3.If(c, a, b)


def neg(c):
    if z3.is_true(c): return z3.BoolVal(False)
    if z3.is_false(c): return z3.BoolVal(True)
    if z3.is_not(c): return c.arg(0)
    return z3.Not(c)


def conj(*cs):
    out = []
    for c in cs:
        if z3.is_true(c): continue
        if z3.is_false(c): return z3.BoolVal(False)
        if any(c.eq(o) for o in out): continue
        out.append(c)
    if not out: return z3.BoolVal(True)
    if len(out) == 1: return out[0]
    return z3.And(*out)


def disj(*cs):
    out = []
    for c in cs:
        if z3.is_false(c): continue
        if z3.is_true(c): return z3.BoolVal(True)
        if any(c.eq(o) for o in out): continue
        out.append(c)
    if not out: return z3.BoolVal(False)
    if len(out) == 1: return out[0]
    return z3.Or(*out)


def is_val(t):
    return z3.is_string_value(t) or z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t)


def eq(a, b):
    if a.eq(b): return z3.BoolVal(True)
    if is_val(a) and is_val(b): return z3.BoolVal(z3.is_true(z3.simplify(a == b)))
    if z3.is_bool(a):
        if z3.is_true(a): return b
        if z3.is_true(b): return a
        if z3.is_false(a): return neg(b)
        if z3.is_false(b): return neg(a)
    return a == b


def charat(s, i):
    return z3.SubString(s, i, 1)


# character predicates, 7-bit ASCII "C" locale
def isalpha(c): return z3.InRe(c, z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z')))
def isdigit(c): return z3.InRe(c, z3.Range('0', '9'))
def isalnum(c): return z3.InRe(c, z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9')))
def isspace(c): return z3.InRe(c, z3.Union(z3.Re(' '), z3.Range('\t', '\r')))


STRIP = Fold('strip', [STR, STR], STR, lambda s, c: z3.StringVal(''), lambda s, c, i, acc: cat(acc, z3.If(charat(s, i) == c, z3.StringVal(''), charat(s, i))))


def strip(s, c):
    return STRIP(s, c, z3.Length(s))


_contains = {}


def contains_fold(elem):
    k = canon(elem)
    if k not in _contains:
        T = LT(k)
        _contains[k] = Exists('mem_' + tname(k), [T.sort, sort_of(k)], lambda l, x, i: T.at(l, i) == x)
    return _contains[k]


def contains(elem, l, x):
    return contains_fold(elem)(l, x, LT(elem).len(l))
