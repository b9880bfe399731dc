"""Concrete evaluation of contract terms: the contract itself is the oracle when a failed obligation is replayed
against the compiled code."""
import z3
from .terms import *
from .terms import _lists

PY = {}          # python meanings of specification symbols that have no SMT definition


def py(name):
    def d(f):
        PY[name] = f
        return f
    return d


class Arr:
    def __init__(self, default, d=None): self.default, self.d = default, dict(d or {})
    def get(self, k): return self.d.get(k, self.default)
    def store(self, k, v):
        n = Arr(self.default, self.d)
        n.d[k] = v
        return n
    def norm(self): return frozenset((k, v) for k, v in self.d.items() if v != self.default)
    def __eq__(self, o): return isinstance(o, Arr) and self.default == o.default and self.norm() == o.norm()
    def __hash__(self): return hash(self.norm())


def pyset(xs): return Arr(False, {x: True for x in xs})
def pymap(d, default): return ('mk', Arr(False, {k: True for k in d}), Arr(default, d))


class Undefined(Exception): pass


_steps = {}


def fold_step(f):
    if f.name not in _steps:
        ps = [z3.Const('p%d!%s' % (i, f.name), f.f.domain(i)) for i in range(f.n)]
        i, a = z3.Int('i!' + f.name), z3.Const('a!' + f.name, f.sort)
        _steps[f.name] = (['p%d!%s' % (j, f.name) for j in range(f.n)], f.init(*ps), f.step(*ps, i, a))
    return _steps[f.name]


_defs = {}


def spec_def(s):
    if s.name not in _defs:
        ps = [z3.Const('d%d!%s' % (i, s.name), s.f.domain(i)) for i in range(s.f.arity())]
        _defs[s.name] = s.define(*ps)
    return _defs[s.name]


def ev(t, env):
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo: return memo[i]
        r = one(t)
        memo[i] = r
        return r

    def one(t):
        if z3.is_string_value(t): return pystr(t)
        if z3.is_int_value(t): return t.as_long()
        d = t.decl()
        k = d.kind()
        n = d.name()
        if k == z3.Z3_OP_TRUE: return True
        if k == z3.Z3_OP_FALSE: return False
        if k == z3.Z3_OP_ITE: return go(t.arg(1)) if go(t.arg(0)) else go(t.arg(2))
        if k == z3.Z3_OP_AND: return all(go(c) for c in t.children())
        if k == z3.Z3_OP_OR: return any(go(c) for c in t.children())
        if k == z3.Z3_OP_IMPLIES: return (not go(t.arg(0))) or go(t.arg(1))
        if k == z3.Z3_OP_SEQ_IN_RE: return inre(go(t.arg(0)), t.arg(1))
        if k == z3.Z3_OP_CONST_ARRAY: return Arr(go(t.arg(0)))
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            if n in env: return env[n]
            if n.startswith('nil_'): return ()
            raise Undefined(n)
        a = [go(c) for c in t.children()]
        if k == z3.Z3_OP_NOT: return not a[0]
        if k == z3.Z3_OP_EQ: return a[0] == a[1]
        if k == z3.Z3_OP_XOR: return a[0] != a[1]
        if k == z3.Z3_OP_DISTINCT: return len(set(a)) == len(a)
        if k == z3.Z3_OP_ADD: return sum(a)
        if k == z3.Z3_OP_SUB: return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS: return -a[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for x in a: r *= x
            return r
        if k == z3.Z3_OP_LE: return a[0] <= a[1]
        if k == z3.Z3_OP_LT: return a[0] < a[1]
        if k == z3.Z3_OP_GE: return a[0] >= a[1]
        if k == z3.Z3_OP_GT: return a[0] > a[1]
        if k == z3.Z3_OP_SEQ_CONCAT: return ''.join(a)
        if k == z3.Z3_OP_SEQ_LENGTH: return len(a[0])
        if k == z3.Z3_OP_SEQ_PREFIX: return a[1].startswith(a[0])
        if k == z3.Z3_OP_SEQ_SUFFIX: return a[1].endswith(a[0])
        if k == z3.Z3_OP_SEQ_CONTAINS: return a[1] in a[0]
        if k == z3.Z3_OP_SEQ_EXTRACT:
            s, o, n_ = a
            return s[o:o + n_] if 0 <= o < len(s) and n_ > 0 else ''
        if k == z3.Z3_OP_SEQ_AT: return a[0][a[1]:a[1] + 1] if 0 <= a[1] < len(a[0]) else ''
        if k == z3.Z3_OP_SEQ_INDEX:
            o = a[2] if len(a) > 2 else 0
            return a[0].find(a[1], o) if 0 <= o <= len(a[0]) else -1
        if k == z3.Z3_OP_SEQ_LAST_INDEX or n == 'seq.last_indexof': return a[0].rfind(a[1])
        if k == z3.Z3_OP_SELECT: return a[0].get(a[1])
        if k == z3.Z3_OP_STORE: return a[0].store(a[1], a[2])
        if k == z3.Z3_OP_DT_CONSTRUCTOR: return ('mk',) + tuple(a)
        if k == z3.Z3_OP_DT_ACCESSOR: return a[0][1 if n.startswith(('fst_', 'dom_')) else 2]
        f = FOLDS.get(n)
        if f is not None:
            if n in PY: return PY[n](*a)
            names, init, step = fold_step(f)
            e = dict(env)
            e.update(zip(names, a[:-1]))
            acc = ev(init, e)
            for j in range(max(a[-1], 0)):
                e['i!' + n], e['a!' + n] = j, acc
                acc = ev(step, e)
                if f.kind == 'exists' and acc is True: return True
            return acc
        if n in PY: return PY[n](*a)
        s = DEFS.get(n)
        if s is not None and s.define is not None:
            e = dict(env)
            e.update(('d%d!%s' % (j, n), x) for j, x in enumerate(a))
            return ev(spec_def(s), e)
        if n in env: return env[n](*a)
        if n.startswith('len_'): return len(a[0])
        if n.startswith('at_'): return a[0][a[1]] if 0 <= a[1] < len(a[0]) else ''
        if n.startswith('snoc_'): return a[0] + (a[1],)
        if n.startswith('app_'): return a[0] + a[1]
        if n.startswith('pop_'): return a[0][:-1]
        if n.startswith('keys_'): return tuple(sorted(x for x, v in a[0].d.items() if v))
        if n.startswith('toset_'): return pyset(a[0])
        if n.startswith('sorted_'): return tuple(sorted(a[0]))
        raise Undefined(n)
    return go(t)


def inre(s, r):
    k = r.decl().kind()
    if k == z3.Z3_OP_RE_UNION: return any(inre(s, c) for c in r.children())
    if k == z3.Z3_OP_RE_RANGE: return len(s) == 1 and pystr(r.arg(0)) <= s <= pystr(r.arg(1))
    if k == z3.Z3_OP_SEQ_TO_RE: return s == pystr(r.arg(0))
    raise Undefined('regular expression')


def _ffno(s, c):
    for i, x in enumerate(s):
        if x not in c: return i
    return 2 ** 64 - 1


def _flno(s, c):
    for i in range(len(s) - 1, -1, -1):
        if s[i] not in c: return i
    return 2 ** 64 - 1


PY['find_first_not_of'] = _ffno
PY['find_last_not_of'] = _flno
PY['find_first_of'] = lambda s, c: next((i for i, x in enumerate(s) if x in c), 2 ** 64 - 1)
PY['find_last_of'] = lambda s, c: next((i for i in range(len(s) - 1, -1, -1) if s[i] in c), 2 ** 64 - 1)
PY['strip'] = lambda s, c, i: s[:i].replace(c, '')
PY['itos'] = str
PY['rfind_from'] = lambda s, x, p: s.rfind(x, 0, p + len(x))
