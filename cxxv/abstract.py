"""A sound weakening of the string theory: strings become elements of an uninterpreted sort, string operations
become uninterpreted functions, concatenation a left-nested binary function over characters and atoms, plus a few
valid lemma instances.  Whatever is proved here holds for real strings; a countermodel here proves nothing."""
import z3
from .terms import *
from .terms import _flat
from .execu import subterms

U = z3.DeclareSort('Txt')
CAT = z3.Function('txt_cat', U, U, U)
LEN = z3.Function('txt_len', U, INT)
PREFIX = z3.Function('txt_prefix', U, U, BOOL)
SUFFIX = z3.Function('txt_suffix', U, U, BOOL)
CONTAINS = z3.Function('txt_contains', U, U, BOOL)
INDEX = z3.Function('txt_index', U, U, INT, INT)
FIRST = z3.Function('txt_first', U, INT)
LAST = z3.Function('txt_last', U, INT)
SUB = z3.Function('txt_sub', U, INT, INT, U)
RE = z3.ReSort(STR)
_sort_cache = {}
_dt_cache = {}
_fn_cache = {}


def has_str(s):
    if s == STR: return True
    if isinstance(s, z3.ArraySortRef): return has_str(s.domain()) or has_str(s.range())
    if isinstance(s, z3.DatatypeSortRef):
        c = s.constructor(0)
        return any(has_str(c.domain(i)) for i in range(c.arity()))
    return False


def asort(s):
    k = s.sexpr() if not isinstance(s, z3.DatatypeSortRef) else s.name()
    if k in _sort_cache: return _sort_cache[k]
    if s == STR: r = U
    elif not has_str(s): r = s
    elif isinstance(s, z3.ArraySortRef): r = z3.ArraySort(asort(s.domain()), asort(s.range()))
    elif isinstance(s, z3.DatatypeSortRef):
        c = s.constructor(0)
        d = z3.Datatype('@' + s.name())
        d.declare('@' + c.name(), *[('@' + s.accessor(0, i).name(), asort(c.domain(i))) for i in range(c.arity())])
        r = d.create()
        _dt_cache[s.name()] = (s, r)
    else: r = s
    _sort_cache[k] = r
    return r


def afun(d):
    k = (d.name(), tuple(str(d.domain(i)) for i in range(d.arity())), str(d.range()))
    if k not in _fn_cache:
        if d.arity() == 0: _fn_cache[k] = z3.Const('@' + d.name(), asort(d.range()))
        else: _fn_cache[k] = z3.Function('@' + d.name(), *[asort(d.domain(i)) for i in range(d.arity())], asort(d.range()))
    return _fn_cache[k]


class Abs:
    def __init__(self):
        self.c = {}
        self.keep = []
        self.lits = {}
        self.lemmas = []
        self.done = set()
        self.catpairs = {}      # id of atom -> list of (P, atom, result)
        self.pc = {}
        self.leaves = {}
        self.visited = set()

    # ---- literals and concatenation
    def lit(self, s):
        if s not in self.lits: self.lits[s] = z3.Const('txt"%s"' % s, U)
        return self.lits[s]

    def as_lit(self, t):
        n = t.decl().name() if z3.is_const(t) and t.sort() == U else ''
        return n[4:-1] if n.startswith('txt"') else None

    def app(self, P, a):
        """P . a with a already abstract"""
        la = self.as_lit(a)
        lp = self.as_lit(P)
        if lp == '': return a
        if la is not None:
            if lp is not None: return self.lit(lp + la)
            r = P
            for ch in la: r = CAT(r, self.lit(ch))
            return r
        if z3.is_app_of(a, z3.Z3_OP_ITE): return z3.If(a.arg(0), self.app(P, a.arg(1)), self.app(P, a.arg(2)))
        if z3.is_app(a) and a.decl().eq(CAT): return CAT(self.app(P, a.arg(0)), a.arg(1)) if self.as_lit(self.app(P, a.arg(0))) is None else self.app(self.app(P, a.arg(0)), a.arg(1))
        r = CAT(P, a)
        i = a.get_id()
        self.keep.append(r)
        self.catpairs.setdefault(i, {})[P.get_id()] = (P, a, r)
        return r

    def denote(self, t, P):
        """abstract term for P . t"""
        key = (t.get_id(), P.get_id())
        if key in self.pc: return self.pc[key]
        self.keep.append(t)
        self.keep.append(P)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
            r = P
            for x in t.children(): r = self.denote(x, r)
        elif z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = self.denote(t.arg(1), P), self.denote(t.arg(2), P)
            r = a if a.eq(b) else z3.If(self.tr(t.arg(0)), a, b)
        elif z3.is_string_value(t):
            r = self.app(P, self.lit(pystr(t)))
        else:
            r = self.app(P, self.tr(t))
        self.pc[key] = r
        return r

    # ---- translation
    def tr(self, t):
        i = t.get_id()
        r = self.c.get(i)
        if r is None:
            r = self._tr(t)
            self.c[i] = r
            self.keep.append(t)
            self.keep.append(r)
        return r

    def _tr(self, t):
        if z3.is_quantifier(t): raise Unsupported('quantifier')
        d = t.decl()
        k = d.kind()
        if z3.is_string_value(t): return self.lit(pystr(t))
        if k == z3.Z3_OP_SEQ_CONCAT: return self.denote(t, self.lit(''))
        if k == z3.Z3_OP_ITE and t.sort() == STR: return z3.If(self.tr(t.arg(0)), self.tr(t.arg(1)), self.tr(t.arg(2)))
        if k == z3.Z3_OP_EQ and t.arg(0).sort() == STR: return self.eq(t.arg(0), t.arg(1))
        if k == z3.Z3_OP_DISTINCT and t.arg(0).sort() == STR and t.num_args() == 2: return z3.Not(self.eq(t.arg(0), t.arg(1)))
        if k == z3.Z3_OP_SEQ_IN_RE:
            return z3.Function('txt_in:' + t.arg(1).sexpr(), U, BOOL)(self.tr(t.arg(0)))
        a = [self.tr(x) for x in t.children()]
        if k == z3.Z3_OP_SEQ_LENGTH: return self.length(a[0])
        if k == z3.Z3_OP_SEQ_PREFIX: return self.prefix(a[0], a[1])
        if k == z3.Z3_OP_SEQ_SUFFIX: return self.suffix(a[0], a[1])
        if k == z3.Z3_OP_SEQ_CONTAINS:
            x, y = self.as_lit(a[0]), self.as_lit(a[1])
            if x is not None and y is not None: return z3.BoolVal(y in x)
            return CONTAINS(a[0], a[1])
        if k == z3.Z3_OP_SEQ_INDEX:
            r = INDEX(*a) if len(a) == 3 else INDEX(a[0], a[1], z3.IntVal(0))
            n = self.length(a[0])
            self.lemmas.append(z3.And(r >= -1, z3.Implies(r >= 0, r + self.length(a[1]) <= n)))
            if z3.is_int_value(r.arg(2)) and r.arg(2).as_long() == 0:
                self.lemmas.append((r >= 0) == CONTAINS(a[0], a[1]))
                if self.as_lit(a[1]): self.lemmas.append((r == 0) == self.prefix(a[1], a[0]))
            return r
        if k in (z3.Z3_OP_SEQ_EXTRACT, z3.Z3_OP_SEQ_AT):
            x, o, n = a if k == z3.Z3_OP_SEQ_EXTRACT else (a[0], a[1], z3.IntVal(1))
            if z3.is_int_value(o) and o.as_long() == 0 and n.eq(self.length(x)): return x
            r = SUB(x, o, n)
            self.lemmas.append(LEN(r) >= 0)
            self.lemmas.append(z3.Implies(z3.And(o >= 0, n >= 0, o + n <= self.length(x)), LEN(r) == n))
            self.lemmas.append(LEN(r) <= self.length(x))
            self.lemmas.append((LEN(r) == 0) == (r == self.lit('')))
            self.lemmas.append(z3.Implies(n <= 0, r == self.lit('')))
            return r
        if k == z3.Z3_OP_UNINTERPRETED:
            f = afun(d)
            return f if d.arity() == 0 else f(*a)
        if k in (z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR):
            s = t.sort() if k == z3.Z3_OP_DT_CONSTRUCTOR else t.arg(0).sort()
            ns = asort(s)
            if k == z3.Z3_OP_DT_CONSTRUCTOR: return ns.constructor(0)(*a)
            for j in range(s.constructor(0).arity()):
                if s.accessor(0, j).eq(d): return ns.accessor(0, j)(a[0])
        if k == z3.Z3_OP_SELECT: return z3.Select(a[0], a[1])
        if k == z3.Z3_OP_STORE: return z3.Store(a[0], a[1], a[2])
        if k == z3.Z3_OP_CONST_ARRAY: return z3.K(asort(t.sort().domain()), a[0])
        if t.num_args() == 0: return t
        strish = t.sort() == STR or any(x.sort() == STR for x in t.children())
        if strish and k not in (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            f = z3.Function('txt_op_%s_%d' % (d.name(), len(a)), *[x.sort() for x in a], asort(t.sort()))
            return f(*a)
        if k == z3.Z3_OP_EQ: return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*a)
        if k == z3.Z3_OP_ITE: return z3.If(a[0], a[1], a[2])
        return d(*a)

    def length(self, x):
        l = self.as_lit(x)
        if l is not None: return z3.IntVal(len(l))
        if z3.is_app_of(x, z3.Z3_OP_ITE): return z3.If(x.arg(0), self.length(x.arg(1)), self.length(x.arg(2)))
        if z3.is_app(x) and x.decl().eq(CAT): return self.length(x.arg(0)) + self.length(x.arg(1))
        r = LEN(x)
        if x.get_id() not in self.done:
            self.done.add(x.get_id())
            self.lemmas.append(z3.And(r >= 0, (r == 0) == (x == self.lit(''))))
        return r

    def end(self, F, x):
        """code of the first / last character, -1 for the empty text"""
        l = self.as_lit(x)
        if l is not None: return z3.IntVal(-1 if l == '' else ord(l[0 if F is FIRST else -1]))
        if z3.is_app_of(x, z3.Z3_OP_ITE): return z3.If(x.arg(0), self.end(F, x.arg(1)), self.end(F, x.arg(2)))
        r = F(x)
        k = (F.name(), x.get_id())
        if k not in self.done:
            self.done.add(k)
            self.keep.append(x)
            self.lemmas.append(z3.And(r >= -1, (r == -1) == (x == self.lit(''))))
            if z3.is_app(x) and x.decl().eq(CAT):
                a, b = (x.arg(0), x.arg(1)) if F is FIRST else (x.arg(1), x.arg(0))
                self.lemmas.append(r == z3.If(a == self.lit(''), self.end(F, b), self.end(F, a)))
            if z3.is_app(x) and x.decl().eq(SUB):
                y, o, n = x.children()
                if F is FIRST and zero(o): self.lemmas.append(z3.Implies(n > 0, r == self.end(F, y)))
                if F is LAST and zero(o + n - self.length(y)): self.lemmas.append(z3.Implies(z3.And(n > 0, o >= 0), r == self.end(F, y)))
        return r

    def prefix(self, p, s): return self.fix(PREFIX, FIRST, p, s)
    def suffix(self, p, s): return self.fix(SUFFIX, LAST, p, s)

    def fix(self, R, F, p, s):
        a, b = self.as_lit(p), self.as_lit(s)
        if a == '': return z3.BoolVal(True)
        if a is not None and b is not None: return z3.BoolVal(b.startswith(a) if R is PREFIX else b.endswith(a))
        if a is not None and len(a) == 1: return self.end(F, s) == ord(a)
        r = R(p, s)
        self.lemmas.append(z3.Implies(r, self.length(p) <= self.length(s)))
        self.lemmas.append(z3.Implies(z3.And(r, self.length(p) == self.length(s)), p == s))
        self.lemmas.append(z3.Implies(p == s, r))
        self.lemmas.append(z3.Implies(z3.And(r, p != self.lit('')), self.end(F, p) == self.end(F, s)))
        return r

    def eq(self, x, y):
        for a, b in ((x, y), (y, x)):
            if z3.is_app_of(a, z3.Z3_OP_SEQ_EXTRACT) or z3.is_app_of(a, z3.Z3_OP_SEQ_AT):
                s, o, n = a.children() if a.num_args() == 3 else (a.arg(0), a.arg(1), z3.IntVal(1))
                blit = z3.is_string_value(b)
                bl = z3.IntVal(len(pystr(b))) if blit else z3.Length(b)
                if zero(n - bl) and not (blit and pystr(b) == ''):
                    if zero(o): return self.prefix(self.tr(b), self.tr(s))
                    if zero(o - (z3.Length(s) - bl)): return self.suffix(self.tr(b), self.tr(s))
        a, b = self.tr(x), self.tr(y)
        la, lb = self.as_lit(a), self.as_lit(b)
        if la is not None and lb is not None: return z3.BoolVal(la == lb)
        if a.eq(b): return z3.BoolVal(True)
        for u, l in ((a, lb), (b, la)):
            if l == '' and ('e', u.get_id()) not in self.done:      # only the empty text has length 0
                self.done.add(('e', u.get_id()))
                self.keep.append(u)
                self.lemmas.append((self.length(u) == 0) == (u == self.lit('')))
        return a == b

    # ---- closing
    def definitions(self, facts):
        """for a top-level definition  [guard =>] A == rhs  with A a text atom:  P.A == P.rhs for every P.A in sight"""
        out = []
        for f in facts:
            g, e = (f.arg(0), f.arg(1)) if z3.is_implies(f) else (None, f)
            if not (z3.is_eq(e) and e.arg(0).sort() == STR): continue
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if z3.is_string_value(a) or z3.is_app_of(a, z3.Z3_OP_SEQ_CONCAT) or z3.is_app_of(a, z3.Z3_OP_ITE): continue
                at = self.tr(a)
                for P, _, r in list(self.catpairs.get(at.get_id(), {}).values()):
                    q = r == self.denote(b, P)
                    out.append(z3.Implies(self.tr(g), q) if g is not None else q)
        return out

    def literal_steps(self, terms):
        """cat(w, c) == wc where w is a literal leaf of a joined value"""
        out = []
        leaves = self.leaves

        def lv(t, d=0):
            i = t.get_id()
            if i in leaves: return leaves[i]
            l = self.as_lit(t)
            if l is not None: r = {l}
            elif z3.is_app_of(t, z3.Z3_OP_ITE): r = lv(t.arg(1)) | lv(t.arg(2))
            elif z3.is_app(t) and t.decl().eq(CAT):
                c = self.as_lit(t.arg(1))
                r = {w + c for w in lv(t.arg(0))} if c is not None else set()
                if c is not None and not self.as_lit(t.arg(0)):
                    for w in list(lv(t.arg(0)))[:40]: out.append(CAT(self.lit(w), self.lit(c)) == self.lit(w + c))
            else: r = set()
            if len(r) > 40: r = set()
            leaves[i] = r
            self.keep.append(t)
            return r
        work = list(terms)
        while work:
            x = work.pop()
            i = x.get_id()
            if i in self.visited: continue
            self.visited.add(i)
            self.keep.append(x)
            if z3.is_app(x):
                if x.sort() == U and x.decl().eq(CAT): lv(x)
                work.extend(x.children())
        return out


def zero(e):
    s = z3.simplify(e)
    return z3.is_int_value(s) and s.as_long() == 0


def limit(s, ms):
    """a limit on the work, not on the time: the answer does not depend on how busy the machine is"""
    s.set('rlimit', 6000 * ms)
    s.set('timeout', 4 * ms)


CODE = z3.Function('txt_literal', U, INT)


class Session:
    """the weakened problem for one set of facts, to which goals are put one after another (every instance added on the
    way is valid, so they may accumulate)"""

    def __init__(self):
        self.A = Abs()
        self.s = z3.Solver()
        self.s.set('random_seed', 1)
        self.facts = []
        self.nl = self.nlit = 0
        self.seen = set()
        self.keep = []
        self.terms = []

    def put(self, h):
        i = h.get_id()
        if i in self.seen: return
        self.seen.add(i)
        self.keep.append(h)
        self.s.add(h)

    def check(self, new, goal, timeout):
        A = self.A
        try:
            hs = [A.tr(h) for h in new]
            g = A.tr(goal)
            self.facts += new
            for _ in range(2): hs += A.definitions(self.facts)
        except (Unsupported, RecursionError):
            return None
        hs += A.literal_steps(hs + [g])
        for h in hs: self.put(h)
        for l in A.lemmas[self.nl:]: self.put(l)
        self.nl = len(A.lemmas)
        ls = list(A.lits.values())
        for j in range(self.nlit, len(ls)): self.s.add(CODE(ls[j]) == j)
        self.nlit = len(ls)
        limit(self.s, timeout)
        self.s.push()
        self.s.add(z3.Not(g))
        r = self.s.check()
        if r == z3.unknown and timeout >= 3000:        # incremental solving skips most of the preprocessing: once more from scratch
            s = z3.Solver()
            s.set('random_seed', 2)
            limit(s, timeout)
            s.add(*self.s.assertions())
            r = s.check()
        self.s.pop()
        return r


def try_abstract(hyps, goal, timeout):
    """True when the weakened problem is already unsatisfiable"""
    return Session().check(hyps, goal, timeout) == z3.unsat
