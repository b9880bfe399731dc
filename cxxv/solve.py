"""Discharging obligations: fold unfolding + z3, then cvc5 on the SMT-LIB text."""
import z3, subprocess, time, os, tempfile
from .terms import *
from .terms import _lists
from .execu import subterms
from .abstract import try_abstract, Session, limit

STATS = {'z3': 0, 'cvc5': 0, 'simplify': 0, 'time': 0.0, 'queries': 0}
CVC5 = os.environ.get('CVC5', 'cvc5')


def pred_of(t):
    """t = s + 1 ? return s"""
    if z3.is_add(t) and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if z3.is_int_value(a) and a.as_long() == 1: return b
        if z3.is_int_value(b) and b.as_long() == 1: return a
        if z3.is_int_value(a) and a.as_long() > 1: return z3.simplify(b + (a.as_long() - 1))
    if z3.is_add(t) and any(z3.is_int_value(x) and x.as_long() >= 1 for x in t.children()): return z3.simplify(t - 1)
    if z3.is_int_value(t) and t.as_long() > 0: return z3.IntVal(t.as_long() - 1)
    return None


class Inst:
    """closes a set of formulas under the definitions of the specification functions it mentions"""

    def __init__(self, reveal=(), rounds=4, axioms=(), unfold_down=()):
        self.reveal = set(reveal)
        self.rounds = rounds
        self.axioms = axioms           # functions (decl name, term, allterms) -> list of facts
        self.unfold_down = set(unfold_down)
        self.seen = set()
        self.done = set()
        self.folds = {}
        self.lists = {}
        self.sets = set()
        self.idx = {}

    def add(self, fs):
        out = []
        work = list(fs)
        for r in range(self.rounds):
            new = []
            self.round = r
            for f in work:
                for t in subterms(f):
                    i = t.get_id()
                    if i in self.seen: continue
                    self.seen.add(i)
                    self.keep = getattr(self, 'keep', [])
                    self.keep.append(t)
                    if z3.is_app(t): self.visit(t, new)
            if not new: break
            out.extend(new)
            work = new
        return out

    def visit(self, t, new):
        d = t.decl().name()
        f = FOLDS.get(d)
        if f is not None and t.num_args() == f.n + 1:
            ps, i = t.children()[:-1], t.children()[-1]
            p = pred_of(i)
            if f.start is not None:
                s0 = f.start(*ps)
                new.append(z3.Implies(i <= s0, t == f.at0(ps)))
                if p is not None: new.append(z3.Implies(p >= s0, t == f.at_succ(ps, p)))
            elif z3.is_int_value(i) and i.as_long() == 0:
                new.append(t == f.at0(ps))
            elif p is not None:
                g = t == f.at_succ(ps, p)
                new.append(g if z3.is_int_value(p) else z3.Implies(p >= 0, g))
            else:
                new.append(z3.Implies(i <= 0, t == f.at0(ps)) if f.kind != 'exists' else z3.Implies(i <= 0, z3.Not(t)))
                if d in self.unfold_down:
                    new.append(z3.Implies(i > 0, t == f.at_succ(ps, i - 1)))
                if f.kind == 'exists' and z3.is_const(i) and not z3.is_int_value(i):
                    new.append(z3.Implies(i >= 0, f.f(*ps, i + 1) == f.at_succ(ps, i)))
            if f.kind == 'exists':
                for o in self.folds.get(d, []):
                    qs, j = o.children()[:-1], o.children()[-1]
                    same = conj(*[eq(a, b) for a, b in zip(ps, qs)])
                    if z3.is_false(same): continue
                    new.append(z3.Implies(z3.And(same, t, i <= j), o))
                    new.append(z3.Implies(z3.And(same, o, j <= i), t))
            self.folds.setdefault(d, []).append(t)
            return
        s = DEFS.get(d)
        if s is not None and s.facts is not None: new.append(s.facts(*t.children()))
        if s is not None and s.define is not None and d in self.reveal:
            if s.tail and self.round > 0:      # tail-recursive: one step is enough, and each step is large
                if callable(s.tail): new.append((lambda c, v: z3.Implies(c, t == v))(*s.tail(*t.children())))
                return
            new.append(t == s.define(*t.children()))
            return
        if d.startswith('snoc_') or d.startswith('nil_') or d.startswith('at_L') or d.startswith('len_L') or d.startswith('app_L') or d.startswith('pop_L') or d.startswith('set_L'):
            for T in list(_lists.values()):
                if t.sort() == T.sort or (t.num_args() and t.arg(0).sort() == T.sort):
                    self.list_axioms(T, t, new)
        if d.startswith('toset_L'):
            for T in list(_lists.values()):
                if t.decl().eq(T.toset):
                    k = T.sort.name()
                    if k not in self.sets:
                        self.sets.add(k)
                        new.append(T.toset(T.nil) == z3.K(sort_of(T.elem), z3.BoolVal(False)))
                        for o in self.lists.get(k, []): self.set_axiom(T, o, new)
        for ax in self.axioms: ax(t, new)

    def set_axiom(self, T, t, new):
        if t.decl().eq(T.snoc): new.append(T.toset(t) == z3.Store(T.toset(t.arg(0)), t.arg(1), z3.BoolVal(True)))

    def list_axioms(self, T, t, new):
        d = t.decl()
        k = T.sort.name()
        if d.eq(T.snoc):
            l, x = t.arg(0), t.arg(1)
            new.append(z3.And(T.len(t) == T.len(l) + 1, T.len(l) >= 0, T.at(t, T.len(l)) == x))
            for j in self.idx.get(k, []):
                new.append(z3.Implies(z3.And(0 <= j, j < T.len(l)), T.at(t, j) == T.at(l, j)))
            self.lists.setdefault(k, []).append(t)
            if k in self.sets: self.set_axiom(T, t, new)
        elif t.eq(T.nil): new.append(T.len(t) == 0)
        elif d.eq(T.len): new.append(t >= 0)
        elif d.eq(T.pop):
            l = t.arg(0)
            new.append(z3.Implies(T.len(l) > 0, T.len(t) == T.len(l) - 1))
            for j in self.idx.get(k, []): new.append(z3.Implies(z3.And(0 <= j, j < T.len(l) - 1), T.at(t, j) == T.at(l, j)))
            self.lists.setdefault(k, []).append(t)
        elif d.eq(T.at):
            j = t.arg(1)
            if not any(j.eq(o) for o in self.idx.get(k, [])):
                self.idx.setdefault(k, []).append(j)
                for s in self.lists.get(k, []):
                    l = s.arg(0)
                    new.append(z3.Implies(z3.And(0 <= j, j < (T.len(l) if s.decl().eq(T.snoc) else T.len(l) - 1)), T.at(s, j) == T.at(l, j)))


def cone(hyps, goal):
    """keep hypotheses connected to the goal through uninterpreted constants (sound: dropping hypotheses only weakens)"""
    def consts(t):
        r = set()
        for x in subterms(t):
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(x.get_id())
        return r
    hs = [(h, consts(h)) for h in hyps]
    live = consts(goal)
    keep = [False] * len(hs)
    ch = True
    while ch:
        ch = False
        for i, (h, c) in enumerate(hs):
            if not keep[i] and (c & live or not c):
                keep[i] = True
                ch = True
                live |= c
    return [h for i, (h, c) in enumerate(hs) if keep[i]]


class Result:
    def __init__(self, status, backend='', model=None, t=0.0, reason=''):
        self.status, self.backend, self.model, self.time, self.reason = status, backend, model, t, reason

    @property
    def ok(self): return self.status == 'proved'


def dedup(fs):
    seen = set()
    out = []
    for f in fs:
        i = f.get_id()
        if i in seen or z3.is_true(f): continue
        seen.add(i)
        out.append(f)
    return out


def prove(hyps, goal, timeout=5000, reveal=(), axioms=(), unfold_down=(), use_cvc5=False, rounds=4, want_model=False, stimeout=None):
    t0 = time.time()
    STATS['queries'] += 1
    if z3.is_true(goal): return Result('proved', 'simplify')
    g = z3.simplify(goal)
    if z3.is_true(g): return Result('proved', 'simplify')
    hyps = dedup(hyps)
    for h in hyps:
        if h.eq(goal): return Result('proved', 'simplify')
    inst = Inst(reveal, rounds, axioms, unfold_down)
    extra = inst.add(hyps + [goal])
    if try_abstract(hyps + extra, goal, min(timeout, 5000)):
        dt = time.time() - t0
        STATS['time'] += dt
        STATS['z3'] += 1
        return Result('proved', 'z3', None, dt)
    s = z3.Solver()
    limit(s, stimeout or timeout)
    s.set('random_seed', 1)
    for h in hyps: s.add(h)
    for h in extra: s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    dt = time.time() - t0
    STATS['time'] += dt
    if r == z3.unsat:
        STATS['z3'] += 1
        return Result('proved', 'z3', None, dt)
    if r == z3.sat and not use_cvc5:
        return Result('sat', 'z3', s.model(), dt)
    res = Result('sat' if r == z3.sat else 'unknown', 'z3', s.model() if r == z3.sat else None, dt, '' if r == z3.sat else s.reason_unknown())
    if use_cvc5:
        txt = s.to_smt2()
        c = run_cvc5(txt, timeout)
        STATS['time'] += time.time() - t0 - dt
        if c == 'unsat':
            STATS['cvc5'] += 1
            return Result('proved', 'cvc5', None, time.time() - t0)
        if c == 'sat' and res.status != 'sat': res.status = 'sat'
        res.time = time.time() - t0
    return res


class Batch:
    """goals proved one after another from the same hypotheses: the weakened problem is built once and kept; only in full
    mode is a goal it does not decide put to the solver with the theory of strings"""

    def __init__(self, hyps, reveal=(), axioms=(), full=True):
        self.hyps = dedup(hyps)
        self.ids = {h.get_id() for h in self.hyps}
        self.kw = dict(reveal=reveal, axioms=axioms)
        self.full = full
        self.S = None

    def prove(self, goal, timeout, stimeout=None):
        if z3.is_true(goal): return True
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g) and not self.hyps: return False
        if goal.get_id() in self.ids: return True
        t0 = time.time()
        STATS['queries'] += 1
        new = []
        if self.S is None:
            self.S, self.inst = Session(), Inst(self.kw['reveal'], 4, self.kw['axioms'])
            new = self.hyps + self.inst.add(self.hyps)
            self.extra = new[len(self.hyps):]
        e = self.inst.add([goal])
        self.extra += e
        r = self.S.check(new + e, goal, timeout)
        dt = time.time() - t0
        STATS['time'] += dt
        if r == z3.unsat:
            STATS['z3'] += 1
            return True
        if not self.full: return False
        s = z3.Solver()
        limit(s, stimeout or timeout)
        s.set('random_seed', 1)
        for h in self.hyps: s.add(h)
        for h in self.extra: s.add(h)
        s.add(z3.Not(goal))
        r = s.check()
        STATS['time'] += time.time() - t0 - dt
        if r == z3.unsat: STATS['z3'] += 1
        return r == z3.unsat


def run_cvc5(txt, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt)
        p = f.name
    try:
        r = subprocess.run([CVC5, '--strings-exp', '--tlimit=%d' % timeout, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout / 1000 + 5)
        o = r.stdout.decode().strip().split('\n')
        return o[0] if o else ''
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(p)
