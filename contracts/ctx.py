"""Contracts of source/context.cpp, part 1: the set of binders, requests, order of registration."""
from .cls4 import *
from cxxv.models import itos
from .util import BASE_NS, LAST_NS, REPL, L, tail_invariant
from cxxv.models import isalpha, isdigit
from .enm import request_spec
from cxxv.execu import LV
from cxxv.loops import leaves

CTXP = ['C04', 'C05', 'C06']
SETS_ = z3.ArraySort(STR, BOOL)
EMPTY = z3.K(STR, z3.BoolVal(False))


# ------------------------------------------------------------------ registering binders
@contract('Context::add', props=['C04', 'C06'])
def _(k):
    b = k[0]
    ids, bs, ty = k.ctx('ids'), k.ctx('binders'), k.ctx('types')
    dup = z3.Select(ids, ID(b))
    d = NAMED(b)
    key = TYPENAME(d)
    k.set_ctx('ids', z3.If(dup, ids, z3.Store(ids, ID(b), True)))
    k.set_ctx('binders', z3.If(dup, bs, RL.snoc(bs, b)))
    named_type = z3.And(z3.Not(dup), isa('TypeDecl', d))
    k.set_ctx('types', z3.If(named_type, TYs[1](z3.Store(TYs[2](ty), key, True), z3.Store(TYs[3](ty), key, b)), ty))


def needed(binded, c): return z3.And(z3.Not(z3.Select(binded, CLASS_QN(c))), z3.Not(BUILTIN(c)))


@contract('Context::is_forward_needed', props=['C05'])
def _(k): k.result(needed(k.ctx('binded'), k[0]))


@contract('Context::add_to_binded', props=['C05'])
def _(k): k.set_ctx('binded', z3.Store(k.ctx('binded'), CLASS_QN(k[0]), True))


@contract('Context::trace_line', props=['C06'])
def _(k):
    n = k.ctx('trace_counter') + 1
    k.set_ctx('trace_counter', n)
    k.result(cat('\tstd::cout << "B', itos(n), '_[', k[0], ']" << std::endl;\n'))


DCTX = acc('getDeclContext', Ref)
OUTER = SpecFun('outermost_class', [Ref], Ref, lambda c: z3.If(isa('CXXRecordDecl', DCTX(c)), OUTER(DCTX(c)), c))


@contract('outermost_class', props=['C05'])
def _(k):
    c0 = k[0]
    k.result(OUTER(c0)); k.reveal(OUTER)

    def inv(ex, leaves):
        for x, (so, _) in leaves.items():
            if so == Ref: yield 'outermost class kept', lambda env, x=x: OUTER(env[x]) == OUTER(c0)
    k.invariant(inv)


# ------------------------------------------------------------------ namespaces that have bindings, and their parents
def chain(s, ns): return z3.If(z3.Length(ns) == 0, s, CHAIN(z3.Store(s, ns, True), BASE_NS(ns)))


SSs = z3.ArraySort(STR, BOOL)
CHAIN = SpecFun('namespace_and_parents', [SSs, STR], SSs, chain)
NS_SET = Fold('namespaces_with_bindings', [RL.sort, HSs], SSs, lambda b, HC: z3.K(STR, z3.BoolVal(False)), lambda b, HC, i, a: (lambda x: z3.If(z3.Length(z3.Select(HC, x)) != 0, CHAIN(a, NSOF(NAMED(x))), a))(RL.at(b, i)))


@contract('Context::create_all_nested_namespaces', props=['C05', 'C06'])
def _(k):
    b, HC = k.ctx('binders'), k.heap('code_', TSTR)
    n = RL.len(b)
    k.result(NS_SET(b, HC, n)); k.reveal(CHAIN)
    k.hint(NS_SET(b, HC, n))

    def inv(ex, leaves):
        # the namespaces collected so far, in a vector or in a set
        ls = [(x, so) for x, (so, _) in leaves.items() if so in (L.sort, SSs)]
        ss = [x for x, (so, _) in leaves.items() if so == STR]
        ii = [x for x, (so, _) in leaves.items() if so == INT]
        for x, so in ls:
            f = L.toset if so == L.sort else lambda t: t
            for y in ss: yield 'rest of the chain', lambda env, x=x, y=y, f=f: CHAIN(f(env[x]), env[y]) == CHAIN(f(leaves[x][1]), leaves[y][1])
            if so == L.sort:
                for i in ii: yield 'collected', lambda env, x=x, i=i: L.toset(env[x]) == NS_SET(b, HC, env[i])
    k.invariant(inv)


# ------------------------------------------------------------------ choosing what to bind, and binding until nothing requested is left
TV_ = ('vec', TREF)
LOC_OF, ASTCTX, SRCMGR = acc('getLocation', Ref), acc('getASTContext', Ref), acc('getSourceManager', Ref)
SYS = SpecFun('in_system_header', [Ref], BOOL, lambda d: B('isInSystemHeader')(ufapp('make_FullSourceLoc', [LOC_OF(d), SRCMGR(ASTCTX(d))], Ref)))


@contract('Binder::is_in_system_header', props=['C04'])
def _(k): k.result(SYS(NAMED(k.this))); k.reveal(SYS)


SKIP_B, WANT_B = z3.Function('binder_skip_requested', Ref, BOOL), z3.Function('binder_bind_requested', Ref, BOOL)


@contract('Binder::request_bindings_and_skipping', ret=TVOID, trusted='virtual; each override is proved to have this form, for the skip and bind predicate of its kind of declaration', raises_unspecified=True)
def _(k): request_spec(k, k.this, SKIP_B, WANT_B)


B_CODE = z3.Function('code_of_binder', Ref, *WS, STR)
B_REQ = z3.Function('requested_by_binder', Ref, *WS, HBs)
USED = z3.Function('used_by_a_bound_declaration', Ref, BOOL)


def req_axiom(b0):
    def ax(t, new):
        if t.decl().eq(B_REQ):
            new.append(z3.Implies(z3.Select(t.arg(1), b0), z3.Select(t, b0)))
            new.append(z3.Implies(z3.Select(t, b0), z3.Or(z3.Select(t.arg(1), b0), USED(b0))))
    return ax


@contract('Binder::bind', ret=TVOID, trusted='virtual; each override is proved to set the code of its own binder and to add requests for what that code uses, and nothing else', raises_unspecified=True)
def _(k):
    w = World(k)
    b = k.this
    k.set_heap('code_', TSTR, z3.Store(w.HC, b, B_CODE(b, w.HB, w.HC, w.HS, w.TY)))
    k.set_heap('binding_requested_', TBOOL, B_REQ(b, w.HB, w.HC, w.HS, w.TY))


def flags_for(b): return z3.If(SYS(NAMED(b)), z3.IntVal(1), z3.IntVal(3))


CFG_HS = Fold('skipped_by_config', [RL.sort, HBs], HBs, lambda l, HS: HS, lambda l, HS, i, a: (lambda b: z3.If(z3.And(BIND_B(b, z3.Select(a, b)), SKIP_B(b)), z3.Store(a, b, True), a))(RL.at(l, i)))
CFG_HB = Fold('requested_by_config', [RL.sort, HBs, HBs], HBs, lambda l, HB, HS: HB, lambda l, HB, HS, i, a: (lambda b: z3.If(z3.And(BIND_B(b, z3.Select(CFG_HS(l, HS, i), b)), z3.Not(SKIP_B(b)), z3.Not(SYS(NAMED(b))), WANT_B(b)), z3.Store(a, b, True), a))(RL.at(l, i)))


def left(l, HB, HC, HS, i):
    b = RL.at(l, i)
    return z3.And(z3.Not(is_binded(HC, b)), BIND_B(b, z3.Select(HS, b)), z3.Select(HB, b))


LEFT = Exists('requested_but_unbound', [RL.sort, HBs, HSs, HBs], left)


@contract('Context::bind', props=['C04'], raises_unspecified=True)
def _(k):
    w = World(k)
    l = k.ctx('binders')
    n = RL.len(l)
    hs, hb = CFG_HS(l, w.HS, n), CFG_HB(l, w.HB, w.HS, n)
    k.set_heap('skipping_requested_', TBOOL, hs)
    k.hint(hs, hb)
    b0 = z3.Const('any_binder', Ref)
    k.axiom(req_axiom(b0))

    def H(ex, f, td): return ex.read(LV(('H', f, td))).t
    k.havoc_heap('binding_requested_', TBOOL)
    k.havoc_heap('code_', TSTR)
    k.ensures('no requested, bindable declaration is left without code', lambda r, ex: z3.Not(LEFT(l, H(ex, 'binding_requested_', TBOOL), H(ex, 'code_', TSTR), hs, n)))
    if k.fn is not None:
        k.ensures('what the configuration asks for stays requested', lambda r, ex: z3.Implies(z3.Select(hb, b0), z3.Select(H(ex, 'binding_requested_', TBOOL), b0)))
        k.ensures('only what the configuration asks for or a bound declaration uses is requested', lambda r, ex: z3.Implies(z3.Select(H(ex, 'binding_requested_', TBOOL), b0), z3.Or(z3.Select(hb, b0), USED(b0))))
        k.ensures('only requested, bindable declarations get code', lambda r, ex: z3.Or(z3.Select(H(ex, 'code_', TSTR), b0) == z3.Select(w.HC, b0), z3.And(z3.Select(H(ex, 'binding_requested_', TBOOL), b0), BIND_B(b0, z3.Select(hs, b0)))))
    kb, kc, ks = ((('H', 'binding_requested_', TBOOL), ()), (('H', 'code_', TSTR), ()), (('H', 'skipping_requested_', TBOOL), ()))

    def inv(ex, leaves):
        fl = [x for x, (so, _) in leaves.items() if so == BOOL]
        ix = [x for x, (so, _) in leaves.items() if so == INT]
        if kb not in leaves or kc not in leaves: return
        yield 'requests kept', lambda env: z3.Implies(z3.Select(hb, b0), z3.Select(env[kb], b0))
        yield 'requests have a cause', lambda env: z3.Implies(z3.Select(env[kb], b0), z3.Or(z3.Select(hb, b0), USED(b0)))
        yield 'code has a cause', lambda env: z3.Or(z3.Select(env[kc], b0) == z3.Select(w.HC, b0), z3.And(z3.Select(env[kb], b0), BIND_B(b0, z3.Select(hs, b0))))
        for f in fl:
            for neg_ in (False, True):
                g = (lambda e: e) if neg_ else z3.Not
                for i in ix: yield 'nothing left so far unless noted', lambda env, f=f, i=i, g=g: z3.Implies(g(env[f]), z3.Not(LEFT(l, env[kb], env[kc], hs, env[i])))
                yield 'nothing left unless noted', lambda env, f=f, g=g: z3.Implies(g(env[f]), z3.Not(LEFT(l, env[kb], env[kc], hs, n)))
    k.invariant(inv)


# ------------------------------------------------------------------ order of registration
BDEPS = z3.Function('dependencies_of_binder', Ref, z3.ArraySort(Ref, RL.sort), RL.sort)
HDs = z3.ArraySort(Ref, RL.sort)


@contract('Binder::dependencies', ret=TV_, trusted='virtual; the override of ClassBinder returns the list its bind() collected')
def _(k): k.result(BDEPS(k.this, k.heap('dependencies_', TV_)))


def at_entry(ex, field):
    """a field of the context when the loop at hand is entered"""
    save, ex.st = ex.st, ex.loop_entry
    try: return pack(ex.read(LV('CONTEXT', (('f', field),))))
    finally: ex.st = save


def positions(ex, l):
    """the binders that some index or iterator points at when the loop at hand is entered"""
    seen = {}
    for loc, v in ex.loop_entry.store.items():
        if isinstance(loc, tuple) or not isinstance(v, V) or v.td[0] not in ('iter', 'int'): continue
        for p, t, q in leaves(v):
            if z3.is_int(t) and not z3.is_int_value(t): seen[t.get_id()] = RL.at(l, t)
    return list(seen.values())


def early(c, binded, d): return z3.And(OUTER(d) != c, needed(binded, OUTER(d)))


EARLY = Exists('class_has_dependency_not_yet_registered', [RL.sort, Ref, z3.ArraySort(STR, BOOL)], lambda deps, c, s, j: early(c, s, RL.at(deps, j)))
def is_class(b): return isa('CXXRecordDecl', NAMED(b))


REGISTERED = Fold('classes_registered_so_far', [RL.sort], z3.ArraySort(STR, BOOL), lambda l: EMPTY, lambda l, i, a: z3.If(is_class(RL.at(l, i)), z3.Store(a, CLASS_QN(NAMED(RL.at(l, i))), True), a))
def too_early(l, HD, i): return (lambda b: z3.And(is_class(b), EARLY(BDEPS(b, HD), NAMED(b), REGISTERED(l, i), RL.len(BDEPS(b, HD)))))(RL.at(l, i))


TOO_EARLY = Exists('some_class_registered_before_its_dependencies', [RL.sort, HDs], too_early)
BAG = z3.Function('multiset_of_binders', RL.sort, z3.ArraySort(Ref, INT))


def rot_axiom(t, new):
    if t.decl().eq(RL.rot):
        new.append(BAG(t) == BAG(t.arg(0)))
        new.append(RL.len(t) == RL.len(t.arg(0)))


@contract('Context::sort_binders', props=['C05', 'C06'], raises_unspecified=True, live=True)
def _(k):
    l0, HD = k.ctx('binders'), k.heap('dependencies_', TV_)
    n = RL.len(l0)
    k.set_ctx('binded', EMPTY)
    k.havoc_ctx('binders')
    def now(ex): return ex.read(LV('CONTEXT', (('f', 'binders'),))).t
    k.ensures('no class comes before a class it depends on', lambda r, ex: z3.Not(TOO_EARLY(now(ex), HD, n)))
    k.ensures('the binders are the same, each as often as before', lambda r, ex: z3.And(BAG(now(ex)) == BAG(l0), RL.len(now(ex)) == n))
    k.axiom(rot_axiom)
    kl, ks = ('CONTEXT', ('binders',)), ('CONTEXT', ('binded',))

    def inv(ex, lv):
        fl = [x for x, (so, _) in lv.items() if so == BOOL]
        ix = [x for x, (so, _) in lv.items() if so == INT]
        e = {x: lv[x][1] for x in lv}
        for x in fl + [kl]:
            if x in lv: yield 'unchanged', lambda env, x=x: env[x] == e[x]
        if kl in lv: yield 'permutation', lambda env: z3.And(BAG(env[kl]) == BAG(l0), RL.len(env[kl]) == n)
        L_, s = at_entry(ex, 'binders'), at_entry(ex, 'binded')
        for i in ix:
            if ks in lv:
                yield 'registered so far', lambda env, i=i: env[ks] == REGISTERED(L_, env[i])
                yield 'in order so far', lambda env, i=i: z3.Not(TOO_EARLY(L_, HD, env[i]))
        for f in fl:
            if kl in lv:
                yield 'in order', lambda env, f=f: z3.Implies(z3.Not(env[f]), z3.Not(TOO_EARLY(env[kl], HD, n)))
                yield 'nothing moved', lambda env, f=f: z3.Implies(z3.Not(env[f]), env[kl] == e[kl])
            for i in ix:
                for b in positions(ex, L_): yield 'dependencies so far', lambda env, f=f, i=i, b=b: z3.Implies(z3.Not(env[f]), z3.Not(EARLY(BDEPS(b, HD), NAMED(b), s, env[i])))
    k.invariant(inv)
