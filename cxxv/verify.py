"""Prove the bodies in /repo against their contracts."""
import os, z3, time, traceback, sys, os, multiprocessing as mp
from .terms import *
from .execu import Executor, LV, Frame, State, Exit, Obligation, Iter
from .models import Models
from . import loops, solve, cast
from .spec import K, ret_type

sys.setrecursionlimit(100000)


class FnResult:
    """outcome for one contract.  status: proved | failed | unsupported | missing"""

    def __init__(self, name):
        self.name, self.status, self.why = name, 'proved', ''
        self.obls = []           # dicts name, status, backend, time, line
        self.time = 0.0
        self.file = self.line = None
        self.used, self.externals, self.std, self.inlined, self.loops = [], [], [], [], []
        self.assumed = []
        self.inputs = []         # candidate counterexample inputs


def entry_value(ex, p, i):
    """symbolic entry value of a parameter; returns what goes in the env"""
    ty = p.ty
    td = td_of(ty)
    name = p.name or 'arg%d' % i
    if td[0] == 'rec':
        if td[1] == 'Config': return LV('CONFIG')
        if td[1] == 'Context': return LV('CONTEXT')
        if td[1] == 'IncludeSet': return LV(ex.newloc(unpack(td, z3.Const(name, sort_of(td))), name))
        return LV(ex.newloc(V(td, {'\0name': name}), name))
    if td[0] == 'fun': raise Unsupported('function parameter')
    v = named(td, name)
    if td[0] == 'vec': ex.facts.append(LT(td[1]).len(v.t) >= 0)
    if td[0] == 'int' and td[2]: ex.facts.append(v.t >= 0)
    return LV(ex.newloc(v, name))


def this_value(ex, f):
    if f.cls is None or f.node.kind not in ('CXXMethodDecl', 'CXXConstructorDecl') or f.node.get('storageClass') == 'static': return None
    if f.cls == 'Config': return LV('CONFIG')
    if f.cls == 'Context': return LV('CONTEXT')
    if f.cls == 'IncludeSet': return LV(ex.newloc(unpack(('rec', f.cls), z3.Const('this', sort_of(('rec', f.cls)))), 'this'))
    if f.cls in RECORDS: return LV(ex.newloc(V(('rec', f.cls), {'\0name': 'this'}), 'this'))
    t = z3.Const('this', Ref)
    ex.facts.append(t != NULL)
    return vref(t)


def run(prog, reg, con, timeout=8000, use_cvc5=True, inline=()):
    """first with loop invariants inferred in the weakened string theory (fast); when that does not prove everything, again in full"""
    R = run1(prog, reg, con, timeout, use_cvc5, inline, True)
    if R.status == 'failed' and R.loops and R.time < 150 and not con.once:
        t = R.time
        R = run1(prog, reg, con, timeout, use_cvc5, inline, False)
        R.time += t
    return R


def run1(prog, reg, con, timeout, use_cvc5, inline, fast):
    R = FnResult(con.name)
    t0 = time.time()
    try:
        _run(prog, reg, con, R, timeout, use_cvc5, inline, fast)
    except Unsupported as e:
        R.status, R.why = 'unsupported', str(e)
        if os.environ.get('CXXVTRACE'): R.trace = traceback.format_exc()
    except cast.FrontEndError as e:
        R.status, R.why = 'unsupported', 'front end: ' + str(e)
    except Exception as e:
        R.status, R.why = 'unsupported', 'internal: %s: %s' % (type(e).__name__, e)
        R.trace = traceback.format_exc()
    R.time = time.time() - t0
    return R


class Setup: pass


def setup(prog, reg, con, inline=(), fast=False):
    """entry state and contract of one function"""
    fs = [f for f in prog.functions.values() if con.matches(f.qname)]
    if not fs: return None
    if len(fs) > 1: raise Unsupported('ambiguous: ' + ', '.join(f.qname for f in fs))
    f = fs[0]
    opts = {'inline': set(inline), 'fast': fast}
    if con.memo: opts['memo'] = con.memo
    if con.live: opts['live'] = True
    ex = Executor(prog, reg, Models(), opts)
    loops.install(ex)
    ex.st.store['CONFIG'] = V(('rec', 'Config'), {'\0name': 'Config'})
    ex.st.store['CONTEXT'] = V(('rec', 'Context'), {'\0name': 'Context'})
    ex.st.store['fs'], ex.st.store['fsw'], ex.st.store['cmds'] = named(('map', TSTR, TSTR), 'FS'), named(('set', TSTR), 'FSW'), V(('vec', TSTR), LT(TSTR).nil)
    this = this_value(ex, f)
    fr = Frame(f, this)
    lvs = []
    for i, p in enumerate(f.params):
        lv = entry_value(ex, p, i)
        fr.env[p.id] = lv
        lvs.append(lv)
    k = K(ex, this, lvs, f)
    con.spec(k)
    for o in ('templates', 'invariants', 'axioms', 'guards'): opts[o] = k.opts.get(o, [])
    opts['reveal'] = k.opts['reveal']
    opts['spec_terms'] = k.terms()
    for r in k.req: ex.facts.append(r)
    for r, _ in k.assumed: ex.facts.append(r)
    s = Setup()
    s.ex, s.f, s.fr, s.lvs, s.k, s.opts = ex, f, fr, lvs, k, opts
    return s


def _run(prog, reg, con, R, timeout, use_cvc5, inline, fast=False):
    s = setup(prog, reg, con, inline, fast)
    if s is None:
        R.status, R.why = 'missing', 'no definition of %s' % con.qname
        return
    ex, f, fr, lvs, k, opts = s.ex, s.f, s.fr, s.lvs, s.k, s.opts
    R.file, R.line = f.node.tu.name + '.cpp', f.node.line()
    R.assumed = [w for _, w in k.assumed]
    if con.memo: install_memo(ex, con)
    fr.ret_td = td_of(ret_type(f))
    fr.ret_is_ref = ret_type(f).endswith('&')
    entry = ex.st.copy()
    ex.frames.append(fr)
    ex.ex(f.body)
    if not ex.st.dead: fr.returns.append(Exit('return', ex.st, VVOID, line=f.node.get('range', {}).get('end', {}).get('line')))
    ex.frames.pop()
    R.loops = ex.log
    R.used, R.externals, R.std, R.inlined = sorted(ex.used_contracts), sorted(ex.used_externals), sorted(ex.used_std), sorted(ex.inlined)
    # vacuity: the precondition must be satisfiable and some exit reachable
    if k.req:
        s = z3.Solver()
        s.set('timeout', 4000)
        for x in k.req: s.add(x)
        if s.check() == z3.unsat: raise Unsupported('vacuous precondition')
    obls = list(ex.obls)
    raises = k.raise_ if k.raise_ is not None else z3.BoolVal(False)
    for e in fr.returns: obls.extend(exit_obligations(ex, con, k, f, e, entry, lvs, raises, fr))
    for e in ex.throws:
        if con.raises_unspecified: break
        nm = 'error exit (%s) only under the documented condition' % (e.what or 'throw')
        obls.append(Obligation(nm, e.state.pc, raises, 'raises', e.line))
    if not obls and not fr.returns and not ex.throws: raise Unsupported('no exit reached')
    kw = dict(reveal=opts['reveal'], axioms=opts['axioms'])
    failed = False
    for o in obls:
        facts = ex.facts
        r = solve.prove(facts + o.pc, o.goal, timeout, use_cvc5=use_cvc5, **kw)
        d = {'name': '%s: %s' % (con.name, o.name), 'status': r.status, 'backend': r.backend, 'time': round(r.time, 3), 'line': o.line}
        R.obls.append(d)
        if not r.ok:
            failed = True
            d['goal'] = str(o.goal)[:3000]
            if r.model is not None:
                d['model'] = model_inputs(r.model, lvs, f, entry)
                R.inputs.append(d['model'])
    if failed: R.status = 'failed'
    if not R.obls: raise Unsupported('no obligations generated')


def pyval(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_string_value(v): return pystr(v)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return str(v)


def model_inputs(m, lvs, f, entry):
    out = {}
    try:
        for p, lv in zip(f.params, lvs):
            v = entry.store.get(lv.loc)
            if not isinstance(v, V): continue
            if v.td[0] in ('str', 'int', 'bool'): out[p.name] = pyval(m, v.t)
            if v.td[0] == 'vec' and v.td[1] == TSTR:
                T = LT(TSTR)
                n = pyval(m, T.len(v.t))
                if isinstance(n, int) and n < 20: out[p.name] = [pyval(m, T.at(v.t, z3.IntVal(j))) for j in range(n)]
        seen = set()
        for d in m.decls():
            nm = d.name()
            if nm.startswith('Config.') and nm not in seen and d.arity() == 0:
                T = LT(TSTR)
                if d.range() == T.sort:
                    n = pyval(m, T.len(d()))
                    if isinstance(n, int) and 0 <= n < 20: out[nm] = [pyval(m, T.at(d(), z3.IntVal(j))) for j in range(n)]
                elif d.range() == STR: out[nm] = pyval(m, d())
            elif d.arity() == 0 and (nm.startswith('O_') or nm.startswith('k!')): out[nm] = pyval(m, d())
    except Exception as e:
        out['error'] = str(e)
    return out


def same(a, b):
    """equality of two values as a Bool, structurally"""
    if a is b: return z3.BoolVal(True)
    if isinstance(a, LV) or isinstance(b, LV): return z3.BoolVal(True) if isinstance(a, LV) and isinstance(b, LV) and a.loc == b.loc and a.path == b.path else z3.BoolVal(False)
    if a.td[0] == 'pair': return conj(same(a.t[0], b.t[0]), same(a.t[1], b.t[1]))
    if a.td[0] == 'map': return conj(eq(a.t[0], b.t[0]), eq(a.t[1], b.t[1]))
    if a.td == ('rec', 'IncludeSet'):
        R = incset()
        def parts(v):
            t = pack(v)
            return t.children() if t.decl().eq(R[1]) else [R[i](t) for i in (2, 3, 4)]
        return conj(*[eq(x, y) for x, y in zip(parts(a), parts(b))])
    return eq(pack(a), pack(b))


def exit_obligations(ex, con, k, f, e, entry, lvs, raises, fr):
    out = []
    pc = e.state.pc
    st = e.state

    def ob(name, goal, kind='post'): out.append(Obligation(name, pc, goal, kind, e.line))
    if not z3.is_false(raises): ob('normal return only without the documented error condition', neg(raises), 'raises')
    if k.res is not None:
        v = e.value
        if isinstance(v, LV): v = ex_read(ex, st, v)
        w = k.res if isinstance(k.res, V) else unpack(fr.ret_td, k.res)
        if v is None or v.td == TVOID: raise Unsupported('no value returned')
        if v.td[0] != w.td[0] and {v.td[0], w.td[0]} <= {'int', 'bool'}: v = ex.coerce(v, w.td)
        ob('result equals its specification', same(v, w))
    for nm, g in k.ens:
        save, ex.st = ex.st, st
        try: ob(nm, g(e.value if not isinstance(e.value, LV) else ex.read(e.value), ex))
        finally: ex.st = save
    # by-reference parameters
    for i, (p, lv) in enumerate(zip(f.params, lvs)):
        if lv.loc in ('CONFIG', 'CONTEXT'): continue
        isref = p.qt.rstrip().endswith('&') or p.ty.rstrip().endswith('&')
        if i in k.finals:
            ob('final value of %s' % p.name, same(st.store[lv.loc], unpack(entry.store[lv.loc].td, k.finals[i])))
        elif isref and i not in k.loose and isinstance(entry.store[lv.loc], V) and (entry.store[lv.loc].td[0] != 'rec' or entry.store[lv.loc].td[1] == 'IncludeSet'):
            g = same(st.store[lv.loc], entry.store[lv.loc])
            if not z3.is_true(g): ob('%s is left unchanged' % p.name, g, 'frame')
    if isinstance(k.this_, LV) and k.this_.loc not in ('CONFIG', 'CONTEXT') and not k.this_.path and isinstance(entry.store.get(k.this_.loc), V):
        v0, v1 = entry.store[k.this_.loc], st.store[k.this_.loc]
        for fld in set(v1.t) | set(k.recs):
            if fld.startswith('\0'): continue
            x = v1.t.get(fld) or ex.rec_default(v1, fld)
            if fld in k.recs: ob('final %s' % fld, same(x, unpack(x.td, k.recs[fld][1])))
            else:
                g = same(x, v0.t.get(fld) or ex.rec_default(v0, fld))
                if not z3.is_true(g): ob('%s is left unchanged' % fld, g, 'frame')
    # singletons
    for root, sets in (('CONFIG', k.cfgs), ('CONTEXT', k.ctxs)):
        rec = st.store[root]
        for fld, v in rec.t.items():
            if fld.startswith('\0'): continue
            if root + '.' + fld in k.loose: continue
            if fld in sets: continue
            g = same(v, ex.rec_default(entry.store[root], fld))
            if not z3.is_true(g): ob('%s.%s is left unchanged' % (root.title(), fld), g, 'frame')
        for fld, t in sets.items():
            v = rec.t.get(fld) or ex.rec_default(rec, fld)
            ob('final %s.%s' % (root.title(), fld), same(v, unpack(v.td, t)))
    for key in set(x for x in st.store if isinstance(x, tuple) and x[0] == 'H') | set(('H', a, b) for (a, b) in k.heaps):
        v = st.store.get(key) or ex.lazy_root(key)
        if key[1] in k.loose: continue
        if (key[1], key[2]) in k.heaps: ob('final value of field %s' % key[1], v.t == k.heaps[(key[1], key[2])])
        else:
            g = eq(v.t, ex.lazy_root(key).t)
            if not z3.is_true(g): ob('field %s is left unchanged' % key[1], g, 'frame')
    for key in ('fs', 'fsw', 'cmds'):
        if key in k.stores:
            v = st.store.get(key)
            if v is None: v = {'fs': named(('map', TSTR, TSTR), 'FS'), 'fsw': named(('set', TSTR), 'FSW'), 'cmds': V(('vec', TSTR), LT(TSTR).nil)}[key]
            ob('final %s' % {'fs': 'file contents', 'fsw': 'set of files written', 'cmds': 'commands run'}[key], same(v, k.stores[key]))
        elif key in st.store and key not in k.loose:
            v0 = {'fs': named(('map', TSTR, TSTR), 'FS'), 'fsw': named(('set', TSTR), 'FSW'), 'cmds': V(('vec', TSTR), LT(TSTR).nil)}[key]
            g = same(st.store[key], v0)
            if not z3.is_true(g): ob('no file or command effect (%s)' % key, g, 'frame')
    if con.memo:
        for sid, (nm, td, v0) in ex.statics.items():
            v1 = st.store.get('static:' + sid)
            if v1 is None or td[0] != 'map': continue
            kk = fresh(td[1], 'anykey')
            key = pack(kk)
            inv = lambda v: z3.Implies(z3.Select(v.t[0], key), z3.Select(v.t[1], key) == con.memo(k, key))
            o = Obligation('cache %s only ever holds the value the function would compute' % nm, pc + [inv(v0)], inv(v1), 'memo', e.line)
            out.append(o)
    return out


def ex_read(ex, st, lv):
    save, ex.st = ex.st, st
    try: return ex.read(lv)
    finally: ex.st = save


def install_memo(ex, con):
    kk = [None]

    def memo_read(b, v, key):
        for sid, (nm, td, v0) in ex.statics.items():
            if isinstance(b, LV) and b.loc == 'static:' + sid and td[0] == 'map':
                k = K(ex, None, [])
                ex.facts.append(z3.Implies(z3.Select(v0.t[0], key), z3.Select(v0.t[1], key) == con.memo(k, key)))
    ex.memo_read = memo_read


# ---------------------------------------------------------------- parallel driver
_job = {}


def _child(name):
    con = _job['cons'][name]
    solve.STATS.update({'z3': 0, 'cvc5': 0, 'simplify': 0, 'time': 0.0, 'queries': 0})
    r = run(_job['prog'], _job['reg'], con, _job['timeout'], _job['use_cvc5'])
    r.stats = dict(solve.STATS)
    return r


def verify_all(prog, reg, cons, timeout=8000, use_cvc5=True, jobs=8, wall=600):
    """returns {name: FnResult}"""
    _job.update(prog=prog, reg=reg, cons={c.name: c for c in cons}, timeout=timeout, use_cvc5=use_cvc5)
    out = {}
    ctx = mp.get_context('fork')
    deadline = time.time() + wall
    pend = sorted(_job['cons'], key=lambda n: not _job['cons'][n].once)       # long ones first
    live = {}

    def go(name, q):
        try: q.send(_child(name))
        except BaseException as e:
            r = FnResult(name)
            r.status, r.why, r.stats = 'unsupported', 'worker: %r' % (e,), {}
            q.send(r)
        q.close()
        os._exit(0)
    while pend or live:
        while pend and len(live) < jobs:
            name = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=go, args=(name, b))
            p.start()
            b.close()
            live[name] = (p, a, time.time())
        for name, (p, a, t) in list(live.items()):
            if a.poll(0.02):
                try: out[name] = a.recv()
                except EOFError:
                    r = FnResult(name)
                    r.status, r.why, r.stats = 'unsupported', 'worker died', {}
                    out[name] = r
                p.join(5)
                if p.is_alive(): p.kill()
                del live[name]
            elif time.time() > deadline:
                p.kill()
                r = FnResult(name)
                r.status, r.why, r.stats, r.time = 'unsupported', 'time budget exhausted', {}, time.time() - t
                out[name] = r
                del live[name]
        if time.time() > deadline:
            for name in pend:
                r = FnResult(name)
                r.status, r.why, r.stats = 'unsupported', 'time budget exhausted', {}
                out[name] = r
            pend = []
    return out
