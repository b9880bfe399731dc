"""Loop rule: havoc what the body modifies, assume an inductive invariant, continue with the invariant and the
negated condition.  The invariant is inferred Houdini-style from candidates `variable = specification fold(index)`;
no candidate mentions a program variable by name, so renaming, reordering or re-shaping the loop does not matter."""
import z3
from .terms import *
from .execu import *
from .solve import prove, Batch


# ---- leaf views of values
def leaves(v, path=()):
    if isinstance(v, (LV, Poison)): return
    k = v.td[0]
    if k == 'pair':
        yield from leaves(v.t[0], path + (0,))
        yield from leaves(v.t[1], path + (1,))
    elif k == 'map':
        yield path + ('d',), v.t[0], None
        yield path + ('v',), v.t[1], None
    elif k == 'rec':
        for f in sorted(v.t):
            if f.startswith('\0'): continue
            yield from leaves(v.t[f], path + (f,))
    elif k == 'iter':
        if isinstance(v.t, Iter): yield path + ('idx',), v.t.idx, v.t.seq
    elif k in ('fun', 'stream', 'void', 'ptr', 'range', 'fmt'): return
    else: yield path, v.t, None


def set_leaf(v, path, t):
    if not path: return V(v.td, t)
    p = path[0]
    k = v.td[0]
    if k == 'pair':
        l = list(v.t)
        l[p] = set_leaf(l[p], path[1:], t)
        return V(v.td, tuple(l))
    if k == 'map': return V(v.td, (t, v.t[1]) if p == 'd' else (v.t[0], t))
    if k == 'rec':
        d = dict(v.t)
        d[p] = set_leaf(d[p], path[1:], t)
        return V(v.td, d)
    if k == 'iter': return V(TITER, Iter(v.t.seq, t))
    raise Unsupported('set_leaf')


def get_leaf(v, path):
    for pth, t, s in leaves(v):
        if pth == path: return t
    return None


class Template:
    """a specification term with a hole for the index"""

    def __init__(self, f, sort, kind='fold', tag=''):
        self.f, self.sort, self.kind, self.tag = f, sort, kind, tag

    def __call__(self, i): return self.f(i)


def fold_templates(terms, extra_idx=(), depth=3, reveal=()):
    """templates for every fold application occurring in `terms` (and, nested, in their unfoldings at the given indices)"""
    out = []
    seen = set()
    work = list(terms)
    for d in range(depth):
        nxt = []
        for t in work:
            for x in subterms(t):
                if not z3.is_app(x): continue
                nm = x.decl().name()
                s = DEFS.get(nm)
                if s is not None and s.define is not None and nm in reveal:
                    nxt.append(s.define(*x.children()))
                f = FOLDS.get(nm)
                if f is None: continue
                ps = x.children()[:-1]
                key = (nm, tuple(p.get_id() for p in ps))
                if key in seen: continue
                seen.add(key)
                out.append(Template((lambda f, ps: lambda i: f.f(*ps, i))(f, ps), f.sort, f.kind, nm))
                out[-1].fold, out[-1].params = f, ps
                nxt.extend(ps)
                for i in list(extra_idx)[-3:]:
                    nxt.append(f.at_succ(ps, i))
                nxt.append(f.at0(ps))
        work = nxt
    return out


def run_loop(ex, n, cond, body, inc, pre):
    if ex.st.dead: return
    if not ex.dry and concrete_unroll(ex, n, cond, body, inc, pre): return
    entry = ex.st

    def iteration(st, record):
        """one iteration from st; returns (backedge state, exit states)"""
        fr = ex.frame
        ex.st = st
        saved = (len(fr.returns), len(ex.throws), len(ex.obls))
        loop = {'kind': 'loop', 'breaks': [], 'continues': []}
        c = cond()
        exits = []
        if ex.st.dead:
            back = ex.st
        else:
            if z3.is_true(c): 
                pass
            elif z3.is_false(c):
                exits.append(ex.st)
                ex.kill()
            else:
                a, b = ex.fork(c)
                exits.append(b)
                ex.st = a
            fr.loops.append(loop)
            if not ex.st.dead and pre: pre()
            ex.ex(body)
            fr.loops.pop()
            for s in loop['continues']: ex.st = ex.merge(ex.st, s)
            if inc is not None and not ex.st.dead:
                if callable(inc): inc()
                else: ex.ev(inc)
            back = ex.st
            exits.extend(loop['breaks'])
        if not record:
            del fr.returns[saved[0]:]
            del ex.throws[saved[1]:]
            del ex.obls[saved[2]:]
        return back, exits

    # ---- what does the body modify?
    keys = list(entry.store)
    mod = {}          # (loc, leafpath) -> fresh const

    def havoc():
        s = entry.copy()
        for (loc, path), (c, _) in mod.items():
            s.store[loc] = set_leaf(s.store[loc], path, c)
        return s
    ex.dry += 1
    nf = len(ex.facts)
    newheap = set()
    try:
        for _ in range(6):
            st = havoc()
            base = {loc: dict((p, t) for p, t, s in leaves(st.store[loc])) for loc in keys if loc in st.store and isinstance(st.store[loc], V)}
            back, exits = iteration(st, False)
            changed = False
            added = set()
            for s in [back] + exits:
                if s.dead: continue
                for k in s.store:
                    if isinstance(k, tuple) and k not in entry.store:
                        entry.store[k] = ex.lazy_root(k)
                        keys.append(k)
                        changed = True
                for k in ('fs', 'fsw', 'cmds'):
                    if k in s.store and k not in entry.store:
                        entry.store[k] = named(('map', TSTR, TSTR), 'FS') if k == 'fs' else named(('set', TSTR), 'FSW') if k == 'fsw' else V(('vec', TSTR), LT(TSTR).nil)
                        keys.append(k)
                        changed = True
            if not back.dead:
                for loc, b in base.items():
                    if loc not in back.store: continue
                    w = back.store[loc]
                    if isinstance(w, LV):
                        if st.store.get(loc) is not w: raise Unsupported('reference reseated in a loop')
                        continue
                    if isinstance(w, Poison): raise Unsupported('loop-carried value lost: ' + w.why)
                    now = {}
                    for p, t, s in leaves(w): now[p] = t
                    for p, t in now.items():
                        if p not in b:
                            # lazily created record field: give it its default at entry
                            v0 = entry.store[loc]
                            if v0.td[0] == 'rec':
                                f = p[0]
                                d = dict(v0.t)
                                if f not in d:
                                    d[f] = ex.rec_default(v0, f)
                                    entry.store[loc] = V(v0.td, d)
                                    added.add((loc, f))
                                    changed = True
                                if (loc, f) in added: continue
                            raise Unsupported('loop changes the shape of a value')
                        if not t.eq(b[p]) and (loc, p) not in mod:
                            mod[(loc, p)] = (z3.Const(fresh_name('h_' + str(loc).split('#')[0] + ''.join('.' + str(x) for x in p)), t.sort()), None)
                            changed = True
            if not changed: break
        else: raise Unsupported('loop modification analysis did not converge')
    finally:
        ex.dry -= 1
        del ex.facts[nf:]

    # sequence lengths that bound the indices
    entry_leaf = {}
    seqs = {}
    for (loc, p), (c, _) in mod.items():
        for q, t, s in leaves(entry.store[loc]):
            if q == p:
                entry_leaf[(loc, p)] = t
                if s is not None:
                    save, ex.st = ex.st, entry
                    seqs[(loc, p)] = s.length
                    ex.st = save
    if ex.dry:
        # only the shape matters: havoc and leave
        st = havoc()
        nf = len(ex.facts)
        back, exits = iteration(st, True)
        out = State()
        out.dead = True
        for s in exits: out = ex.merge(out, s)
        ex.st = out
        return

    idxs = [k for k, (c, _) in mod.items() if z3.is_int(c)]
    ex.loop_idx = getattr(ex, 'loop_idx', [])
    pcE = list(entry.pc)

    # ---- candidates: (description, function(env leaf->term) -> Bool)
    cands = []

    def add(desc, f): cands.append((desc, f))
    bounds = []
    st = havoc()
    ex.dry += 1
    nf = len(ex.facts)
    try:
        ex.st = st.copy()
        ctest = cond()
    finally:
        ex.dry -= 1
        hids = {c.get_id() for (c, _) in mod.values()}
        cfacts = [f for f in ex.facts[nf:] if not any(y.get_id() in hids for y in subterms(f))]
        del ex.facts[nf:]
        ex.facts.extend(cfacts)
    for x in subterms(ctest):
        if z3.is_app(x) and z3.is_int(x) and x.num_args() == 1 and (x.decl().name().startswith('len_') or x.decl().kind() == z3.Z3_OP_SEQ_LENGTH):
            if not any(c.get_id() == y.get_id() for y in subterms(x) for (c, _) in mod.values()): bounds.append(x)
    for x in subterms(ctest):   # x < B comparisons with loop-invariant B
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_int(x.arg(0)):
            for y in x.children():
                if any(c.get_id() == z.get_id() for z in subterms(y) for (c, _) in mod.values()): continue
                for b2 in [y] + [y + 1] * (x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE)):
                    if not any(b2.eq(b) for b in bounds): bounds.append(b2)
    for k in idxs:
        e0 = entry_leaf[k]
        add('idx>=entry', lambda env, k=k, e0=e0: env[k] >= e0)
        if k in seqs: add('idx<=len', lambda env, k=k: env[k] <= seqs[k])
        for b in bounds: add('idx<=bound', lambda env, k=k, b=b: env[k] <= b)
        for k2 in idxs:
            if k2 != k and str(k2) > str(k): add('sync', lambda env, k=k, k2=k2: env[k] - env[k2] == entry_leaf[k] - entry_leaf[k2])
    ht = [mod[k][0] for k in idxs]
    spec_terms = ex.opts.get('spec_terms', [])
    tm = fold_templates(spec_terms, ex.loop_idx + ht, reveal=ex.opts.get('reveal', ()))
    here = {c.get_id() for c in ht}
    tm = [t for t in tm if not any(x.get_id() in here for p in t.params for x in subterms(p))]
    tm += [Template(f, f(z3.IntVal(0)).sort(), 'extra') for f in ex.opts.get('templates', [])]
    this_ref = ex.rv(ex.frames[0].this) if ex.frames and ex.frames[0].this is not None else None
    this_ref = this_ref.t if this_ref is not None and this_ref.td[0] == 'ref' else None
    for k, (c, _) in mod.items():
        e0 = entry_leaf[k]
        for t in tm:
            for i in idxs:
                if i == k and not z3.is_int(c): continue
                srt = c.sort()
                if t.sort == srt:
                    if i == k: continue
                    add('=%s' % t.tag, lambda env, k=k, t=t, i=i: env[k] == t(env[i]))
                    if srt == STR and not (z3.is_string_value(e0) and e0.as_string() == ''):
                        add('=entry+%s' % t.tag, lambda env, k=k, t=t, i=i, e0=e0: env[k] == cat(e0, t(env[i])))
                    if srt == STR:     # items separated: separator put before all but the first, or after all but the last
                        for b in bounds:
                            add('=%s, separators before' % t.tag, lambda env, k=k, t=t, i=i, e0=e0, b=b: cat(env[k], z3.If(z3.And(env[i] > 0, env[i] < b), S(', '), S(''))) == cat(e0, t(env[i])))
                            add('=%s, separators after' % t.tag, lambda env, k=k, t=t, i=i, e0=e0, b=b: env[k] == cat(e0, t(env[i]), z3.If(z3.And(env[i] > 0, env[i] < b), S(', '), S(''))))
                    if z3.is_app(e0) and e0.decl().kind() == z3.Z3_OP_ITE:
                        c0, a0, b0 = e0.children()
                        add('=ite %s' % t.tag, lambda env, k=k, t=t, i=i, c0=c0, b0=b0: env[k] == z3.If(c0, t(env[i]), b0))
                        add('=ite not %s' % t.tag, lambda env, k=k, t=t, i=i, c0=c0, a0=a0: env[k] == z3.If(c0, a0, t(env[i])))
                    for gd in ex.opts.get('guards', []): add('=guarded %s' % t.tag, lambda env, k=k, t=t, i=i, e0=e0, gd=gd: env[k] == z3.If(gd, t(env[i]), e0))
                    if srt == BOOL:
                        add('=not %s' % t.tag, lambda env, k=k, t=t, i=i: env[k] == z3.Not(t(env[i])))
                        if not is_val(e0):
                            add('=entry and not %s' % t.tag, lambda env, k=k, t=t, i=i, e0=e0: env[k] == z3.And(e0, z3.Not(t(env[i]))))
                            add('=entry or %s' % t.tag, lambda env, k=k, t=t, i=i, e0=e0: env[k] == z3.Or(e0, t(env[i])))
                elif isinstance(k[0], tuple) and k[0][0] == 'H' and z3.is_array(c) and srt.range() == t.sort and this_ref is not None:
                    add('field=%s' % t.tag, lambda env, k=k, t=t, i=i, e0=e0: env[k] == z3.Store(e0, this_ref, t(env[i])))
                elif k[1] and k[1][-1] in ('d', 'v') and isinstance(t.sort, z3.DatatypeSortRef) and t.sort.name().startswith('M_'):
                    acc = t.sort.accessor(0, 0 if k[1][-1] == 'd' else 1)
                    if acc.range() == srt: add('=%s.%s' % (t.tag, k[1][-1]), lambda env, k=k, t=t, i=i, acc=acc: env[k] == acc(t(env[i])))
                elif t.sort == incset()[0] and any(k[1][-len(q):] == q for q in INCSET_LEAF):
                    a = [incset()[INCSET_LEAF[q]] for q in INCSET_LEAF if k[1][-len(q):] == q][0]
                    if i != k and a.range() == srt: add('=%s.%s' % (t.tag, a.name()), lambda env, k=k, t=t, i=i, a=a: env[k] == a(t(env[i])))
                elif srt == STR and t.sort == INT:
                    add('len=%s' % t.tag, lambda env, k=k, t=t, i=i: z3.Length(env[k]) == t(env[i]))
                elif srt == BOOL and t.sort == INT:
                    add('=(%s>0)' % t.tag, lambda env, k=k, t=t, i=i: env[k] == (t(env[i]) > 0))
                elif z3.is_int(c) and t.sort == STR and i != k:
                    add('=len %s' % t.tag, lambda env, k=k, t=t, i=i: env[k] == z3.Length(t(env[i])))
    for t in tm:
        if t.sort == INT:
            for i in idxs: add('%s>=0' % t.tag, lambda env, t=t, i=i: t(env[i]) >= 0)
        if t.kind == 'exists':
            for i in idxs:
                add('not %s' % t.tag, lambda env, t=t, i=i: z3.Not(t(env[i])))
                if not is_val(entry_leaf[i]): add('not %s, from 0' % t.tag, lambda env, t=t, i=i: z3.Implies(entry_leaf[i] == 0, z3.Not(t(env[i]))))
    ex.loop_entry = entry
    for f in ex.opts.get('invariants', []):
        # contract-supplied shapes: function(list of int leaves, list of str leaves, env access) -> candidate closures
        for desc, g in f(ex, {k: (mod[k][0].sort(), entry_leaf[k]) for k in mod}): add(desc, g)

    def env_of(s):
        e = {}
        for (loc, p) in mod:
            v = s.store.get(loc)
            t = get_leaf(v, p) if isinstance(v, V) else None
            if t is None: raise Unsupported('loop leaf vanished')
            save, ex.st = ex.st, s
            t = ex.prune(V(TINT, t)).t
            ex.st = save
            e[(loc, p)] = t
        return e

    kw = dict(reveal=ex.opts.get('reveal', ()), axioms=ex.opts.get('axioms', ()))
    hyp0 = list(ex.facts) + pcE
    eenv = {k: entry_leaf[k] for k in mod}
    alive = []
    pool = {}
    keep = []
    full = not ex.opts.get('fast')
    bt = Batch(hyp0, full=full, **kw)
    seen = set()
    for d, f in cands:
        g = f(eenv)
        kt = z3.simplify(f({k: mod[k][0] for k in mod}))
        keep.append(kt)
        key = kt.get_id()
        if key in seen: continue
        if bt.prove(g, 1500):
            seen.add(key)
            if str(d).startswith('alt:'):        # alternatives: tried one after another
                if d in pool:
                    pool[d].append((d, f))
                    continue
                pool[d] = []
            alive.append((d, f))
    # ---- Houdini
    for rnd in range(12 + sum(map(len, pool.values()))):
        nf, nl = len(ex.facts), len(ex.log)
        st = havoc()
        henv = {k: mod[k][0] for k in mod}
        assum = [f(henv) for d, f in alive]
        for a in assum: ex.facts.append(z3.Implies(conj(*pcE), a) if pcE else a)
        ex.loop_idx.extend(ht)
        try:
            back, exits = iteration(st, False)
        finally:
            del ex.loop_idx[len(ex.loop_idx) - len(ht):]
        hyp = list(ex.facts)
        del ex.facts[nf:]
        if back.dead: break
        benv = env_of(back)
        goals = [f(benv) for d, f in alive]
        bad = []
        bt = Batch(hyp + back.pc, full=full, **kw)
        if goals and not bt.prove(conj(*goals), 5000, stimeout=1000):
            for (d, f), g in zip(alive, goals):
                if not bt.prove(g, 20000 if str(d).startswith('alt:') else 3000, stimeout=1500):
                    bad.append((d, f))
        if not bad: break
        alive = [x for x in alive if x not in bad]
        for d, f in bad:
            if pool.get(d): alive.append(pool[d].pop(0))
    # ---- final pass
    st = havoc()
    henv = {k: mod[k][0] for k in mod}
    for d, f in alive:
        a = f(henv)
        ex.facts.append(z3.Implies(conj(*pcE), a) if pcE else a)
    ex.log.append({'line': n.line(), 'invariants': [str(d) for d, f in alive], 'modified': [str(k) for k in mod], 'candidates': len(cands)})
    ex.loop_idx.extend(ht)
    try:
        back, exits = iteration(st, True)
    finally:
        del ex.loop_idx[len(ex.loop_idx) - len(ht):]
    out = State()
    out.dead = True
    for s in exits: out = ex.merge(out, s)
    ex.st = out


def concrete_unroll(ex, n, cond, body, inc, pre):
    """range-for over a literal container: executed element by element (exact, no bound needed)"""
    if n.kind != 'CXXForRangeStmt': return False
    it = None
    for k, v in reversed(list(ex.st.store.items())):
        if isinstance(k, str) and k.startswith('idx#') and isinstance(v, V) and v.td == TITER:
            it = v.t
            break
    if it is None or it.seq.ident[0] != 'v': return False
    t = it.seq.ident[1]
    T = LT(it.seq.elem)
    xs = []
    while z3.is_app(t) and t.decl().eq(T.snoc):
        xs.append(t.arg(1))
        t = t.arg(0)
    if not t.eq(T.nil) or len(xs) > 200: return False
    xs.reverse()
    seq = it.seq
    td = seq.elem
    seq.at = lambda i: unpack(td, xs[i.as_long()]) if z3.is_int_value(i) else unpack(td, T.at(seq.ident[1], i))
    seq.length = z3.IntVal(len(xs))
    out = State()
    out.dead = True
    fr = ex.frame
    for _ in range(len(xs) + 1):
        c = cond()
        if z3.is_false(c): break
        loop = {'kind': 'loop', 'breaks': [], 'continues': []}
        fr.loops.append(loop)
        if pre: pre()
        ex.ex(body)
        fr.loops.pop()
        for s in loop['continues']: ex.st = ex.merge(ex.st, s)
        for s in loop['breaks']: out = ex.merge(out, s)
        if ex.st.dead: break
        inc() if callable(inc) else ex.ev(inc)
    ex.st = ex.merge(ex.st, out)
    return True


def search(ex, seq, lo, hi, j, P):
    """std::find & co: no element of [lo, j) satisfies P.  Expressed on every specification 'exists' fold whose
    predicate is (provably) P."""
    if ex.dry: return
    if not (z3.is_int_value(lo) and lo.as_long() == 0): return
    i = z3.Int(fresh_name('k'))
    nf = len(ex.facts)
    p = P(i)
    loc = list(ex.facts)
    del ex.facts[nf:]
    tms = fold_templates(ex.opts.get('spec_terms', []), getattr(ex, 'loop_idx', []), reveal=ex.opts.get('reveal', ()))
    if seq.ident[0] == 'v':     # plain membership is always available
        T = LT(seq.elem)
        f = contains_fold(seq.elem)
        for x in subterms(p):
            if z3.is_eq(x):
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if z3.is_app(a) and a.decl().eq(T.at) and a.arg(1).eq(i):
                        t = Template(lambda q, b=b: f(seq.ident[1], b, q), BOOL, 'exists', f.name)
                        t.fold, t.params = f, [seq.ident[1], b]
                        tms.append(t)
    done = set()
    keep = []
    for t in tms:
        if t.kind != 'exists': continue
        kt = t(z3.IntVal(0))
        keep.append(kt)
        key = kt.get_id()
        if key in done: continue
        done.add(key)
        pr = z3.simplify(t.fold.step(*t.params, i, z3.BoolVal(False)))
        if prove(loc + ex.st.pc + [i >= 0, i < hi], pr == p, 2000, reveal=ex.opts.get('reveal', ())).ok:
            ex.fact(z3.Not(t(j)))
            ex.fact(z3.Implies(j < hi, t(j + 1)))


def filter_string(ex, s, pred):
    i = z3.Int(fresh_name('k'))
    acc = z3.String(fresh_name('acc'))
    if ex.dry: return z3.String(fresh_name('filtered'))
    nf = len(ex.facts)
    p = ex.as_bool(ex.apply_fun(pred, [V(TCHAR, charat(s, i))]))
    loc = list(ex.facts)
    del ex.facts[nf:]
    tms = fold_templates(ex.opts.get('spec_terms', []), getattr(ex, 'loop_idx', []), reveal=ex.opts.get('reveal', ()))
    for t in tms:
        if t.sort != STR or t.kind == 'extra': continue
        st = t.fold.step(*t.params, i, acc)
        a0 = t.fold.init(*t.params)
        if not z3.is_string_value(a0) or a0.as_string() != '': continue
        goal = st == z3.Concat(acc, z3.If(p, S(''), charat(s, i)))
        if prove(loc + ex.st.pc + [i >= 0, i < z3.Length(s)], goal, 3000, reveal=ex.opts.get('reveal', ())).ok:
            return t(z3.Length(s))
    return z3.String(fresh_name('filtered'))


Executor.loop_hook = None


def install(ex):
    ex.loop_hook = run_loop
    ex.search = lambda seq, lo, hi, j, P: search(ex, seq, lo, hi, j, P)
    ex.filter_string = lambda s, pred: filter_string(ex, s, pred)

    def maybe_throw(c, n, what):
        c = ex.sc(c)
        if z3.is_false(c) or ex.st.dead: return
        s = ex.st.copy()
        s.pc.append(c)
        ex.throws.append(Exit('throw', s, None, what, n.line() if n is not None else None))
        ex.st.pc.append(neg(c))
        if z3.is_true(c): ex.kill()
    ex.maybe_throw = maybe_throw
