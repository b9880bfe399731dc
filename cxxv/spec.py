"""Function contracts: requires / raises / result / final state, for one function of /repo, written over
mathematical specification terms.  Used twice: assumed at call sites (apply), proved against the body (verify.py)."""
import z3, re
from .terms import *
from .execu import LV, Obligation, Exit
from . import cast


def CFG(field, td):
    """the value of a Config field once the configuration has been read"""
    return pack(named(td, 'Config.' + field))


class K:
    """what a contract may talk about: arguments and state at entry; and what it promises"""

    def __init__(self, ex, this, vals, fn=None):
        self.ex, self.this_, self.vals, self.fn = ex, this, vals, fn
        self.req, self.raise_, self.res, self.finals, self.cfgs, self.ctxs, self.heaps, self.stores = [], None, None, {}, {}, {}, {}, {}
        self.opts = {'templates': [], 'invariants': [], 'reveal': [], 'axioms': []}
        self.extra = []
        self.recs = {}
        self.ens = []
        self.loose = set()
        self.hints = []
        self.assumed = []

    # ---- entry state
    def v(self, i):
        x = self.vals[i]
        return self.ex.rv(x)

    def __getitem__(self, i): return pack(self.v(i))

    def n(self): return len(self.vals)

    @property
    def this(self):
        return pack(self.ex.rv(self.this_))

    def field(self, name, td=None):
        """field of *this"""
        if self.local: return pack(self.ex.read(LV(self.this_.loc, self.this_.path + (('f', name),))) if isinstance(self.this_, LV) else self.this_.t[name])
        return pack(self.ex.read(LV(('H', name, td), (('r', self.this),))))

    @property
    def local(self):
        """*this is a local variable, not a heap object"""
        return self.ex.rv(self.this_).td[0] == 'rec'

    def set_field(self, name, td, t):
        if self.local: self.recs[name] = (td, t)
        else: self.set_heap(name, td, z3.Store(self.heap(name, td), self.this, t))

    def heap(self, name, td): return self.ex.read(LV(('H', name, td))).t

    def rec(self, i, field): return self.ex.read(LV(self.vals[i].loc, self.vals[i].path + (('f', field),)) if isinstance(self.vals[i], LV) else self.vals[i]) if isinstance(self.vals[i], LV) else self.ex.rec_default(self.vals[i], field) if field not in self.vals[i].t else self.vals[i].t[field]

    def own(self, field):
        """field of *this where this is the Config or Context singleton"""
        return pack(self.ex.read(LV(self.this_.loc, self.this_.path + (('f', field),))))

    def cfg(self, field): return pack(self.ex.read(LV('CONFIG', (('f', field),))))
    def ctx(self, field): return pack(self.ex.read(LV('CONTEXT', (('f', field),))))
    def opt(self, name, td): return pack(named(td, name))

    # ---- promises
    def requires(self, c): self.req.append(c)
    def assume(self, c, why): self.assumed.append((c, why))      # stated assumption about the environment, reported in the evidence
    def raises(self, c): self.raise_ = c if self.raise_ is None else disj(self.raise_, c)
    def result(self, t): self.res = t
    def ensures(self, name, f): self.ens.append((name, f))   # f(result V, final state reader) -> Bool
    def final(self, i, t): self.finals[i] = t
    def set_cfg(self, field, t): self.cfgs[field] = t
    def set_ctx(self, field, t): self.ctxs[field] = t
    def set_heap(self, field, td, t): self.heaps[(field, td)] = t
    def havoc_heap(self, field, td):
        """the field may change; what is known about it afterwards is in `ensures`"""
        if self.fn is not None: self.loose.add(field)
        else: self.heaps[(field, td)] = z3.Const(fresh_name('after_' + field), z3.ArraySort(Ref, sort_of(td)))

    def havoc_ctx(self, field):
        if self.fn is not None: self.loose.add('CONTEXT.' + field)
        else: self.ctxs[field] = z3.Const(fresh_name('after_' + field), self.ctx(field).sort())

    def set_store(self, key, v): self.stores[key] = v
    def template(self, f): self.opts['templates'].append(f)
    def invariant(self, f): self.opts['invariants'].append(f)
    def reveal(self, *fs): self.opts['reveal'].extend(getattr(f, 'name', f) for f in fs)
    def guard(self, c): self.opts.setdefault('guards', []).append(c)
    def axiom(self, f): self.opts['axioms'].append(f)
    def hint(self, *ts): self.hints.extend(ts)

    def terms(self):
        out = list(self.req) + ([self.raise_] if self.raise_ is not None else [])
        flat(self.res, out)
        for d in (self.finals, self.cfgs, self.ctxs, self.heaps):
            out.extend(t for t in d.values() if z3.is_expr(t))
        for v in self.stores.values(): 
            for x in (v.t if isinstance(v.t, tuple) else (v.t,)):
                if z3.is_expr(x): out.append(x)
        return out + self.hints


def ret_type(f_or_qt):
    qt = f_or_qt if isinstance(f_or_qt, str) else f_or_qt.node.qt
    depth = 0
    for i, c in enumerate(qt):
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif c == '(' and depth == 0: return qt[:i].strip()
    return qt


def flat(v, out):
    if z3.is_expr(v): out.append(v)
    elif isinstance(v, V): flat(v.t, out)
    elif isinstance(v, tuple):
        for x in v: flat(x, out)


class Contract:
    def __init__(self, qname, spec, sig=(), name=None, model=None, memo=None, trusted=None, props=(), ret=None, raises_unspecified=False, live=False, once=False):
        self.once = once         # large: only the fast pass
        self.live = live         # iterators into containers permuted in place
        self.qname, self.spec, self.sig, self.model, self.memo, self.trusted = qname, spec, tuple([sig] if isinstance(sig, str) else sig), model, memo, trusted
        self.name = name or (qname.replace('binder::', '') + ('(' + ','.join(self.sig) + ')' if self.sig else ''))
        self.props = tuple(props)
        self.ret = ret
        self.raises_unspecified = raises_unspecified

    def matches(self, q):
        s = cast.strip_params(q)
        if s != self.qname: return False
        ps = q[q.find('(', len(s) - 2):] if '(' in q else ''
        return all(((x[1:] not in ps) if x.startswith('!') else x in ps) for x in self.sig)

    def apply(self, ex, n, this, vals):
        k = K(ex, this, vals)
        self.spec(k)
        for i, r in enumerate(k.req):
            ex.obls.append(Obligation('precondition %d of %s at its call' % (i + 1, self.name), list(ex.st.pc), r, 'pre', n.line() if n is not None else None))
        if k.raise_ is not None and not z3.is_false(k.raise_):
            ex.maybe_throw(k.raise_, n, 'raised by ' + self.name)
            if ex.st.dead: return VVOID
        for i, t in k.finals.items():
            x = vals[i]
            if not isinstance(x, LV): continue
            ex.write(x, unpack(ex.rv(x).td, t))
        for f, t in k.cfgs.items():
            lv = LV('CONFIG', (('f', f),))
            ex.write(lv, unpack(ex.read(lv).td, t))
        for f, t in k.ctxs.items():
            lv = LV('CONTEXT', (('f', f),))
            ex.write(lv, unpack(ex.read(lv).td, t))
        for (f, td), t in k.heaps.items():
            ex.st.store[('H', f, td)] = V(('heap', td), t)
        for f, (td, t) in k.recs.items():
            if isinstance(this, LV): ex.write(LV(this.loc, this.path + (('f', f),)), unpack(td, t))
        for key, v in k.stores.items(): ex.st.store[key] = v
        if k.res is None:
            r = VVOID if self.ret is None or self.ret == TVOID else fresh(self.ret, 'res_' + self.qname.split('::')[-1])
        else:
            r = k.res if isinstance(k.res, V) else unpack(self.ret_td(ex), k.res)
        for nm, f in k.ens:
            ex.fact(f(r, ex))
        return r

    def ret_td(self, ex):
        if self.ret is None:
            for f in ex.prog.functions.values():
                if self.matches(f.qname):
                    self.ret = td_of(ret_type(f))
                    break
            else: raise Unsupported('result type of ' + self.qname)
        return self.ret


class Registry:
    def __init__(self):
        self.contracts = []
        self._cache = {}

    def add(self, c):
        self.contracts.append(c)
        return c

    def lookup(self, q):
        if q not in self._cache:
            r = [c for c in self.contracts if c.matches(q)]
            self._cache[q] = r[0] if r else None
        return self._cache[q]

    def arg_hint(self, q): return None


REG = Registry()


def contract(qname, sig=(), **kw):
    def deco(f):
        return REG.add(Contract('binder::' + qname if not qname.startswith(('llvm::', '::')) else qname.lstrip(':'), f, sig, **kw))
    return deco
