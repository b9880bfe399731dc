"""Symbolic execution of the extracted C++ bodies: one merged state, forks joined by if-then-else, loops cut by
inferred invariants (loops.py), calls to functions under contract replaced by their contract."""
import re, z3
from .terms import *
from . import cast


class LV:
    """an lvalue: root location + access path"""
    __slots__ = ('loc', 'path', 'td')

    def __init__(self, loc, path=(), td=None):
        self.loc, self.path, self.td = loc, tuple(path), td

    def sub(self, step, td=None): return LV(self.loc, self.path + (step,), td)
    def __repr__(self): return 'LV(%s,%s)' % (self.loc, self.path)


class CLV(LV):
    """c ? a : b as an lvalue"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        LV.__init__(self, ('?', fresh_name('cond')), (), a.td)
        self.c, self.a, self.b = c, a, b

    def sub(self, step, td=None): return CLV(self.c, self.a.sub(step, td), self.b.sub(step, td))


class Seq:
    """an abstract finite sequence: length term, element function, identity (for iterator comparison)"""

    def __init__(self, ident, length, at, elem, lv=None):
        self.ident, self.length, self.at, self.elem, self.lv = ident, length, at, elem, lv

    def same(self, o):
        if self is o: return True
        a, b = self.ident, o.ident
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all((x.eq(y) if z3.is_expr(x) and z3.is_expr(y) else x is y or x == y if not z3.is_expr(x) and not z3.is_expr(y) else False) for x, y in zip(a, b))
        return a is b


class LiveSeq(Seq):
    """the sequence held by a container variable that is permuted in place (std::rotate): iterators keep their index and see the current content"""

    def __init__(self, ex, lv): self.ex, self.lv = ex, lv

    def now(self): return self.ex.read(self.lv)
    @property
    def ident(self): return ('v', self.now().t)
    @property
    def elem(self): return self.now().td[1]
    @property
    def length(self): return LT(self.elem).len(self.now().t)
    def at(self, i): return unpack(self.elem, LT(self.elem).at(self.now().t, i))
    def same(self, o): return isinstance(o, LiveSeq) and o.lv.loc == self.lv.loc and len(o.lv.path) == len(self.lv.path) and all(str(a) == str(b) for a, b in zip(o.lv.path, self.lv.path))


class Iter:
    def __init__(self, seq, idx): self.seq, self.idx = seq, idx


class MapIter:
    """result of find()/insert() on a map or set: the key it points to and whether it is valid"""

    def __init__(self, lv, mapv, key, valid): self.lv, self.mapv, self.key, self.valid = lv, mapv, key, valid


class EndIter:
    def __init__(self, lv): self.lv = lv


class RemoveMark:
    def __init__(self, seq, char, pred=None): self.seq, self.char, self.pred = seq, char, pred


class Closure:
    def __init__(self, node, env, this): self.node, self.env, self.this = node, env, this


class State:
    __slots__ = ('store', 'pc', 'dead')

    def __init__(self): self.store, self.pc, self.dead = {}, [], False

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.dead = self.dead
        return s


class Frame:
    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.env = {}
        self.returns = []
        self.loops = []
        self.ret_is_ref = False
        self.ret_td = TVOID


class Exit:
    def __init__(self, kind, state, value=None, what='', line=None):
        self.kind, self.state, self.value, self.what, self.line = kind, state, value, what, line


class Obligation:
    def __init__(self, name, pc, goal, kind='post', line=None, fn=''):
        self.name, self.pc, self.goal, self.kind, self.line, self.fn = name, list(pc), goal, kind, line, fn


UNWRAP = {'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'FullExpr', 'SubstNonTypeTemplateParmExpr'}


def unwrap(n):
    while n is not None and (n.kind in UNWRAP or (n.kind == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay'))):
        n = n.inner[0]
    return n


class Executor:
    def __init__(self, prog, contracts, models, opts=None):
        self.prog, self.contracts, self.models = prog, contracts, models
        self.st = State()
        self.frames = []
        self.facts = []
        self.throws = []
        self.obls = []
        self.nloc = 0
        self.dry = 0
        self.depth = 0
        self.used_contracts = set()
        self.used_externals = set()
        self.used_std = set()
        self.inlined = set()
        self.assumed = set()
        self.loop_hook = None       # set by loops.py
        self.root = None
        self.statics = {}
        self.opts = opts or {}
        self.log = []
        self.strict_locs = {}

    # ------------------------------------------------------------ state helpers
    def newloc(self, v, base='t'):
        self.nloc += 1
        loc = '%s#%d' % (base, self.nloc)
        self.st.store[loc] = v
        return loc

    def pcond(self):
        return conj(*self.st.pc)

    def fact(self, f):
        if z3.is_true(f): return
        self.facts.append(z3.Implies(conj(*self.st.pc), f) if self.st.pc else f)

    def assume(self, c):
        c = self.sc(c)
        if z3.is_true(c): return
        self.st.pc.append(c)
        if z3.is_false(c): self.st.dead = True

    def sc(self, c):
        """cheap simplification of a condition"""
        if z3.is_true(c) or z3.is_false(c): return c
        s = z3.simplify(c)
        if z3.is_true(s) or z3.is_false(s): return s
        for p in self.st.pc:
            if p.eq(c): return z3.BoolVal(True)
            if z3.is_not(p) and p.arg(0).eq(c): return z3.BoolVal(False)
            if z3.is_not(c) and c.arg(0).eq(p): return z3.BoolVal(False)
        return c

    def fork(self, c):
        a, b = self.st, self.st.copy()
        a.pc.append(c)
        b.pc.append(neg(c))
        return a, b

    def merge(self, s1, s2):
        if s1 is None or s1.dead: return s2 if s2 is not None else s1
        if s2 is None or s2.dead: return s1
        i = 0
        while i < len(s1.pc) and i < len(s2.pc) and s1.pc[i] is s2.pc[i]: i += 1
        while i < len(s1.pc) and i < len(s2.pc) and s1.pc[i].eq(s2.pc[i]): i += 1
        r1, r2 = s1.pc[i:], s2.pc[i:]
        c1, c2 = conj(*r1), conj(*r2)
        sel = c1
        if r1 and r2 and (neg(r1[0]).eq(r2[0]) or neg(r2[0]).eq(r1[0])): sel = r1[0]
        elif not r1: sel = neg(c2)
        m = State()
        m.pc = s1.pc[:i]
        d = disj(c1, c2)
        if r1 and r2 and (neg(r1[0]).eq(r2[0]) or neg(r2[0]).eq(r1[0])):
            if len(r1) == 1 and len(r2) == 1: d = z3.BoolVal(True)
            elif len(r1) == 1: d = disj(r1[0], conj(*r2[1:]))
            elif len(r2) == 1: d = disj(r2[0], conj(*r1[1:]))
        if not z3.is_true(d): m.pc.append(d)
        for k, v in s1.store.items():
            if k in s2.store: m.store[k] = self.merge_val(sel, v, s2.store[k])
        # lazily created roots (heap arrays, statics) exist in one side only: keep them
        for a, b in ((s1, s2), (s2, s1)):
            for k, v in a.store.items():
                if k not in b.store and isinstance(k, tuple): 
                    o = self.lazy_root(k)
                    m.store[k] = self.merge_val(sel, v, o) if a is s1 else self.merge_val(sel, o, v)
        return m

    def lazy_root(self, k):
        if k[0] == 'H': return V(('heap', k[2]), z3.Const('H_' + k[1], z3.ArraySort(Ref, sort_of(k[2]))))
        raise Unsupported('lazy root ' + str(k))

    def merge_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, Poison): return a
        if isinstance(b, Poison): return b
        if isinstance(a, LV) or isinstance(b, LV):
            if isinstance(a, LV) and isinstance(b, LV) and a.loc == b.loc and len(a.path) == len(b.path):
                if all(x is y or x == y for x, y in zip(a.path, b.path) if not any(z3.is_expr(z) for z in x)) and all(x[0] == y[0] for x, y in zip(a.path, b.path)):
                    if a.path == b.path: return a
            return Poison('reference')
        k = a.td[0]
        if k in ('str', 'char') and b.td[0] in ('str', 'char'):
            return V(a.td, ite(c, a.t, b.t))
        if k != b.td[0]:
            if {k, b.td[0]} <= {'int', 'bool'}:
                return V(TINT, ite(c, self.as_int(a), self.as_int(b)))
            return Poison('kind %s/%s' % (k, b.td[0]))
        if k == 'void': return a
        if k == 'pair': return V(a.td, (self.merge_val(c, a.t[0], b.t[0]), self.merge_val(c, a.t[1], b.t[1])))
        if k == 'map': return V(a.td, (ite(c, a.t[0], b.t[0]), ite(c, a.t[1], b.t[1])))
        if k == 'rec':
            d = {}
            for f in set(a.t) | set(b.t):
                x = a.t.get(f) if f in a.t else self.rec_default(a, f)
                y = b.t.get(f) if f in b.t else self.rec_default(b, f)
                d[f] = self.merge_val(c, x, y)
            return V(a.td, d)
        if k == 'iter':
            x, y = a.t, b.t
            if isinstance(x, Iter) and isinstance(y, Iter) and x.seq.same(y.seq): return V(TITER, Iter(x.seq, ite(c, x.idx, y.idx)))
            if isinstance(x, MapIter) and isinstance(y, MapIter) and x.mapv.td == y.mapv.td and (x.lv is y.lv or (x.lv is not None and y.lv is not None and x.lv.loc == y.lv.loc and x.lv.path == y.lv.path)):
                mv = self.merge_val(c, x.mapv, y.mapv)
                if isinstance(mv, V): return V(TITER, MapIter(x.lv, mv, x.key if x.key.eq(y.key) else ite(c, x.key, y.key), ite(c, x.valid, y.valid)))
            return Poison('iterator')
        if k in ('fun', 'stream', 'ptr'):
            if a.t is b.t: return a
            return Poison(k)
        if a.t.sort() != b.t.sort(): return Poison('sort')
        return V(a.td, ite(c, a.t, b.t))

    def rec_default(self, v, f):
        if f.startswith('\0'): return v.t[f]
        td = self.field_td(v.td[1], f)
        base = v.t.get('\0name', v.td[1])
        return named(td, '%s.%s' % (base, f))

    def field_td(self, cls, f):
        if cls == 'BindVisitor': pass
        n = self.prog.fields.get(cls, {}).get(f)
        if n is None: raise Unsupported('field %s::%s' % (cls, f))
        return td_of(n.ty)

    # ------------------------------------------------------------ lvalues
    def read(self, lv):
        if isinstance(lv, V): return lv
        if isinstance(lv, CLV):
            v = self.merge_val(lv.c, self.read(lv.a), self.read(lv.b))
            if isinstance(v, Poison): raise Unsupported('value lost at a join: ' + v.why)
            return v
        v = self.st.store.get(lv.loc)
        if v is None:
            if isinstance(lv.loc, tuple): v = self.st.store[lv.loc] = self.lazy_root(lv.loc)
            else: raise Unsupported('dead location %s' % (lv.loc,))
        return self.read_path(self.prune(v) if isinstance(v, V) else v, lv.path)

    def read_path(self, v, path):
        for i, s in enumerate(path):
            if isinstance(v, LV): v = self.read(v)
            if isinstance(v, Poison): raise Unsupported('value lost at a join: ' + v.why)
            v = self.step_read(v, s)
        if isinstance(v, LV): v = self.read(v)
        if isinstance(v, Poison): raise Unsupported('value lost at a join: ' + v.why)
        return v

    def step_read(self, v, s):
        if s[0] == 'f':
            if v.td[0] != 'rec': raise Unsupported('field of ' + str(v.td))
            if s[1] in v.t: return v.t[s[1]]
            return self.rec_default(v, s[1])
        if s[0] == 'r': return unpack(v.td[1], z3.Select(v.t, s[1]))
        if s[0] == 'k':      # map value at key (existing)
            return unpack(v.td[2], z3.Select(v.t[1], s[1]))
        if s[0] == 'i':
            if v.td[0] == 'vec': return unpack(v.td[1], LT(v.td[1]).at(v.t, s[1]))
            if v.td[0] == 'str': return V(TCHAR, charat(v.t, s[1]))
        if s[0] == 'p': return v.t[s[1]]
        raise Unsupported('path %s on %s' % (s, v.td))

    def write(self, lv, val):
        if not isinstance(lv, LV): raise Unsupported('assignment to rvalue')
        if isinstance(lv, CLV):
            for x, c in ((lv.a, lv.c), (lv.b, neg(lv.c))):
                old = self.read(x)
                v = self.merge_val(c, self.coerce(val, old.td), old)
                if isinstance(v, Poison): raise Unsupported('value lost at a join: ' + v.why)
                self.write(x, v)
            return
        root = self.st.store.get(lv.loc)
        if root is None and isinstance(lv.loc, tuple): root = self.lazy_root(lv.loc)
        if isinstance(root, LV):
            self.write(LV(root.loc, root.path + lv.path), val)
            return
        self.st.store[lv.loc] = self.write_path(root, lv.path, val)

    def write_path(self, v, path, val):
        if not path:
            if isinstance(v, V) and isinstance(val, V): return self.coerce(val, v.td)
            return val
        s, rest = path[0], path[1:]
        if isinstance(v, Poison): raise Unsupported('write through lost value')
        if s[0] == 'f':
            d = dict(v.t)
            old = d[s[1]] if s[1] in d else self.rec_default(v, s[1])
            if isinstance(old, LV): 
                self.write(LV(old.loc, old.path + rest), val)
                return v
            d[s[1]] = self.write_path(old, rest, val)
            return V(v.td, d)
        if s[0] == 'r':
            old = unpack(v.td[1], z3.Select(v.t, s[1]))
            return V(v.td, z3.Store(v.t, s[1], pack(self.write_path(old, rest, val))))
        if s[0] == 'k':
            old = unpack(v.td[2], z3.Select(v.t[1], s[1]))
            return V(v.td, (v.t[0], z3.Store(v.t[1], s[1], pack(self.write_path(old, rest, val)))))
        if s[0] == 'i':
            if v.td[0] == 'vec':
                T = LT(v.td[1])
                old = unpack(v.td[1], T.at(v.t, s[1]))
                return V(v.td, T.set(v.t, s[1], pack(self.write_path(old, rest, val))))
            if v.td[0] == 'str':
                n = z3.Length(v.t)
                return V(v.td, cat(z3.SubString(v.t, 0, s[1]), val.t, z3.SubString(v.t, s[1] + 1, n - s[1] - 1)))
        if s[0] == 'p':
            l = list(v.t)
            l[s[1]] = self.write_path(l[s[1]], rest, val)
            return V(v.td, tuple(l))
        raise Unsupported('write path %s' % (s,))

    def coerce(self, v, td):
        if v.td == td: return v
        k, w = v.td[0], td[0]
        if w == 'bool': return V(TBOOL, self.as_bool(v))
        if w == 'int':
            if k == 'int': return V(td, self.int_cast(v, td))
            if k == 'bool': return V(td, self.as_int(v))
            return v
        if w == 'str' and k == 'char': return v if td == TCHAR else V(td, v.t)
        return v

    def int_cast(self, v, td):
        if v.td[0] == 'bool': return self.as_int(v)
        if td[0] != 'int' or v.td[0] != 'int': return v.t
        t = v.t
        if v.td[2] and not td[2] and v.td[1] >= 32:
            # unsigned -> signed: values above the signed range are negative (wrapped differences)
            if self.maybe_big(t): return z3.If(t >= z3.IntVal(2 ** 63), t - W64, t)
        if not v.td[2] and td[2] and not z3.is_int_value(t) and self.maybe_neg(t):
            return z3.If(t < 0, t + z3.IntVal(2 ** td[1]), t)
        if not v.td[2] and td[2] and z3.is_int_value(t) and t.as_long() < 0: return z3.IntVal(t.as_long() + 2 ** td[1])
        return t

    def maybe_big(self, t):
        for x in subterms(t):
            if z3.is_int_value(x) and abs(x.as_long()) >= 2 ** 62: return True
        return False

    def maybe_neg(self, t):
        for x in subterms(t):
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_SUB, z3.Z3_OP_UMINUS): return True
            if z3.is_int_value(x) and x.as_long() < 0: return True
        return False

    def as_bool(self, v):
        v = self.rv(v)
        if v.td[0] == 'bool': return v.t
        if v.td[0] == 'int': return neg(eq(v.t, z3.IntVal(0)))
        if v.td[0] == 'ref': return neg(eq(v.t, NULL))
        if v.td[0] == 'char': return neg(disj(eq(v.t, S('')), eq(v.t, S('\0'))))
        if v.td[0] == 'str': return z3.BoolVal(True)
        raise Unsupported('bool of ' + str(v.td))

    def as_int(self, v):
        if v.td[0] == 'int': return v.t
        if v.td[0] == 'bool': return ite(v.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('int of ' + str(v.td))

    def prune(self, v):
        """drop the branches of a joined value the current path excludes"""
        if isinstance(v, V) and z3.is_expr(v.t) and z3.is_app_of(v.t, z3.Z3_OP_ITE):
            t = v.t
            while z3.is_app_of(t, z3.Z3_OP_ITE):
                c = t.arg(0)
                nc = neg(c)
                for p in self.st.pc:
                    if p.eq(c):
                        t = t.arg(1)
                        break
                    if p.eq(nc):
                        t = t.arg(2)
                        break
                else: break
            if t is not v.t: return V(v.td, t)
        return v

    def rv(self, x):
        if isinstance(x, LV): return self.prune(self.read(x))
        if isinstance(x, Poison): raise Unsupported('value lost at a join: ' + x.why)
        return x

    def seq_of(self, x):
        """the sequence an lvalue/value denotes when iterated"""
        lv = x if isinstance(x, LV) else None
        v = self.rv(x)
        if v.td[0] == 'vec':
            T = LT(v.td[1])
            self.fact(T.len(v.t) >= 0)
            if lv is not None and self.opts.get('live') and lv.loc == 'CONTEXT': return LiveSeq(self, lv)
            return Seq(('v', v.t), T.len(v.t), lambda i: unpack(v.td[1], T.at(v.t, i)), v.td[1], lv)
        if v.td[0] == 'str':
            return Seq(('s', v.t), z3.Length(v.t), lambda i: V(TCHAR, charat(v.t, i)), TCHAR, lv)
        if v.td[0] == 'set':
            T = LT(v.td[1])
            k = T.keys(v.t)
            self.fact(T.len(k) >= 0)
            return Seq(('v', k), T.len(k), lambda i: unpack(v.td[1], T.at(k, i)), v.td[1], None)
        if v.td[0] == 'map':
            T = LT(v.td[1])
            k = T.keys(v.t[0])
            self.fact(T.len(k) >= 0)
            return Seq(('m', v.t[0], v.t[1]), T.len(k), lambda i: V(('pair', v.td[1], v.td[2]), (unpack(v.td[1], T.at(k, i)), unpack(v.td[2], z3.Select(v.t[1], T.at(k, i))))), ('pair', v.td[1], v.td[2]), lv)
        if v.td[0] == 'iter' and isinstance(v.t, Seq): return v.t
        if v.td[0] == 'range': return v.t
        if v.td[0] == 'ref' and len(v.td) > 1 and ('TemplateArgumentList' in v.td[1] or 'ArrayRef' in v.td[1]):
            n = ufapp('size', [v.t], INT)
            self.fact(n >= 0)
            return Seq(('elem', v.t), n, lambda i: vref(ufapp('elem', [v.t, i], Ref)), TREF)
        raise Unsupported('iterate over ' + str(v.td))

    # ------------------------------------------------------------ statements
    @property
    def frame(self): return self.frames[-1]

    def ex(self, n):
        if n is None or self.st.dead: return
        m = getattr(self, 'ex_' + n.kind, None)
        if m is None:
            self.ev(n)
            return
        m(n)

    def ex_CompoundStmt(self, n):
        for x in n.inner:
            if self.st.dead: return
            self.ex(x)

    def ex_NullStmt(self, n): pass

    def ex_AttributedStmt(self, n):
        for x in n.inner:
            if x is not None and x.kind.endswith('Stmt'): self.ex(x)

    def ex_DeclStmt(self, n):
        for d in n.inner:
            if d is None: continue
            if d.kind == 'VarDecl': self.declare(d)
            elif d.kind in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'EnumDecl', 'FunctionDecl'): pass
            else: raise Unsupported('declaration ' + d.kind)

    def declare(self, d):
        qt, ty = d.qt, d.ty
        isref = ty.rstrip().endswith('&') or qt.rstrip().endswith('&')
        init = d.inner[0] if d.inner and d.inner[0] is not None and not d.inner[0].kind.endswith('Attr') else None
        static = d.get('storageClass') == 'static'
        if static:
            self.declare_static(d, init)
            return
        if isref:
            x = self.ev(init)
            if isinstance(x, LV): self.frame.env[d.id] = x
            else: self.frame.env[d.id] = LV(self.newloc(x, d.name))
            return
        td = td_of(ty)
        v = self.models.construct_stream(self, d, init)
        if v is None:
            if init is None: v = self.uninit(td, d)
            else:
                v = self.rv(self.ev(init, td))
                if v.td[0] in ('int', 'bool', 'str', 'char', 'vec', 'set', 'map', 'pair'): v = self.coerce(v, td)
        self.frame.env[d.id] = LV(self.newloc(v, d.name or 'v'))

    def uninit(self, td, d=None):
        if td[0] in ('int', 'bool', 'ref', 'char'): return fresh(td, 'uninit')
        if td[0] == 'rec': return V(td, {'\0name': fresh_name('obj')}) if td[1] != 'IncludeSet' else V(td, {'includes_': default_value(('vec', TSTR)), 'stack_': default_value(('map', TREF, TINT))})
        return default_value(td)

    def declare_static(self, d, init):
        """function-local static.  const: evaluated here.  mutable map used as a memo table: see Contract.memo."""
        const = d.qt.startswith('const ') or ' const' in d.qt.split('<')[0] or d.qt.rstrip().endswith('const')
        if not const and init is not None and self.frame.fn is not None and self.never_written(self.frame.fn.node, d.id): const = True
        td = td_of(d.ty)
        if const and init is not None:
            v = self.rv(self.ev(init, td))
            if not self.call_independent(v): v = fresh(td, 'static_' + d.name)     # whatever the first call saw
            self.frame.env[d.id] = LV(self.newloc(v, 'static_' + d.name))
            return
        if td[0] == 'ref':
            self.frame.env[d.id] = LV(self.newloc(fresh(td, 'static_' + d.name), 'static_' + d.name))
            return
        # mutable static: unknown contents from earlier calls
        memo = self.opts.get('memo')
        if d.id not in self.statics:
            self.statics[d.id] = (d.name, td, named(td, 'static_' + (self.frame.fn.name or '') + '_' + d.name) if td[0] != 'vec' else fresh(td, 'static_' + d.name))
            v = self.statics[d.id][2]
            self.st.store['static:' + d.id] = v
            if memo is None and not self.opts.get('static_ok'):
                init_static = self.opts.get('static_lazy')
                if init_static is None: raise Unsupported('mutable static ' + str(d.name))
        self.frame.env[d.id] = LV('static:' + d.id)

    def call_independent(self, v):
        """an initialiser evaluated once, on the first call, is the same on every call only if it reads nothing but
        literals, command line options and the configuration (fixed once read)"""
        def ok(t): return all(not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED) or x.decl().name().startswith(('Config.', 'O_', 'nil_', 'null')) for x in subterms(t))
        if isinstance(v, V):
            if isinstance(v.t, tuple): return all(self.call_independent(x) if isinstance(x, V) else ok(x) if z3.is_expr(x) else True for x in v.t)
            if z3.is_expr(v.t): return ok(v.t)
        return True

    def never_written(self, fn, vid):
        """every mention of the variable is a read: a const member call or a range-for"""
        total = ok = 0
        for x in fn.walk():
            if x.kind == 'DeclRefExpr' and x.get('referencedDecl', {}).get('id') == vid: total += 1
            elif x.kind == 'CXXMemberCallExpr':
                m = unwrap(x.inner[0])
                if m is not None and m.kind == 'MemberExpr' and m.name in ('count', 'find', 'end', 'begin', 'size', 'at', 'empty', 'contains', 'cbegin', 'cend'):
                    b = unwrap(m.inner[0])
                    if b is not None and b.kind == 'DeclRefExpr' and b.get('referencedDecl', {}).get('id') == vid: ok += 1
            elif x.kind == 'ImplicitCastExpr' and x.get('castKind') == 'LValueToRValue':
                b = unwrap(x.inner[0])
                if b is not None and b.kind == 'DeclRefExpr' and b.get('referencedDecl', {}).get('id') == vid: ok += 1
            elif x.kind == 'VarDecl' and (x.name or '').startswith('__range') and x.inner and x.inner[0] is not None:
                b = unwrap(x.inner[0])
                if b is not None and b.kind == 'DeclRefExpr' and b.get('referencedDecl', {}).get('id') == vid: ok += 1
        return total == ok

    def ex_ReturnStmt(self, n):
        fr = self.frame
        if n.inner and n.inner[0] is not None:
            x = self.ev(n.inner[0], fr.ret_td)
            if self.st.dead: return
            if fr.ret_is_ref and isinstance(x, LV): v = x
            else:
                v = self.rv(x)
                if fr.ret_td[0] in ('int', 'bool', 'str'): v = self.coerce(v, fr.ret_td)
        else: v = VVOID
        if self.st.dead: return
        self.st.store['ret'] = v
        fr.returns.append(Exit('return', self.st, v, line=n.line()))
        self.kill()

    def kill(self):
        s = State()
        s.dead = True
        self.st = s

    def ex_BreakStmt(self, n):
        self.frame.loops[-1]['breaks'].append(self.st)
        self.kill()

    def ex_ContinueStmt(self, n):
        for l in reversed(self.frame.loops):
            if l['kind'] == 'loop':
                l['continues'].append(self.st)
                break
        self.kill()

    def cond(self, n):
        """evaluate a condition expression to a z3 Bool"""
        return self.sc(self.as_bool(self.ev(n)))

    def ex_IfStmt(self, n):
        ch = list(n.inner)
        if n.get('hasInit'): self.ex(ch.pop(0))
        if n.get('hasVar'): self.ex(ch.pop(0))
        c = self.cond(ch[0])
        if self.st.dead: return
        self.branch(c, lambda: self.ex(ch[1]), (lambda: self.ex(ch[2])) if len(ch) > 2 else None)

    def branch(self, c, f, g):
        if z3.is_true(c): return f()
        if z3.is_false(c): return g() if g else None
        a, b = self.fork(c)
        self.st = a
        f()
        a = self.st
        self.st = b
        if g: g()
        b = self.st
        self.st = self.merge(a, b)

    def ex_SwitchStmt(self, n):
        ch = [x for x in n.inner if x is not None]
        c = self.rv(self.ev(ch[0]))
        body = ch[-1]
        # flatten: list of (labels, stmts)
        items = []

        def add(s):
            if s.kind in ('CaseStmt', 'DefaultStmt'):
                if s.kind == 'CaseStmt': items.append(('case', s.inner[0]))
                else: items.append(('default', None))
                add(s.inner[-1])
            else: items.append(('stmt', s))
        for s in body.inner: add(s)
        loop = {'kind': 'switch', 'breaks': [], 'continues': []}
        self.frame.loops.append(loop)
        vals = {}
        for i, (k, s) in enumerate(items):
            if k == 'case': vals[i] = eq(self.as_int(c), self.as_int(self.rv(self.ev(s))))
        anyc = disj(*vals.values())
        start = self.st
        cur = State()
        cur.dead = True
        for i, (k, s) in enumerate(items):
            if k in ('case', 'default'):
                e = start.copy()
                self.st = e
                self.assume(vals[i] if k == 'case' else neg(anyc))
                cur = self.merge(cur, self.st) if not cur.dead else self.st
            else:
                self.st = cur
                self.ex(s)
                cur = self.st
        self.frame.loops.pop()
        if not any(k == 'default' for k, _ in items):
            self.st = start.copy()
            self.assume(neg(anyc))
            cur = self.merge(cur, self.st)
        for b in loop['breaks']: cur = self.merge(cur, b)
        self.st = cur

    def ex_WhileStmt(self, n):
        ch = [x for x in n.inner if x is not None]
        self.loop(n, lambda: self.cond(ch[0]) if len(ch) == 2 else (self.ex(ch[0]), self.cond(ch[1]))[1], ch[-1], None)

    def ex_DoStmt(self, n):
        # body once, then while
        body, c = n.inner[0], n.inner[1]
        loop = {'kind': 'loop', 'breaks': [], 'continues': []}
        self.frame.loops.append(loop)
        self.ex(body)
        self.frame.loops.pop()
        for s in loop['continues']: self.st = self.merge(self.st, s)
        brk = loop['breaks']
        if not self.st.dead: self.loop(n, lambda: self.cond(c), body, None)
        for s in brk: self.st = self.merge(self.st, s)

    def ex_ForStmt(self, n):
        init, cv, c, inc, body = n.inner
        if init is not None: self.ex(init)
        if cv is not None: raise Unsupported('for condition variable')
        self.loop(n, (lambda: self.cond(c)) if c is not None else (lambda: z3.BoolVal(True)), body, inc)

    def ex_CXXForRangeStmt(self, n):
        ch = n.inner
        if ch[0] is not None: self.ex(ch[0])
        rng = ch[1].inner[0].inner[0]
        x = self.ev(rng)
        seq = self.seq_of(x)
        var = ch[-2].inner[0]
        isref = var.qt.rstrip().endswith('&') or var.ty.rstrip().endswith('&')
        const = 'const' in var.qt
        idx = LV(self.newloc(V(TITER, Iter(seq, z3.IntVal(0))), 'idx'))

        def c():
            it = self.read(idx).t
            return self.sc(it.idx < seq.length)

        def pre():
            it = self.read(idx).t
            if isref and not const and isinstance(x, LV) and seq.lv is not None and self.rv(x).td[0] == 'vec' and seq.elem[0] not in ('ref', 'str'):
                self.frame.env[var.id] = LV(x.loc, x.path + (('i', it.idx),))
            elif isref and not const and isinstance(x, LV) and self.rv(x).td[0] == 'vec' and self.writes_var(ch[-1], var.id):
                raise Unsupported('range-for mutating elements')
            else:
                self.frame.env[var.id] = LV(self.newloc(seq.at(it.idx), var.name))

        def inc():
            it = self.read(idx).t
            self.write(idx, V(TITER, Iter(seq, z3.simplify(it.idx + 1))))
        self.loop(n, c, ch[-1], inc, pre)

    def writes_var(self, n, vid):
        for x in n.walk():
            if x.kind in ('BinaryOperator', 'CompoundAssignOperator') and (x.get('opcode') or '').endswith('=') and x.get('opcode') not in ('==', '!=', '<=', '>='):
                y = unwrap(x.inner[0])
                if y.kind == 'DeclRefExpr' and y.get('referencedDecl', {}).get('id') == vid: return True
            if x.kind == 'CXXOperatorCallExpr' and len(x.inner) > 1:
                c = unwrap(x.inner[0])
                nm = c.get('referencedDecl', {}).get('name', '') if c.kind == 'DeclRefExpr' else ''
                y = unwrap(x.inner[1])
                if nm in ('operator=', 'operator+=') and y.kind == 'DeclRefExpr' and y.get('referencedDecl', {}).get('id') == vid: return True
        return False

    def loop(self, n, cond, body, inc, pre=None):
        self.loop_hook(self, n, cond, body, inc, pre)

    def ex_CXXTryStmt(self, n):
        body = n.inner[0]
        mark = len(self.throws)
        self.ex(body)
        if len(self.throws) > mark: raise Unsupported('try/catch')

    # ------------------------------------------------------------ expressions
    def ev(self, n, hint=None):
        k = n.kind
        if k in UNWRAP: return self.ev(n.inner[0], hint)
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise Unsupported('expression %s at line %s' % (k, n.line()))
        if k in ('InitListExpr', 'CXXStdInitializerListExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr'): return m(n, hint)
        return m(n)

    def rval(self, n, hint=None): return self.rv(self.ev(n, hint))

    def ev_IntegerLiteral(self, n): return vint(int(n.get('value')), td_of(n.ty) if td_of(n.ty)[0] == 'int' else TINT)
    def ev_FloatingLiteral(self, n): return V(TINT, z3.Int('float_' + str(n.get('value'))))
    def ev_CharacterLiteral(self, n): return V(TCHAR, S(chr(int(n.get('value')))))
    def ev_CXXBoolLiteralExpr(self, n): return vbool(bool(n.get('value')))
    def ev_CXXNullPtrLiteralExpr(self, n): return vref(NULL)
    def ev_GNUNullExpr(self, n): return vref(NULL)
    def ev_ImplicitValueInitExpr(self, n): return default_value(td_of(n.ty))
    def ev_CXXScalarValueInitExpr(self, n): return default_value(td_of(n.ty))

    def ev_StringLiteral(self, n):
        return vstr(decode_literal(n.get('value')))

    def ev_CXXThisExpr(self, n):
        t = self.frame.this
        return t

    def ev_PredefinedExpr(self, n): return fresh(TSTR, 'func')
    def ev_SourceLocExpr(self, n): return fresh(td_of(n.ty) if td_of(n.ty)[0] in ('int', 'uint') else TSTR, 'srcloc')

    def ev_LambdaExpr(self, n):
        return V(TFUN, Closure(n, dict(self.frame.env), self.frame.this))

    def ev_CXXDefaultArgExpr(self, n): raise Unsupported('default argument')

    def ev_CXXThrowExpr(self, n):
        if n.inner: 
            try: self.ev(n.inner[0])
            except Unsupported: pass
        if self.st.dead: return VVOID
        self.throws.append(Exit('throw', self.st, None, 'throw', n.line()))
        self.kill()
        return VVOID

    def do_exit(self, n, what):
        self.throws.append(Exit('exit', self.st, None, what, n.line()))
        self.kill()
        return VVOID

    def ev_CXXNewExpr(self, n):
        v = fresh(TREF, 'new')
        self.fact(v.t != NULL)
        return v

    def ev_CXXDeleteExpr(self, n): return VVOID

    def ev_UnaryExprOrTypeTraitExpr(self, n): return fresh(TSIZE, 'sizeof')

    def cast(self, n):
        x = self.ev(n.inner[0]) if n.kind != 'CXXFunctionalCastExpr' else self.ev(n.inner[0])
        ck = n.get('castKind')
        if ck == 'LValueToRValue': return self.rv(x)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BitCast', 'ToVoid', 'Dynamic'):
            if ck == 'UserDefinedConversion' or ck == 'ConstructorConversion':
                td = td_of(n.ty)
                if not isinstance(x, LV) and td[0] in ('bool',): return self.coerce(x, td)
            return x
        if ck == 'IntegralCast':
            v = self.rv(x)
            td = td_of(n.ty)
            if v.td[0] in ('char',): return v
            if td[0] == 'char': return v
            return V(td if td[0] == 'int' else v.td, self.int_cast(v, td if td[0] == 'int' else v.td))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'): return vbool(self.as_bool(x))
        if ck == 'NullToPointer': return vref(NULL)
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'): return self.rv(x)
        if ck == 'IntegralToPointer': return x
        raise Unsupported('cast ' + str(ck))

    def ev_ImplicitCastExpr(self, n): return self.cast(n)
    def ev_CXXStaticCastExpr(self, n): return self.cast(n)
    def ev_CStyleCastExpr(self, n): return self.cast(n)
    def ev_CXXConstCastExpr(self, n): return self.cast(n)
    def ev_CXXReinterpretCastExpr(self, n): return self.cast(n)
    def ev_CXXDynamicCastExpr(self, n):
        v = self.rval(n.inner[0])
        t = re.sub(r'[\s\*&]|const|class|struct', '', n.ty).split('::')[-1]
        p = ufapp('isa_' + t, [v.t], BOOL)
        self.fact(z3.Implies(p, v.t != NULL))
        return vref(z3.If(p, v.t, NULL))

    def ev_CXXFunctionalCastExpr(self, n, hint=None):
        return self.cast(n)

    def ev_DeclRefExpr(self, n):
        r = n.get('referencedDecl')
        i = r.get('id')
        for fr in (self.frame,):
            if i in fr.env: return fr.env[i]
        if r['kind'] == 'EnumConstantDecl':
            key = re.sub(r'.*::', '', r.get('type', {}).get('qualType', ''))
            val = self.prog.enums.get((key, r['name']))
            return V(TINT, enum_val(r['name'], val))
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return V(TFUN, ('fn', n))
        if r['kind'] in ('VarDecl', 'ParmVarDecl'):
            if r['name'] == 'npos': return V(TSIZE, NPOS)
            return self.global_var(n, r)
        raise Unsupported('reference to ' + r['kind'] + ' ' + str(r.get('name')))

    def global_var(self, n, r):
        g = self.prog.globals.get((n.tu.name, r['id']))
        ty = r.get('type', {}).get('qualType', '')
        m = re.match(r'(?:llvm::)?(?:cl::)?opt<(.*)>', ty.replace('const ', ''))
        if m or r['name'].startswith('O_'):
            td = td_of(m.group(1) if m else ty)
            return named(td, r['name'])
        g = g or self.prog.gvars.get(r['name'])
        if g is not None and g.inner and g.inner[0] is not None:
            if not ty.endswith('const') and not (ty.startswith('const ') and '*' not in ty and '&' not in ty) and r['name'] in self.prog.aliased_globals():
                raise Unsupported('global variable %s may be modified' % r['name'])
            v = self.rval(g.inner[0], td_of(g.ty))
            return v
        raise Unsupported('global variable ' + str(r['name']))

    def ev_MemberExpr(self, n):
        base = n.inner[0]
        b = self.ev(base)
        name = n.name
        if name == 'npos': return V(TSIZE, NPOS)
        return self.member(b, name, n)

    def member(self, b, name, n):
        # iterator->first etc arrive here with b already dereferenced
        bv = b
        v = self.rv(b)
        if v.td[0] == 'pair' and name in ('first', 'second'):
            k = 0 if name == 'first' else 1
            if isinstance(b, LV): return b.sub(('p', k))
            x = v.t[k]
            return x
        if v.td[0] == 'ptr':   # pointer to lvalue
            return self.member(v.t, name, n)
        if v.td[0] == 'rec':
            if isinstance(b, LV):
                x = v.t.get(name)
                if isinstance(x, LV): return x
                return b.sub(('f', name))
            x = v.t.get(name)
            return x if x is not None else self.rec_default(v, name)
        if v.td[0] == 'ref':
            td = td_of(n.ty)
            if td[0] == 'rec': raise Unsupported('record field of heap object')
            if self.is_heap_class(n):
                return LV(('H', name, canon_td(td)), (('r', v.t),))
            return V(td, ufapp('.' + name, [v.t], sort_of(td)))
        raise Unsupported('member %s of %s' % (name, v.td))

    def is_heap_class(self, n):
        ty = n.inner[0].ty
        return 'binder::' in ty or n.inner[0].kind == 'CXXThisExpr'

    def ev_ArraySubscriptExpr(self, n):
        a, i = self.ev(n.inner[0]), self.rval(n.inner[1])
        v = self.rv(a)
        if v.td[0] == 'str': return V(TCHAR, charat(v.t, i.t))
        raise Unsupported('array subscript on ' + str(v.td))

    def ev_ConditionalOperator(self, n):
        c = self.cond(n.inner[0])
        if z3.is_true(c): return self.ev(n.inner[1])
        if z3.is_false(c): return self.ev(n.inner[2])
        if n.get('valueCategory') == 'lvalue' and all(unwrap(x).kind in ('DeclRefExpr', 'MemberExpr') for x in n.inner[1:]):
            a, b = self.ev(n.inner[1]), self.ev(n.inner[2])
            if isinstance(a, LV) and isinstance(b, LV):
                if a.loc == b.loc and a.path == b.path: return a
                return CLV(c, a, b)
        out = {}
        loc = self.newloc(VVOID, 'cond')

        def br(e):
            v = self.rval(e)
            if not self.st.dead: self.st.store[loc] = v
        self.branch(c, lambda: br(n.inner[1]), lambda: br(n.inner[2]))
        if self.st.dead: return VVOID
        v = self.st.store[loc]
        if isinstance(v, V) and v.td == TCHAR and td_of(n.ty) == TSTR: v = V(TSTR, v.t)
        return v

    def ev_UnaryOperator(self, n):
        op = n.get('opcode')
        x = self.ev(n.inner[0])
        if op == '!': return vbool(neg(self.as_bool(x)))
        if op in ('++', '--'):
            v = self.rv(x)
            d = 1 if op == '++' else -1
            if v.td[0] == 'str':   # char const * walking
                if d != 1: raise Unsupported('pointer --')
                nv = V(v.td, z3.SubString(v.t, 1, z3.Length(v.t) - 1))
            elif v.td[0] == 'int':
                t = z3.simplify(v.t + d)
                if d < 0 and v.td[2]: t = self.wrap(t, v.td)
                elif d > 0 and v.td[2] and any(z3.is_int_value(y) and y.as_long() in (2 ** v.td[1], 2 ** v.td[1] - 1) for y in subterms(t)):
                    t = z3.simplify(z3.If(t >= 2 ** v.td[1], t - 2 ** v.td[1], t))       # back from below zero
                nv = V(v.td, t)
            elif v.td[0] == 'iter' and isinstance(v.t, Iter): nv = V(TITER, Iter(v.t.seq, z3.simplify(v.t.idx + d)))
            else: raise Unsupported(op + ' on ' + str(v.td))
            self.write(x, nv)
            return v if n.get('isPostfix') else x
        if op == '-':
            v = self.rv(x)
            return V(v.td, z3.simplify(-v.t))
        if op in ('+', '__extension__'): return x
        if op == '*':
            v = self.rv(x)
            if v.td[0] == 'str': return V(TCHAR, charat(v.t, 0))
            if v.td[0] == 'ptr': return v.t
            if v.td[0] == 'iter' and isinstance(v.t, Iter): return v.t.seq.at(v.t.idx)
            if isinstance(x, LV) and v.td[0] == 'rec': return x
            return v
        if op == '&':
            v = self.rv(x)
            if v.td[0] == 'ref': return v
            return V(('ptr',), x)
        if op == '~': 
            v = self.rv(x)
            return V(v.td, ufapp('bitnot', [self.as_int(v)], INT))
        raise Unsupported('unary ' + op)

    def wrap(self, t, td):
        if td[0] == 'int' and td[2]:
            if z3.is_int_value(t): return z3.IntVal(t.as_long() % (2 ** td[1]))
            if self.never(t < 0): return t
            return z3.If(t < 0, t + z3.IntVal(2 ** td[1]), t)
        return t

    def ev_BinaryOperator(self, n):
        op = n.get('opcode')
        L, R = n.inner[0], n.inner[1]
        if op == ',':
            self.ev(L)
            return self.ev(R)
        if op in ('&&', '||'):
            a = self.cond(L)
            if self.st.dead: return vbool(False)
            if op == '&&' and z3.is_false(a): return vbool(False)
            if op == '||' and z3.is_true(a): return vbool(True)
            if z3.is_true(a) or z3.is_false(a): return vbool(self.cond(R))
            s1, s2 = self.fork(a if op == '&&' else neg(a))
            self.st = s1
            b = self.cond(R)
            s1 = self.st
            if s1.dead:
                self.st = s2
                return vbool(op == '||')
            self.st = self.merge(s1, s2)
            return vbool(conj(a, b) if op == '&&' else disj(a, b))
        if op == '=':
            rhs = self.rval(R)
            lhs = self.ev(L)
            self.write(lhs, rhs)
            return lhs
        a, b = self.rval(L), self.rval(R)
        return self.binop(op, a, b, td_of(n.ty))

    def binop(self, op, a, b, td=None):
        if op in ('==', '!='):
            e = self.equals(a, b)
            return vbool(e if op == '==' else neg(e))
        if op in ('<', '>', '<=', '>='):
            if a.td[0] == 'iter' and b.td[0] == 'iter':
                x, y = a.t.idx, b.t.idx
            elif a.td[0] in ('str', 'char'):
                if op == '<': return vbool(a.t < b.t)
                if op == '<=': return vbool(a.t <= b.t)
                if op == '>': return vbool(b.t < a.t)
                return vbool(b.t <= a.t)
            else: x, y = self.as_int(a), self.as_int(b)
            r = {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
            return vbool(z3.simplify(r) if z3.is_int_value(x) and z3.is_int_value(y) else r)
        if op in ('&', '|', '^'):
            if a.td[0] == 'bool' and b.td[0] == 'bool':
                r = {'&': conj, '|': disj, '^': z3.Xor}[op](a.t, b.t)
                return vbool(r)
            x, y = self.as_int(a), self.as_int(b)
            return V(TINT, bitop(op, x, y))
        if op in ('<<', '>>'):
            return V(td or TINT, ufapp('shift' + op, [self.as_int(a), self.as_int(b)], INT))
        if a.td[0] in ('str',) and b.td[0] == 'int' and op == '+':     # char const* + n
            return V(TSTR, z3.SubString(a.t, b.t, z3.Length(a.t) - b.t))
        if a.td[0] == 'iter':
            return self.iter_arith(op, a, b)
        x, y = self.as_int(a), self.as_int(b)
        td = td if td and td[0] == 'int' else (a.td if a.td[0] == 'int' else TINT)
        if op == '+':
            t = z3.simplify(x + y)
            if td[2] and self.maybe_big(t) and not z3.is_int_value(t) and not self.never(t >= W64): t = z3.If(t >= W64, t - W64, t)
            return V(td, t)
        if op == '-': return V(td, self.wrap(z3.simplify(x - y), td))
        if op == '*': return V(td, x * y)
        if op == '/': return V(td, x / y)
        if op == '%': return V(td, x % y)
        raise Unsupported('binary ' + op)

    def iter_arith(self, op, a, b):
        it = a.t
        if b.td[0] == 'iter':
            if op == '-': return V(('int', 64, False), z3.simplify(it.idx - b.t.idx))
            raise Unsupported('iterator ' + op)
        d = self.as_int(b)
        return V(TITER, Iter(it.seq, z3.simplify(it.idx + d if op == '+' else it.idx - d)))

    def equals(self, a, b):
        if a.td[0] == 'iter' or b.td[0] == 'iter': return self.iter_eq(a.t, b.t)
        if a.td[0] == 'pair': return conj(self.equals(a.t[0], b.t[0]), self.equals(a.t[1], b.t[1]))
        if a.td[0] == 'bool' and b.td[0] == 'int' or a.td[0] == 'int' and b.td[0] == 'bool':
            return eq(self.as_int(a), self.as_int(b))
        if a.td[0] == 'map': return conj(eq(a.t[0], b.t[0]), eq(a.t[1], b.t[1]))
        if a.td[0] == 'str' and b.td[0] == 'ref' and b.t.eq(NULL): return z3.BoolVal(False)
        if a.td[0] == 'char' and b.td[0] == 'int' and z3.is_int_value(b.t):
            return eq(a.t, S(chr(b.t.as_long()))) if b.t.as_long() else disj(eq(a.t, S('')), eq(a.t, S('\0')))
        x, y = pack(a), pack(b)
        if x.sort() != y.sort(): raise Unsupported('compare %s with %s' % (a.td, b.td))
        if z3.is_int(x):
            for p, q in ((x, y), (y, x)):       # a search result against npos: positions are below 2^62
                if q.eq(NPOS) and z3.is_app_of(p, z3.Z3_OP_ITE) and p.arg(1).eq(NPOS) and p.arg(2).decl().kind() in (z3.Z3_OP_SEQ_INDEX, z3.Z3_OP_SEQ_LAST_INDEX): return p.arg(0)
        return eq(x, y)

    def never(self, c):
        """does the current path exclude c?  (quick, sound, incomplete)"""
        from .abstract import try_abstract
        bound = [z3.Length(x.arg(0)) < z3.IntVal(2 ** 62) for x in subterms(c) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_LENGTH]
        return try_abstract(self.st.pc[-12:] + self.facts[-40:] + bound, neg(c), 300)

    def iter_eq(self, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if not a.seq.same(b.seq): raise Unsupported('comparing iterators of different ranges')
            return eq(a.idx, b.idx)
        if isinstance(a, MapIter) and isinstance(b, EndIter): return neg(a.valid)
        if isinstance(b, MapIter) and isinstance(a, EndIter): return neg(b.valid)
        if isinstance(a, EndIter) and isinstance(b, EndIter): return z3.BoolVal(True)
        raise Unsupported('iterator comparison')

    def ev_CompoundAssignOperator(self, n):
        op = n.get('opcode')[:-1]
        rhs = self.rval(n.inner[1])
        lhs = self.ev(n.inner[0])
        a = self.rv(lhs)
        if a.td[0] == 'bool':
            b = vbool(self.as_bool(rhs))
            r = self.binop(op, a, b)
            r = vbool(self.as_bool(r))
        else:
            r = self.binop(op, a, rhs, a.td)
        self.write(lhs, r)
        return lhs

    def ev_InitListExpr(self, n, hint=None):
        td = hint or td_of(n.ty)
        if td[0] == 'rec':
            fs = list(self.prog.fields.get(td[1], {}))
            d = {}
            for f, x in zip(fs, n.inner):
                ftd = self.field_td(td[1], f)
                isref = self.prog.fields[td[1]][f].qt.rstrip().endswith('&')
                y = self.ev(x, ftd)
                d[f] = y if isref and isinstance(y, LV) else self.rv(y)
            return V(td, d)
        xs = [x for x in n.inner if x is not None]
        if td[0] in ('vec', 'set', 'map'): return self.init_container(td, xs)
        if td[0] == 'pair' and len(xs) == 2: return V(td, (self.coerce(self.rval(xs[0], td[1]), td[1]), self.coerce(self.rval(xs[1], td[2]), td[2])))
        if len(xs) == 1: return self.ev(xs[0], hint)
        if len(xs) == 0: return default_value(td)
        m = re.match(r'(.*)\[\d+\]$', n.ty)
        if m: return self.init_container(('vec', td_of(m.group(1))), xs)
        raise Unsupported('init list for ' + str(td))

    def init_container(self, td, xs):
        if td[0] == 'vec':
            T = LT(td[1])
            t = T.nil
            for x in xs: t = T.snoc(t, pack(self.coerce(self.rval(x, td[1]), td[1])))
            return V(td, t)
        if td[0] == 'set':
            t = z3.K(sort_of(td[1]), z3.BoolVal(False))
            for x in xs: t = z3.Store(t, pack(self.rval(x, td[1])), z3.BoolVal(True))
            return V(td, t)
        if td[0] == 'map':
            v = default_value(td)
            d, vl = v.t
            for x in xs:
                p = self.rval(x, ('pair', td[1], td[2]))
                d = z3.Store(d, pack(p.t[0]), z3.BoolVal(True))
                vl = z3.Store(vl, pack(p.t[0]), pack(p.t[1]))
            return V(td, (d, vl))
        raise Unsupported('init container')

    def ev_CXXStdInitializerListExpr(self, n, hint=None):
        x = unwrap(n.inner[0])
        if hint is not None and hint[0] in ('vec', 'set', 'map') and x.kind == 'InitListExpr':
            return self.init_container(hint, [y for y in x.inner if y is not None])
        return self.ev(x, hint)

    def ev_CXXTemporaryObjectExpr(self, n, hint=None): return self.ev_CXXConstructExpr(n, hint)

    def ev_CXXConstructExpr(self, n, hint=None):
        td = td_of(n.ty)
        args = [x for x in n.inner if x is not None and x.kind != 'CXXDefaultArgExpr']
        return self.models.construct(self, n, td, args, hint)

    def ev_UserDefinedLiteral(self, n):
        # "..."_format : n.inner = [callee, StringLiteral, IntegerLiteral]
        for x in n.walk():
            if x.kind == 'StringLiteral': return V(('fmt',), decode_literal(x.get('value')))
        m = re.search(r'udl_formatter<char, (.*)>$', n.ty) or re.search(r'udl_formatter<char, (.*)>$', n.qt)
        if m:       # the characters are template arguments
            cs = re.findall(r"'(\\x[0-9a-fA-F]+|\\.|[^'])'", m.group(1))
            return V(('fmt',), ''.join(decode_literal('"%s"' % c) if c != '"' else '"' for c in cs))
        raise Unsupported('user defined literal')

    # ------------------------------------------------------------ calls
    def ev_CallExpr(self, n):
        c = unwrap(n.inner[0])
        args = n.inner[1:]
        if c.kind == 'DeclRefExpr':
            r = c.get('referencedDecl')
            if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                m, f = self.prog.resolve(n.tu, r['id'])
                if m is not None: return self.call_known(n, m, f, None, args)
                return self.models.call_free(self, n, c, r, args)
            v = self.rval(c)
            if v.td[0] == 'fun': return self.call_fun(v, args, n)
        v = self.rval(c)
        if v.td[0] == 'fun': return self.call_fun(v, args, n)
        raise Unsupported('call through ' + c.kind)

    def call_fun(self, v, argnodes, n):
        vals = [self.ev(a) for a in argnodes]
        return self.apply_fun(v, vals, n)

    def apply_fun(self, v, vals, n=None):
        if v.td[0] != 'fun': raise Unsupported('call of non function')
        if isinstance(v.t, Closure): return self.call_closure(v.t, vals)
        if isinstance(v.t, tuple) and v.t[0] == 'fn':
            c = v.t[1]
            r = c.get('referencedDecl')
            m, f = self.prog.resolve(c.tu, r['id'])
            if m is not None: return self.call_with(n, m, f, None, vals)
            nm = r['name']
            if nm in ('isalpha', 'isdigit', 'isalnum', 'isspace'): return self.models.ctype(self, nm, self.rv(vals[0]))
        if callable(v.t): return v.t(self, vals)
        raise Unsupported('function value')

    def call_closure(self, cl, vals):
        rec = next(x for x in cl.node.inner if x is not None and x.kind == 'CXXRecordDecl')
        op = next(x for x in rec.inner if x is not None and x.kind == 'CXXMethodDecl' and x.name == 'operator()')
        params = [x for x in op.inner if x is not None and x.kind == 'ParmVarDecl']
        body = next((x for x in op.inner if x is not None and x.kind == 'CompoundStmt'), None)
        if body is None: body = cl.node.inner[-1]
        fr = Frame(self.frame.fn, cl.this)
        fr.env = dict(cl.env)
        rt = op.qt.split('->')[-1].strip() if '->' in op.qt else op.qt.split('(')[0].strip()
        if rt.startswith('auto'): rt = op.qt.split('->')[-1].strip()
        return self.run_body(fr, params, vals, body, rt)

    def bind_params(self, fr, params, vals):
        for p, x in zip(params, vals):
            isref = p.qt.rstrip().endswith('&') or p.ty.rstrip().endswith('&')
            if isref and isinstance(x, LV): fr.env[p.id] = x
            else:
                v = self.rv(x)
                td = td_of(p.ty)
                if td[0] in ('int', 'bool', 'str'): v = self.coerce(v, td)
                fr.env[p.id] = LV(self.newloc(v, p.name or 'p'))

    def run_body(self, fr, params, vals, body, rettype):
        if self.depth > 40: raise Unsupported('inlining depth')
        self.bind_params(fr, params, vals)
        fr.ret_is_ref = rettype.rstrip().endswith('&')
        fr.ret_td = td_of(rettype)
        saved_ret = self.st.store.get('ret')
        self.frames.append(fr)
        self.depth += 1
        try:
            self.ex(body)
        finally:
            self.depth -= 1
            self.frames.pop()
        st = self.st
        if not st.dead: st.store['ret'] = VVOID
        for e in fr.returns: st = self.merge(st, e.state)
        self.st = st
        if st.dead: return VVOID
        r = st.store.pop('ret', VVOID)
        if saved_ret is not None: st.store['ret'] = saved_ret
        return r

    def args_with_defaults(self, m, argnodes, n):
        vals = []
        for i, a in enumerate(argnodes):
            if a is None or a.kind == 'CXXDefaultArgExpr':
                d = self.prog.defaults.get(m, {}).get(i)
                if d is None: raise Unsupported('default argument of ' + str(m))
                vals.append(self.ev(d))
            else: vals.append(self.ev(a))
        return vals

    def call_known(self, n, m, f, this, argnodes):
        f = f or self.prog.functions.get(m)
        q = cast.demangle(m)
        hint = self.contracts.arg_hint(q)
        vals = self.args_with_defaults(m, argnodes, n)
        if self.st.dead: return VVOID
        return self.call_with(n, m, f, this, vals)

    def call_with(self, n, m, f, this, vals):
        q = f.qname if f else cast.demangle(m)
        if this is None and f is not None and f.cls and f.node.get('storageClass') != 'static' and f.node.kind == 'CXXMethodDecl': pass
        con = self.contracts.lookup(q)
        if con is not None and not (self.opts.get('inline') and con.name in self.opts['inline']):
            if con.model: return con.model(self, n, this, vals)
            self.used_contracts.add(con.name)
            return con.apply(self, n, this, vals)
        if f is None or f.body is None: raise Unsupported('call to ' + q + ' (no body, no contract)')
        if any(fr.fn is f for fr in self.frames): raise Unsupported('recursion in ' + q)
        self.inlined.add(q)
        fr = Frame(f, this)
        ret = f.node.qt.split('(')[0].strip()
        return self.run_body(fr, f.params, vals, f.body, ret)

    def ev_CXXMemberCallExpr(self, n):
        me = unwrap(n.inner[0])
        args = n.inner[1:]
        if me.kind != 'MemberExpr': raise Unsupported('member call through ' + me.kind)
        mid = me.get('referencedMemberDecl')
        m, f = self.prog.resolve(n.tu, mid)
        base = me.inner[0]
        if m is not None:
            b = self.ev(base)
            if self.st.dead: return VVOID
            bv = b if not (isinstance(b, V) and b.td[0] == 'ptr') else b.t
            return self.call_known(n, m, f, bv, args)
        b = self.ev(base)
        if self.st.dead: return VVOID
        return self.models.call_member(self, n, me, b, me.name, args)

    def ev_CXXOperatorCallExpr(self, n):
        c = unwrap(n.inner[0])
        r = c.get('referencedDecl') or {}
        name = r.get('name', '')
        args = n.inner[1:]
        m, f = self.prog.resolve(n.tu, r.get('id'))
        if m is not None:
            if r.get('kind') == 'CXXMethodDecl':
                b = self.ev(args[0])
                return self.call_known(n, m, f, b, args[1:])
            return self.call_known(n, m, f, None, args)
        return self.models.call_operator(self, n, name, args)


def bitop(op, x, y):
    if z3.is_int_value(x) and z3.is_int_value(y):
        a, b = x.as_long(), y.as_long()
        return z3.IntVal({'&': a & b, '|': a | b, '^': a ^ b}[op])
    return ufapp('bit' + op, [x, y], INT)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        yield x
        if z3.is_app(x): st.extend(x.children())


def decode_literal(s):
    """clang prints string literals as C source text"""
    if s.startswith('R"') or s.startswith('u8R"'):
        i = s.index('(')
        d = s[s.index('"') + 1:i]
        return s[i + 1:s.rindex(')' + d + '"')]
    i = s.index('"')
    s = s[i + 1:s.rindex('"')]
    out = []
    k = 0
    esc = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'", '0': '\0', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '?': '?'}
    while k < len(s):
        c = s[k]
        if c == '\\':
            k += 1
            c = s[k]
            if c == 'x':
                h = ''
                while k + 1 < len(s) and s[k + 1] in '0123456789abcdefABCDEF':
                    k += 1
                    h += s[k]
                out.append(chr(int(h, 16)))
            elif c in '01234567':
                h = c
                while k + 1 < len(s) and s[k + 1] in '01234567' and len(h) < 3:
                    k += 1
                    h += s[k]
                out.append(chr(int(h, 8)))
            else: out.append(esc[c])
        else: out.append(c)
        k += 1
    return ''.join(out)
