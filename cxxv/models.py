"""Trusted contracts of the C++ standard library, fmt, LLVM casting and the clang AST API.

clang/LLVM AST accessors are pure uninterpreted functions of their receiver and arguments (the AST is immutable
while binder runs); AST iteration APIs are finite sequences (length, element).  Output to llvm::outs()/errs() is dropped."""
import re, z3
from .terms import *
from .execu import LV, Seq, Iter, MapIter, EndIter, RemoveMark, Closure, unwrap, State, bitop, subterms, decode_literal

ITOS = SpecFun('itos', [INT], STR)
FFNO = z3.Function('find_first_not_of', STR, STR, INT)
FLNO = z3.Function('find_last_not_of', STR, STR, INT)
FFO = z3.Function('find_first_of', STR, STR, INT)
FLO = z3.Function('find_last_of', STR, STR, INT)
RFIND = z3.Function('rfind_from', STR, STR, INT, INT)
CMP = z3.Function('compare3', STR, STR, INT)
PAD = z3.Function('pad_zero', STR, INT, STR)
FILE_LINES = z3.Function('file_lines', STR, LT(TSTR).sort)
READABLE = z3.Function('file_readable', STR, BOOL)
OPENFAIL = z3.Function('open_for_write_fails', STR, BOOL)
SYSTEM = z3.Function('system_rc', STR, INT)

# AST iteration API: name -> (canonical sequence, role)
RANGES = {}


def _r(canon, rng=(), begin=(), end=(), count=(), nth=()):
    for x in rng: RANGES[x] = (canon, 'range')
    for x in begin: RANGES[x] = (canon, 'begin')
    for x in end: RANGES[x] = (canon, 'end')
    for x in count: RANGES[x] = (canon, 'count')
    for x in nth: RANGES[x] = (canon, 'nth')


_r('methods', ['methods'], ['method_begin'], ['method_end'])
_r('ctors', ['ctors'], ['ctor_begin'], ['ctor_end'])
_r('bases', ['bases'], ['bases_begin'], ['bases_end'], ['getNumBases'])
_r('vbases', ['vbases'], ['vbases_begin'], ['vbases_end'], ['getNumVBases'])
_r('decls', ['decls'], ['decls_begin'], ['decls_end'])
_r('fields', ['fields'], ['field_begin'], ['field_end'])
_r('enumerators', ['enumerators'], ['enumerator_begin'], ['enumerator_end'])
_r('params', ['parameters', 'params'], ['param_begin'], ['param_end'], ['getNumParams', 'param_size'], ['getParamDecl'])
_r('specs', ['specializations'], ['spec_begin'], ['spec_end'])
_r('shadows', ['shadows'], ['shadow_begin'], ['shadow_end'])
_r('friends', ['friends'], ['friend_begin'], ['friend_end'])
_r('overridden', ['overridden_methods'], ['begin_overridden_methods'], ['end_overridden_methods'], ['size_overridden_methods'])
_r('children', ['children'], ['child_begin'], ['child_end'])


IDENTITY_METHODS = {'getTypePtr', 'get', 'getTypePtrOrNull', 'operator->', 'operator*', 'asArray'}


class Models:
    extra_free = {}
    extra_member = {}

    # ------------------------------------------------------------------ construction
    def construct_stream(self, ex, d, init):
        ty = d.ty
        if 'ifstream' in ty:
            name = self.ctor_arg(ex, init)
            return V(('rec', '\0ifs'), {'name': name, 'pos': vint(0)})
        if 'ofstream' in ty:
            name = self.ctor_arg(ex, init)
            fs = ex.st.store.get('fs') or named(('map', TSTR, TSTR), 'FS')
            w = ex.st.store.get('fsw') or named(('set', TSTR), 'FSW')
            nm = name.t
            ok = neg(OPENFAIL(nm))
            dom, val = fs.t
            ex.st.store['fs'] = V(fs.td, (ite(ok, z3.Store(dom, nm, z3.BoolVal(True)), dom), ite(ok, z3.Store(val, nm, S('')), val)))
            ex.st.store['fsw'] = V(w.td, ite(ok, z3.Store(w.t, nm, z3.BoolVal(True)), w.t))
            return V(('rec', '\0ofs'), {'name': name})
        if 'raw_string_ostream' in ty:
            x = unwrap(init)
            lv = ex.ev(x.inner[0])
            if not isinstance(lv, LV): raise Unsupported('raw_string_ostream target')
            return lv
        if any(s in ty for s in ('LangOptions', 'PrintingPolicy', 'SourceLocation', 'FullSourceLoc')) and init is not None and not ty.rstrip().endswith('*'):
            x = unwrap(init)
            args = [a for a in x.inner if a is not None and a.kind != 'CXXDefaultArgExpr'] if x.kind in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') else [x]
            vs = [ex.rv(ex.ev(a)) for a in args]
            if len(vs) == 1 and 'Policy' not in ty: return vs[0]
            return vref(ufapp('make_' + ty.split('::')[-1], [v.t for v in vs if v.td[0] != 'rec'], Ref))
        return None

    def ctor_arg(self, ex, init):
        x = unwrap(init)
        if x is None or not x.inner: raise Unsupported('stream without a file name')
        return ex.rv(ex.ev(x.inner[0]))

    def construct_object(self, ex, n, td, args):
        """a local object of one of binder's own classes: its constructor's initialisers, on top of the in-class ones"""
        vals = [ex.ev(a) for a in args]
        if len(vals) == 1 and ex.rv(vals[0]).td == td: return ex.rv(vals[0])
        want = (n.get('ctorType') or {}).get('qualType')
        fs = [f for f in ex.prog.functions.values() if f.node.kind == 'CXXConstructorDecl' and f.cls == td[1] and len(f.params) == len(vals) and (want is None or f.node.qt == want)]
        if len(fs) != 1: raise Unsupported('constructor of ' + td[1])
        f = fs[0]
        d = {}
        for cls in ('Binder', td[1]):
            for name, fd in ex.prog.fields.get(cls, {}).items():
                init = [x for x in fd.inner if x is not None]
                ftd = td_of(fd.ty)
                d[name] = ex.coerce(ex.rv(ex.ev(init[0], ftd)), ftd) if init else ex.uninit(ftd)
        if any(s for s in f.body.inner if s is not None): raise Unsupported('constructor body of ' + td[1])
        from .execu import Frame
        fr = Frame(f, None)
        ex.bind_params(fr, f.params, vals)
        ex.frames.append(fr)
        try:
            for i in f.node.inner:
                if i is None or i.kind != 'CXXCtorInitializer' or not i.get('anyInit'): continue
                name = i.get('anyInit')['name']
                ftd = td_of(ex.prog.fields[td[1]][name].ty)
                d[name] = ex.coerce(ex.rv(ex.ev(i.inner[0], ftd)), ftd)
        finally: ex.frames.pop()
        return V(td, d)

    def construct(self, ex, n, td, args, hint=None):
        k = td[0]
        ty = n.ty
        if len(args) == 1 and 'iterator' in ty and 'istreambuf' not in ty:      # copy of, or const view of, an iterator
            v = ex.rv(ex.ev(args[0]))
            if v.td[0] == 'iter': return v
        if hint is not None and k in ('ref',) and hint[0] in ('vec', 'set', 'map', 'pair'): td, k = hint, hint[0]
        if k == 'str':
            if not args: return default_value(TSTR)
            if len(args) >= 2:
                a, b = ex.rv(ex.ev(args[0])), ex.rv(ex.ev(args[1]))
                if a.td[0] == 'iter' and isinstance(a.t, tuple) and a.t[0] == 'isbuf':
                    fs = ex.st.store.get('fs') or named(('map', TSTR, TSTR), 'FS')
                    nm = a.t[1]
                    return vstr(z3.If(z3.Select(fs.t[0], nm), z3.Select(fs.t[1], nm), S('')))
                if a.td[0] == 'iter' and b.td[0] == 'iter':
                    return vstr(self.subrange(a.t, b.t))
                if a.td[0] == 'int' and b.td[0] == 'char':
                    if z3.is_int_value(a.t): return vstr(cat(*([b.t] * a.t.as_long())))
                if a.td[0] == 'str' and b.td[0] == 'int':
                    if len(args) == 2: return vstr(z3.SubString(a.t, 0, b.t))
                    return vstr(z3.SubString(a.t, b.t, ex.rv(ex.ev(args[2])).t))
                raise Unsupported('string constructor')
            v = ex.rv(ex.ev(args[0], TSTR))
            if v.td[0] in ('str', 'char'): return vstr(v.t)
            if v.td[0] == 'ref': return vstr(ufapp('str_of', [v.t], STR))
            raise Unsupported('string from ' + str(v.td))
        if k in ('vec', 'set', 'map'):
            if not args: return default_value(td)
            if len(args) == 1:
                v = ex.rv(ex.ev(args[0], td))
                if v.td[0] == k: return v
                if v.td[0] == 'int' and k == 'vec' and z3.is_int_value(v.t) and v.t.as_long() == 0: return default_value(td)
                raise Unsupported('container constructor from ' + str(v.td))
            a = ex.rv(ex.ev(args[0], td))
            if a.td[0] == k and len(args) == 1: return a
            if a.td[0] == k and a.td[0] != 'iter': return a      # initializer list + allocator defaults
            b = ex.rv(ex.ev(args[1]))
            if a.td[0] == 'iter' and b.td[0] == 'iter':
                return self.from_range(ex, td, a.t, b.t)
            raise Unsupported('container constructor')
        if k == 'pair':
            if len(args) == 1:
                v = ex.rv(ex.ev(args[0], td))
                return V(td, (ex.coerce(v.t[0], td[1]), ex.coerce(v.t[1], td[2]))) if v.td[0] == 'pair' else v
            if not args: return default_value(td)
            return V(td, (ex.coerce(ex.rv(ex.ev(args[0], td[1])), td[1]), ex.coerce(ex.rv(ex.ev(args[1], td[2])), td[2])))
        if k == 'rec':
            if td[1] in LOCAL_RECORDS: return self.construct_object(ex, n, td, args)
            if not args: return ex.uninit(td)
            v = ex.ev(args[0], td)
            return v
        if 'istreambuf_iterator' in ty:
            if not args: return V(TITER, ('isbuf_end',))
            v = ex.rv(ex.ev(args[0]))
            if v.td == ('rec', '\0ifs'): return V(TITER, ('isbuf', v.t['name'].t))
            return v
        if k in ('int', 'bool', 'char'):
            if not args: return default_value(td)
            return ex.coerce(ex.rv(ex.ev(args[0])), td)
        if 'runtime_error' in ty or 'exception' in ty:
            return vref(fresh(TREF, 'exc').t)
        if len(args) == 1:
            v = ex.ev(args[0])
            return v if isinstance(v, V) else ex.rv(v)
        if not args:
            if k == 'ref':
                nm = td[1].split('::')[-1]
                return vref(z3.Const('default_' + nm, Ref)) if 'ptr' not in ty else vref(NULL)
            return default_value(td)
        vs = [ex.rv(ex.ev(a)) for a in args]
        if all(v.td[0] in ('ref', 'int', 'bool', 'str') for v in vs) and k == 'ref':
            return vref(ufapp('make_' + td[1].split('::')[-1], [v.t for v in vs], Ref))
        raise Unsupported('construct %s' % n.ty)

    def subrange(self, a, b):
        if a.seq.elem == TCHAR and a.seq.same(b.seq):
            return z3.SubString(a.seq.ident[1], a.idx, b.idx - a.idx)
        raise Unsupported('range of characters')

    def from_range(self, ex, td, a, b):
        if not (isinstance(a, Iter) and isinstance(b, Iter) and a.seq.same(b.seq)): raise Unsupported('container from range')
        full = z3.is_int_value(a.idx) and a.idx.as_long() == 0 and b.idx.eq(b.seq.length)
        if not full: raise Unsupported('container from partial range')
        id_ = a.seq.ident
        if id_[0] == 'v':
            T = LT(a.seq.elem)
            if td[0] == 'vec': return V(td, id_[1])
            if td[0] == 'set':
                if z3.is_app(id_[1]) and id_[1].decl().eq(T.keys): return V(td, id_[1].arg(0))
                return V(td, T.toset(id_[1]))
        raise Unsupported('container from range')

    # ------------------------------------------------------------------ operators
    def call_operator(self, ex, n, name, args):
        op = name.replace('operator', '')
        if op == '()':
            f = ex.rv(ex.ev(args[0]))
            if f.td[0] == 'fmt': return self.fmt(ex, f.t, [ex.rv(ex.ev(a)) for a in args[1:]])
            return ex.apply_fun(f, [ex.ev(a) for a in args[1:]], n)
        if op == '<<':
            return self.shift(ex, n, args)
        a = ex.ev(args[0])
        if ex.st.dead: return VVOID
        av = ex.rv(a)
        if op in ('*', '->') and len(args) == 1: return self.deref(ex, a, av)
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            if av.td[0] == 'iter' and isinstance(av.t, Iter):
                ex.write(a, V(TITER, Iter(av.t.seq, z3.simplify(av.t.idx + d))))
                return av if len(args) > 1 else a
            if av.td[0] == 'ref': raise Unsupported('++ on opaque iterator')
            raise Unsupported('++')
        if op == '=':
            td = av.td
            r = ex.ev(args[1], td)
            rv = ex.rv(r)
            if td[0] in ('str',) and rv.td[0] in ('char', 'str'): rv = V(td, rv.t)
            ex.write(a, rv)
            return a
        if op == '!': return vbool(neg(ex.as_bool(av)))
        if op == '[]': return self.subscript(ex, a, av, ex.rv(ex.ev(args[1])))
        if op == '+=':
            b = ex.rv(ex.ev(args[1]))
            if av.td[0] == 'str':
                ex.write(a, V(av.td, cat(av.t, b.t)))
                return a
            if av.td[0] == 'iter':
                ex.write(a, ex.iter_arith('+', av, b))
                return a
            raise Unsupported('+=')
        b = ex.rv(ex.ev(args[1])) if len(args) > 1 else None
        if op == '+' and av.td[0] in ('str', 'char') and b.td[0] in ('str', 'char'): return vstr(cat(av.t, b.t))
        if op in ('==', '!=', '<', '>', '<=', '>='): return ex.binop(op, av, b)
        if op in ('+', '-') and av.td[0] == 'iter': return ex.iter_arith(op, av, b)
        if op in ('&', '|'): return V(TINT, bitop(op, ex.as_int(av), ex.as_int(b)))
        if op == '>>': raise Unsupported('>>')
        raise Unsupported('operator ' + op + ' on ' + str(av.td))

    def shift(self, ex, n, args):
        a = ex.ev(args[0])
        if ex.st.dead: return VVOID
        b = ex.ev(args[1])
        if ex.st.dead: return VVOID
        av = ex.rv(a)
        if av.td[0] == 'stream': return av
        bv = ex.rv(b)
        if bv.td[0] == 'fun':
            if 'endl' in str(bv.t[1].get('referencedDecl', {}).get('name', '')) if isinstance(bv.t, tuple) else False: bv = vstr('\n')
            else: raise Unsupported('stream manipulator')
        txt = bv.t if bv.td[0] in ('str', 'char') else itos(bv.t) if bv.td[0] == 'int' else None
        if txt is None: raise Unsupported('<< of ' + str(bv.td))
        if av.td[0] == 'str' and isinstance(a, LV):
            ex.write(a, V(av.td, cat(av.t, txt)))
            return a
        if av.td == ('rec', '\0ofs'):
            nm = av.t['name'].t
            fs = ex.st.store['fs']
            dom, val = fs.t
            new = z3.Store(val, nm, cat(simp_select(val, nm), txt))
            c = ex.sc(OPENFAIL(nm))
            ex.st.store['fs'] = V(fs.td, (dom, new if z3.is_false(c) else ite(c, val, new)))
            return a
        raise Unsupported('<< on ' + str(av.td))

    def deref(self, ex, a, v):
        if v.td[0] == 'iter':
            it = v.t
            if isinstance(it, Iter):
                if it.seq.lv is not None and it.seq.elem[0] not in ('ref', 'str', 'char', 'pair'):
                    return LV(it.seq.lv.loc, it.seq.lv.path + (('i', it.idx),))
                return it.seq.at(it.idx)
            if isinstance(it, MapIter):
                if it.mapv.td[0] == 'set': return V(it.mapv.td[1], it.key)
                d = V(('rec', '\0ent'), {'first': unpack(it.mapv.td[1], it.key), 'second': LV(it.lv.loc, it.lv.path + (('k', it.key),)) if it.lv is not None else unpack(it.mapv.td[2], z3.Select(it.mapv.t[1], it.key))})
                return d
            raise Unsupported('dereference')
        if v.td[0] == 'ptr': return v.t
        if v.td[0] == 'ref': return v
        if isinstance(a, LV): return a
        return v

    def subscript(self, ex, a, v, i):
        if v.td[0] == 'str':
            if isinstance(a, LV): return a.sub(('i', ex.as_int(i)))
            return V(TCHAR, charat(v.t, ex.as_int(i)))
        if v.td[0] == 'vec':
            if isinstance(a, LV): return a.sub(('i', ex.as_int(i)))
            return unpack(v.td[1], LT(v.td[1]).at(v.t, ex.as_int(i)))
        if v.td[0] == 'map':
            key = pack(i)
            if isinstance(a, LV):
                dom, val = v.t
                if not z3.is_true(z3.simplify(z3.Select(dom, key))):
                    df = pack(default_value(v.td[2]))
                    nd = z3.Store(dom, key, z3.BoolVal(True))
                    nv = z3.Store(val, key, z3.If(z3.Select(dom, key), z3.Select(val, key), df))
                    ex.write(a, V(v.td, (nd, nv)))
                return a.sub(('k', key))
            return unpack(v.td[2], z3.Select(v.t[1], key))
        if v.td[0] in ('ref',): return V(TREF, ufapp('elem', [v.t, ex.as_int(i)], Ref))
        if v.td[0] == 'range': return v.t.at(ex.as_int(i))
        raise Unsupported('[] on ' + str(v.td))

    # ------------------------------------------------------------------ fmt
    def fmt(self, ex, f, vals):
        out = []
        i, k = 0, 0
        buf = ''
        while i < len(f):
            c = f[i]
            if c == '{':
                if f[i + 1:i + 2] == '{':
                    buf += '{'
                    i += 2
                    continue
                j = f.index('}', i)
                spec = f[i + 1:j]
                if spec == '':
                    idx = k
                    k += 1
                elif spec.isdigit(): idx = int(spec)
                else: raise Unsupported('fmt spec {%s}' % spec)
                if idx >= len(vals): raise Unsupported('fmt argument index')
                out.append(buf)
                buf = ''
                out.append(self.text(vals[idx]))
                i = j + 1
                continue
            if c == '}' and f[i + 1:i + 2] == '}':
                buf += '}'
                i += 2
                continue
            buf += c
            i += 1
        out.append(buf)
        return vstr(cat(*out))

    def text(self, v):
        if v.td[0] in ('str', 'char'): return v.t
        if v.td[0] == 'int': return itos(v.t)
        raise Unsupported('format of ' + str(v.td))

    # ------------------------------------------------------------------ free functions
    def ctype(self, ex, name, v):
        f = {'isalpha': isalpha, 'isdigit': isdigit, 'isalnum': isalnum, 'isspace': isspace}[name]
        return V(TBOOL, f(v.t))

    def call_free(self, ex, n, c, r, args):
        name = r['name']
        args = [a for a in args if a is not None and a.kind != 'CXXDefaultArgExpr']
        if name in self.extra_free: return self.extra_free[name](self, ex, n, args)
        ex.used_std.add(name)
        if name in ('outs', 'errs', 'nulls', 'dbgs'): return V(('stream',), None)
        if name in ('isalpha', 'isdigit', 'isalnum', 'isspace'): return self.ctype(ex, name, ex.rv(ex.ev(args[0])))
        if name in ('move', 'forward', 'ref', 'cref', 'as_const', 'addressof'):
            if len(args) == 1: return ex.ev(args[0])
        if name in ('dyn_cast', 'cast', 'dyn_cast_or_null', 'cast_or_null', 'isa', 'isa_and_nonnull', 'dyn_cast_if_present'): return self.llvm_cast(ex, n, c, name, args)
        if name == '__assert_fail': return VVOID   # asserted facts are never assumed (as in an NDEBUG build)
        if name == 'exit' or name == '_Exit' or name == 'abort':
            for a in args: ex.ev(a)
            return ex.do_exit(n, 'exit')
        if name == 'to_string':
            v = ex.rv(ex.ev(args[0]))
            return vstr(itos(ex.as_int(v)))
        if name in ('min', 'max'):
            a, b = ex.rv(ex.ev(args[0])), ex.rv(ex.ev(args[1]))
            x, y = ex.as_int(a), ex.as_int(b)
            return V(a.td, z3.If(y < x, y, x) if name == 'min' else z3.If(x < y, y, x))
        if name == 'make_pair':
            a, b = ex.rv(ex.ev(args[0])), ex.rv(ex.ev(args[1]))
            return V(('pair', a.td, b.td), (a, b))
        if name == 'make_tuple':
            vs = [ex.rv(ex.ev(a)) for a in args]
            r = vs[-1]
            for v in reversed(vs[:-1]): r = V(('pair', v.td, r.td), (v, r))
            return r
        if name == 'get' and len(args) == 1:
            m = re.search(r'get\s*<\s*(\d+)\s*>', c.src() or '')
            v = ex.rv(ex.ev(args[0]))
            if m and v.td[0] == 'pair':
                i = int(m.group(1))
                while i > 0 and v.td[0] == 'pair': v, i = v.t[1], i - 1
                return v.t[0] if v.td[0] == 'pair' else v
        if name in ('begin', 'end', 'cbegin', 'cend') and len(args) == 1:
            x = ex.ev(args[0])
            s = ex.seq_of(x)
            return V(TITER, Iter(s, z3.IntVal(0) if 'begin' in name else s.length))
        if name in ('next', 'prev'):
            v = ex.rv(ex.ev(args[0]))
            d = ex.rv(ex.ev(args[1])) if len(args) > 1 else vint(1)
            return ex.iter_arith('+' if name == 'next' else '-', v, d)
        if name == 'distance':
            a, b = ex.rv(ex.ev(args[0])), ex.rv(ex.ev(args[1]))
            return V(('int', 64, False), z3.simplify(b.t.idx - a.t.idx))
        if name in ('find', 'find_if', 'find_if_not', 'count', 'count_if', 'any_of', 'all_of', 'none_of', 'for_each', 'copy_if'): return self.algo(ex, n, name, args)
        if name in ('remove', 'remove_if'):
            a, b = ex.rv(ex.ev(args[0])), ex.rv(ex.ev(args[1]))
            if not (isinstance(a.t, Iter) and a.t.seq.elem == TCHAR and z3.is_int_value(a.t.idx) and b.t.idx.eq(b.t.seq.length)): raise Unsupported('std::remove')
            x = ex.rv(ex.ev(args[2]))
            return V(TITER, RemoveMark(a.t.seq, x if name == 'remove' else None, x if name == 'remove_if' else None))
        if name == 'rotate':
            return self.rotate(ex, args)
        if name == 'getline':
            f, line = ex.ev(args[0]), ex.ev(args[1])
            fv = ex.rv(f)
            if fv.td != ('rec', '\0ifs'): raise Unsupported('getline')
            T = LT(TSTR)
            L = FILE_LINES(fv.t['name'].t)
            pos = fv.t['pos'].t
            ex.fact(T.len(L) >= 0)
            c_ = pos < T.len(L)
            ex.write(line, vstr(z3.If(c_, T.at(L, pos), S(''))))
            ex.write(f.sub(('f', 'pos')), vint(z3.If(c_, pos + 1, pos)))
            return vbool(c_)
        if name == 'system':
            v = ex.rv(ex.ev(args[0]))
            cmds = ex.st.store.get('cmds') or V(('vec', TSTR), LT(TSTR).nil)
            ex.st.store['cmds'] = V(cmds.td, LT(TSTR).snoc(cmds.t, v.t))
            return vint(SYSTEM(v.t))
        if name == 'strlen':
            v = ex.rv(ex.ev(args[0]))
            return V(TSIZE, z3.Length(v.t))
        if name == 'format':
            f = ex.rv(ex.ev(args[0]))
            if f.td[0] != 'str' or not z3.is_string_value(f.t): raise Unsupported('format string not constant')
            return self.fmt(ex, pystr(f.t), [ex.rv(ex.ev(a)) for a in args[1:]])
        if name in ('make_shared', 'make_unique'):
            t = re.search(r'make_\w+<\s*([\w:]+)', c.src() or '')
            vs = [ex.rv(ex.ev(a)) for a in args]
            tn = t.group(1).split('::')[-1] if t else 'X'
            v = ufapp('new_' + tn, [x.t for x in vs], Ref)
            ex.fact(v != NULL)
            return vref(v)
        if name == 'sort':
            a, b = ex.rv(ex.ev(args[0])), ex.rv(ex.ev(args[1]))
            s = a.t.seq
            if s.lv is not None and z3.is_int_value(a.t.idx) and b.t.idx.eq(s.length) and len(args) == 2:
                v = ex.rv(s.lv)
                ex.write(s.lv, V(v.td, LT(v.td[1]).sorted(v.t)))
                return VVOID
        # everything else: pure uninterpreted function of its arguments, by result type
        td = td_of(n.ty)
        vals = [ex.rv(ex.ev(a)) for a in args]
        if ex.st.dead: return VVOID
        if td[0] in ('bool', 'int', 'str', 'ref') and all(v.td[0] in ('bool', 'int', 'str', 'ref', 'char') for v in vals):
            q = 'ext::' + name
            ex.used_externals.add(name)
            return V(td, ufapp(q, [v.t for v in vals], sort_of(td)))
        raise Unsupported('call of ' + name)

    def llvm_cast(self, ex, n, c, name, args):
        v = ex.rv(ex.ev(args[0]))
        if v.td[0] == 'ptr': v = ex.rv(v.t)
        if v.td[0] != 'ref': raise Unsupported('cast of ' + str(v.td))
        if name.startswith('isa'):
            m = re.search(r'isa\w*\s*<\s*([\w:]+)', c.src() or '')
            if not m: raise Unsupported('isa<?>')
            t = m.group(1).split('::')[-1]
        else:
            t = re.sub(r'[\s\*&]|\bconst\b|\bclass\b|\bstruct\b', '', n.ty).split('::')[-1]
            if t.endswith('>'): t = re.sub(r'.*<', '', t).rstrip('>')
        if name in ('cast', 'cast_or_null'): return vref(v.t)
        p = ufapp('isa_' + t, [v.t], BOOL)
        ex.fact(z3.Implies(p, v.t != NULL))
        ex.facts.append(z3.Implies(p, v.t != NULL))
        if name.startswith('isa'): return vbool(p)
        return vref(z3.If(p, v.t, NULL))

    def pred(self, ex, f, v):
        """apply a predicate closure to a value, expecting no effects; returns Bool term"""
        before = dict(ex.st.store)
        r = ex.as_bool(ex.apply_fun(f, [v]))
        for k, w in before.items():
            if ex.st.store.get(k) is not w: raise Unsupported('predicate with side effects')
        return r

    def algo(self, ex, n, name, args):
        a, b = ex.rv(ex.ev(args[0])), ex.rv(ex.ev(args[1]))
        if not (a.td[0] == 'iter' and isinstance(a.t, Iter) and isinstance(b.t, Iter) and a.t.seq.same(b.t.seq)): raise Unsupported('std::' + name)
        seq, lo, hi = a.t.seq, a.t.idx, b.t.idx
        x = ex.rv(ex.ev(args[2]))
        if name in ('find', 'count'): P = lambda i: ex.equals(seq.at(i), x)
        elif name in ('find_if', 'any_of', 'count_if', 'none_of'): P = lambda i: self.pred(ex, x, seq.at(i))
        elif name in ('find_if_not', 'all_of'): P = lambda i: neg(self.pred(ex, x, seq.at(i)))
        else: raise Unsupported('std::' + name)
        if name in ('count', 'count_if'): raise Unsupported('std::count')
        elems = snoc_chain(hi)
        if seq.ident[0] == 's' and z3.is_string_value(seq.ident[1]) and z3.is_int_value(z3.simplify(hi)) and z3.simplify(hi).as_long() == len(pystr(seq.ident[1])): elems = [S(c) for c in pystr(seq.ident[1])]
        if elems is not None and z3.is_int_value(lo) and lo.as_long() == 0:      # a list of known elements
            el = [unpack(seq.elem, t) for t in elems]
            Q = (lambda e: ex.equals(e, x)) if name == 'find' else (lambda e: self.pred(ex, x, e)) if name in ('find_if', 'any_of', 'none_of') else (lambda e: neg(self.pred(ex, x, e)))
            j = z3.IntVal(len(elems))
            for i in reversed(range(len(elems))): j = ite(Q(el[i]), z3.IntVal(i), j)
            found = z3.simplify(j < len(elems))
            if name in ('any_of',): return vbool(found)
            if name in ('all_of', 'none_of'): return vbool(neg(found))
            return V(TITER, Iter(seq, j))
        # first index in [lo,hi) satisfying P, or hi.  Found-ness is tied to specification folds by loops.search
        j = z3.Int(fresh_name('found'))
        ex.fact(z3.And(lo <= j, j <= hi))
        if not (ex.st.dead):
            pj = P(j)
            ex.fact(z3.Implies(j < hi, pj))
            ex.search(seq, lo, hi, j, P)
        if name in ('any_of',): return vbool(j < hi)
        if name in ('all_of', 'none_of'): return vbool(neg(j < hi))
        return V(TITER, Iter(seq, j))

    def rotate(self, ex, args):
        a, b, c = (ex.rv(ex.ev(x)) for x in args)
        s = a.t.seq
        if s.lv is None or not c.t.idx.eq(s.length): raise Unsupported('std::rotate')
        v = ex.rv(s.lv)
        ex.write(s.lv, V(v.td, LT(v.td[1]).rot(v.t, a.t.idx, b.t.idx)))
        return VVOID

    # ------------------------------------------------------------------ member functions
    def call_member(self, ex, n, me, b, name, args):
        args = [a for a in args if a is not None and a.kind != 'CXXDefaultArgExpr']
        v = ex.rv(b)
        if v.td[0] == 'ptr':
            b = v.t
            v = ex.rv(b)
        if v.td[0] == 'iter' and name not in ('operator->', 'operator*') and me is not None and me.get('isArrow'):   # p->f() on a raw pointer iterator
            b = self.deref(ex, b, v)
            v = ex.rv(b)
        k = v.td[0]
        if name.startswith('operator '):          # conversion
            td = td_of(n.ty)
            if k == 'rec' and v.td[1] == '\0ifs' and td[0] == 'bool': return vbool(READABLE(v.t['name'].t))
            if k == 'rec': return vbool(True)
            if td[0] == 'bool' and k == 'bool': return v
            if td[0] == 'bool' and k in ('int', 'ref'): return vbool(ex.as_bool(v))
            if td[0] == 'ref' and k == 'str': return v
            return b
        if k == 'str': 
            ex.used_std.add('string::' + name)
            return self.m_str(ex, n, b, v, name, args)
        if k == 'vec': return self.m_vec(ex, n, b, v, name, args)
        if k == 'set': return self.m_set(ex, n, b, v, name, args)
        if k == 'map': return self.m_map(ex, n, b, v, name, args)
        if k == 'fun' and name == 'operator()': return ex.apply_fun(v, [ex.ev(a) for a in args], n)
        if k == 'stream': return v
        if k == 'bool' and name == 'str': return v
        if k == 'rec': return self.m_rec(ex, n, b, v, name, args)
        if k == 'ref': return self.m_ref(ex, n, me, b, v, name, args)
        if k == 'range':
            s = v.t
            if name in ('begin', 'end'): return V(TITER, Iter(s, z3.IntVal(0) if name == 'begin' else s.length))
            if name == 'size': return V(TSIZE, s.length)
            if name == 'empty': return vbool(eq(s.length, z3.IntVal(0)))
        if k == 'iter' and name in ('operator->', 'operator*'): return self.deref(ex, b, v)
        if k == 'int' and name in ('getValue', 'getNumOccurrences'): return v
        if k == 'rec' and name == 'c_str': return v
        if name in ('getValue',): return v
        raise Unsupported('member %s of %s' % (name, v.td))

    def m_rec(self, ex, n, b, v, name, args):
        if v.td[1] == '\0ifs':
            ok = READABLE(v.t['name'].t)
            if name == 'good' or name == 'is_open': return vbool(ok)
            if name == 'fail' or name == 'bad': return vbool(neg(ok))
            if name == 'close': return VVOID
        if v.td[1] == '\0ofs':
            of = OPENFAIL(v.t['name'].t)
            if name in ('fail', 'bad'): return vbool(of)
            if name in ('good', 'is_open'): return vbool(neg(of))
            if name in ('close', 'flush'): return VVOID
        raise Unsupported('member %s of record %s' % (name, v.td[1]))

    def m_str(self, ex, n, b, v, name, args):
        s = v.t
        A = [ex.rv(ex.ev(a)) for a in args]
        if ex.st.dead: return VVOID
        L = z3.Length(s)
        if name in ('size', 'length'): return V(TSIZE, z3.simplify(L) if z3.is_string_value(s) else L)
        if name == 'empty': return vbool(eq(s, S('')))
        if name in ('c_str', 'data', 'str', 'getKey'):
            if name == 'str' and args:
                ex.write(b, V(v.td, A[0].t))
                return VVOID
            return V(TSTR, s)
        if name in ('flush',): return b
        if name == 'tellp': return V(('int', 64, False), L)
        if name == 'find':
            i = z3.IndexOf(s, A[0].t, ex.as_int(A[1]) if len(A) > 1 else z3.IntVal(0))
            ex.facts.append(z3.And(i >= -1, z3.Implies(i >= 0, i + z3.Length(A[0].t) <= L), L < z3.IntVal(2 ** 62)))
            return V(TSIZE, z3.If(i < 0, NPOS, i))
        if name == 'rfind':
            if len(A) == 1:
                i = z3.LastIndexOf(s, A[0].t)
                ex.facts.append(z3.And(i >= -1, z3.Implies(i >= 0, i + z3.Length(A[0].t) <= L), L < z3.IntVal(2 ** 62)))
                return V(TSIZE, z3.If(i < 0, NPOS, i))
            if z3.is_int_value(A[1].t) and A[1].t.as_long() == 0:
                return V(TSIZE, z3.If(z3.PrefixOf(A[0].t, s), z3.IntVal(0), NPOS))
            i = RFIND(s, A[0].t, A[1].t)
            return V(TSIZE, i)
        if name in ('find_first_not_of', 'find_last_not_of', 'find_first_of', 'find_last_of') and len(A) == 1:
            return V(TSIZE, self.find_set(ex, name, s, A[0].t))
        if name == 'substr':
            p = ex.as_int(A[0])
            ok = ex.sc(z3.simplify(p <= L) if z3.is_int_value(p) else p <= L)
            if z3.is_int_value(p) and p.as_long() == 0: ok = z3.BoolVal(True)
            if 'StringRef' in n.ty: ok = z3.BoolVal(True)
            if not z3.is_true(ok):
                ex.maybe_throw(neg(ok), n, 'substr out of range')
            m = ex.as_int(A[1]) if len(A) > 1 else NPOS
            if len(A) > 1 and not m.eq(NPOS): r = z3.SubString(s, p, m)
            else: r = z3.SubString(s, p, L - p)
            if z3.is_string_value(s) and z3.is_int_value(p) and (len(A) == 1 or z3.is_int_value(m)): r = z3.simplify(r)
            return vstr(r)
        if name in ('push_back',):
            ex.write(b, V(v.td, cat(s, A[0].t)))
            return VVOID
        if name == 'append' and len(A) == 1:
            ex.write(b, V(v.td, cat(s, A[0].t)))
            return b
        if name == 'append' and len(A) == 2 and A[0].td[0] == 'int' and A[1].td[0] == 'char' and z3.is_int_value(A[0].t):
            ex.write(b, V(v.td, cat(s, *([A[1].t] * A[0].t.as_long()))))
            return b
        if name == 'pop_back':
            ex.write(b, V(v.td, z3.SubString(s, 0, L - 1)))
            return VVOID
        if name == 'back': 
            if isinstance(b, LV): return b.sub(('i', L - 1))
            return V(TCHAR, charat(s, L - 1))
        if name == 'front': 
            if isinstance(b, LV): return b.sub(('i', z3.IntVal(0)))
            return V(TCHAR, charat(s, z3.IntVal(0)))
        if name == 'at': return V(TCHAR, charat(s, A[0].t))
        if name == 'clear':
            ex.write(b, V(v.td, S('')))
            return VVOID
        if name == 'resize':
            m = A[0].t
            if z3.is_int_value(m) and m.as_long() == 0: r = S('')
            else: r = z3.If(m <= L, z3.SubString(s, 0, m), PAD(s, m))
            ex.write(b, V(v.td, r))
            return VVOID
        if name in ('reserve', 'shrink_to_fit'): return VVOID
        if name == 'compare':
            if len(A) == 1: return vint(z3.If(s == A[0].t, z3.IntVal(0), self.cmp3(ex, s, A[0].t)))
            if len(A) == 3:
                p, m, t = ex.as_int(A[0]), ex.as_int(A[1]), A[2].t
                if not (z3.is_int_value(p) and p.as_long() == 0): ex.maybe_throw(p > L, n, 'compare out of range')
                sub = z3.SubString(s, p, m)
                return vint(z3.If(sub == t, z3.IntVal(0), self.cmp3(ex, sub, t)))
        if name == 'replace' and len(A) == 3 and A[0].td[0] == 'int':
            p, m, t = A[0].t, A[1].t, A[2].t
            ex.maybe_throw(p > L, n, 'replace out of range')
            ex.write(b, V(v.td, cat(z3.SubString(s, 0, p), t, z3.SubString(s, p + m, L))))
            return b
        if name == 'insert' and len(A) == 2 and A[0].td[0] == 'int':
            p, t = A[0].t, A[1].t
            ex.write(b, V(v.td, cat(z3.SubString(s, 0, p), t, z3.SubString(s, p, L))))
            return b
        if name == 'erase':
            if len(A) == 2 and A[0].td[0] == 'iter':
                m = A[0].t
                if isinstance(m, RemoveMark) and m.seq.ident[1].eq(s) and A[1].t.idx.eq(A[1].t.seq.length):
                    if m.char is not None: r = strip(s, m.char.t)
                    else: r = ex.filter_string(s, m.pred)
                    ex.write(b, V(v.td, r))
                    return VVOID
            elif len(A) == 2 and A[0].td[0] == 'int':
                p, m = A[0].t, A[1].t
                ex.write(b, V(v.td, cat(z3.SubString(s, 0, p), z3.SubString(s, p + m, L))))
                return b
            elif len(A) == 1 and A[0].td[0] == 'int':
                ex.write(b, V(v.td, z3.SubString(s, 0, A[0].t)))
                return b
            elif len(A) == 0:
                ex.write(b, V(v.td, S('')))
                return b
        if name in ('begin', 'end', 'cbegin', 'cend'):
            q = ex.seq_of(b)
            return V(TITER, Iter(q, z3.IntVal(0) if 'begin' in name else q.length))
        if name in ('startswith', 'starts_with'): return vbool(z3.PrefixOf(A[0].t, s))
        if name in ('endswith', 'ends_with'): return vbool(z3.SuffixOf(A[0].t, s))
        if name in ('equals',): return vbool(eq(s, A[0].t))
        if name == 'contains': return vbool(z3.Contains(s, A[0].t))
        if name in ('getValue', 'operator std::string'): return v
        if name == 'assign' and len(A) == 1:
            ex.write(b, V(v.td, A[0].t))
            return b
        if name == 'swap' and isinstance(b, LV):
            o = ex.ev(args[0])
            ex.write(b, A[0])
            ex.write(o, v)
            return VVOID
        raise Unsupported('string::' + name)

    def cmp3(self, ex, a, b):
        c = CMP(a, b)
        ex.facts.append(c != 0)
        return c

    def find_set(self, ex, name, s, cs):
        f = {'find_first_not_of': FFNO, 'find_last_not_of': FLNO, 'find_first_of': FFO, 'find_last_of': FLO}[name]
        i = f(s, cs)
        if not z3.is_string_value(cs): raise Unsupported(name + ' with variable set')
        chars = pystr(cs)
        R = z3.Union(*[z3.Re(S(c)) for c in chars]) if len(chars) > 1 else z3.Re(S(chars))
        neg_ = 'not' in name
        inside = R if neg_ else z3.Intersect(z3.Complement(R), z3.AllChar(z3.ReSort(STR)))
        n = z3.Length(s)
        ch = charat(s, i)
        if 'first' in name: around = z3.InRe(z3.SubString(s, 0, i), z3.Star(inside))
        else: around = z3.InRe(z3.SubString(s, i + 1, n - i - 1), z3.Star(inside))
        hit = neg(z3.InRe(ch, R)) if neg_ else z3.InRe(ch, R)
        ex.facts.append(z3.Or(z3.And(i == NPOS, z3.InRe(s, z3.Star(inside))), z3.And(0 <= i, i < n, around, hit)))
        fi, la = (FFNO, FLNO) if neg_ else (FFO, FLO)
        ex.facts.append(z3.And((fi(s, cs) == NPOS) == (la(s, cs) == NPOS), fi(s, cs) <= la(s, cs), z3.Or(la(s, cs) == NPOS, la(s, cs) < n), n < z3.IntVal(2 ** 62), fi(s, cs) >= 0))
        return i

    def m_vec(self, ex, n, b, v, name, args):
        T = LT(v.td[1])
        et = v.td[1]
        if name in ('push_back', 'emplace_back'):
            if len(args) == 1: x = ex.coerce(ex.rv(ex.ev(args[0], et)), et)
            elif et[0] == 'pair' and len(args) == 2: x = V(et, (ex.rv(ex.ev(args[0], et[1])), ex.rv(ex.ev(args[1], et[2]))))
            else: raise Unsupported('emplace_back')
            ex.write(b, V(v.td, T.snoc(v.t, pack(x))))
            return VVOID
        if name in ('size',): 
            ex.fact(T.len(v.t) >= 0)
            return V(TSIZE, T.len(v.t))
        if name == 'empty': 
            ex.fact(T.len(v.t) >= 0)
            return vbool(eq(T.len(v.t), z3.IntVal(0)))
        if name in ('begin', 'end', 'cbegin', 'cend'):
            q = ex.seq_of(b)
            return V(TITER, Iter(q, z3.IntVal(0) if 'begin' in name else q.length))
        if name == 'at': return self.subscript(ex, b, v, ex.rv(ex.ev(args[0])))
        if name == 'back': return unpack(et, T.at(v.t, T.len(v.t) - 1))
        if name == 'front': return unpack(et, T.at(v.t, z3.IntVal(0)))
        if name == 'clear':
            ex.write(b, default_value(v.td))
            return VVOID
        if name == 'pop_back':
            ex.write(b, V(v.td, T.pop(v.t)))
            return VVOID
        if name in ('reserve', 'shrink_to_fit'): return VVOID
        if name == 'insert':
            A = [ex.rv(ex.ev(a)) for a in args]
            if len(A) == 3 and all(a.td[0] == 'iter' for a in A) and A[0].t.idx.eq(A[0].t.seq.length):
                src = self.from_range(ex, v.td, A[1].t, A[2].t)
                ex.write(b, V(v.td, T.app(v.t, src.t)))
                return VVOID
        raise Unsupported('vector::' + name)

    def m_set(self, ex, n, b, v, name, args):
        A = [ex.rv(ex.ev(a, v.td[1])) for a in args]
        if ex.st.dead: return VVOID
        if name in ('insert', 'emplace'):
            if len(A) == 1:
                k = pack(A[0])
                had = z3.Select(v.t, k)
                nv = V(v.td, z3.Store(v.t, k, z3.BoolVal(True)))
                ex.write(b, nv)
                return V(('pair', TITER, TBOOL), (V(TITER, MapIter(b, nv, k, z3.BoolVal(True))), vbool(neg(had))))
            if len(A) == 2 and A[0].td[0] == 'iter':
                raise Unsupported('set::insert(range)')
        if name == 'count': return V(TSIZE, ite(z3.Select(v.t, pack(A[0])), z3.IntVal(1), z3.IntVal(0)))
        if name == 'contains': return vbool(z3.Select(v.t, pack(A[0])))
        if name == 'find': return V(TITER, MapIter(b if isinstance(b, LV) else None, v, pack(A[0]), z3.Select(v.t, pack(A[0]))))
        if name in ('begin', 'cbegin'):
            q = ex.seq_of(b)
            return V(TITER, Iter(q, z3.IntVal(0)))
        if name in ('end', 'cend'): return self.end_of(ex, n, b)
        if name == 'clear':
            ex.write(b, default_value(v.td))
            return VVOID
        if name == 'erase' and len(A) == 1 and A[0].td[0] != 'iter':
            ex.write(b, V(v.td, z3.Store(v.t, pack(A[0]), z3.BoolVal(False))))
            return V(TSIZE, ite(z3.Select(v.t, pack(A[0])), z3.IntVal(1), z3.IntVal(0)))
        if name == 'empty': return vbool(eq(v.t, default_value(v.td).t))
        if name == 'size': return V(TSIZE, LT(v.td[1]).len(LT(v.td[1]).keys(v.t)))
        raise Unsupported('set::' + name)

    def end_of(self, ex, n, b): return V(TITER, EndIter(b))

    def m_map(self, ex, n, b, v, name, args):
        kt, vt = v.td[1], v.td[2]
        dom, val = v.t
        if name in ('find', 'count', 'at', 'lookup', 'contains', 'erase'):
            k = pack(ex.rv(ex.ev(args[0], kt)))
            memo = getattr(ex, 'memo_read', None)
            if memo: memo(b, v, k)
            has = z3.Select(dom, k)
            if name == 'find': return V(TITER, MapIter(b if isinstance(b, LV) else None, v, k, has))
            if name == 'count': return V(TSIZE, ite(has, z3.IntVal(1), z3.IntVal(0)))
            if name == 'contains': return vbool(has)
            if name == 'at':
                ex.maybe_throw(neg(has), n, 'map::at')
                return unpack(vt, z3.Select(val, k))
            if name == 'lookup': return unpack(vt, z3.If(has, z3.Select(val, k), pack(default_value(vt))))
            if name == 'erase':
                ex.write(b, V(v.td, (z3.Store(dom, k, z3.BoolVal(False)), val)))
                return VVOID
        if name in ('insert', 'emplace', 'try_emplace'):
            if len(args) == 1:
                p = ex.rv(ex.ev(args[0], ('pair', kt, vt)))
                k, x = p.t
            elif len(args) == 2:
                k, x = ex.rv(ex.ev(args[0], kt)), ex.rv(ex.ev(args[1], vt))
            else: raise Unsupported('map::' + name)
            k = pack(ex.coerce(k, kt))
            x = pack(ex.coerce(x, vt))
            has = z3.Select(dom, k)
            nv = V(v.td, (z3.Store(dom, k, z3.BoolVal(True)), z3.Store(val, k, z3.If(has, z3.Select(val, k), x))))
            ex.write(b, nv)
            return V(('pair', TITER, TBOOL), (V(TITER, MapIter(b, nv, k, z3.BoolVal(True))), vbool(neg(has))))
        if name in ('end', 'cend'): return self.end_of(ex, n, b)
        if name in ('begin', 'cbegin'):
            q = ex.seq_of(b)
            return V(TITER, Iter(q, z3.IntVal(0)))
        if name == 'clear':
            ex.write(b, default_value(v.td))
            return VVOID
        if name == 'empty': return vbool(eq(dom, default_value(v.td).t[0]))
        if name == 'size': return V(TSIZE, LT(kt).len(LT(kt).keys(dom)))
        raise Unsupported('map::' + name)

    def m_ref(self, ex, n, me, b, v, name, args):
        if name in self.extra_member: 
            r = self.extra_member[name](self, ex, n, v, args)
            if r is not None: return r
        if name in RANGES:
            canon, role = RANGES[name]
            t = v.t
            ln = ufapp('len_' + canon, [t], INT)
            ex.facts.append(ln >= 0)
            seq = Seq((canon, t), ln, lambda i: vref(ufapp('at_' + canon, [t, i], Ref)), TREF)
            if role == 'range': return V(('range',), seq)
            if role == 'begin': return V(TITER, Iter(seq, z3.IntVal(0)))
            if role == 'end': return V(TITER, Iter(seq, ln))
            if role == 'count': return V(('int', 32, True), ln)
            return seq.at(ex.as_int(ex.rv(ex.ev(args[0]))))
        if name in IDENTITY_METHODS and not args: return v
        if name == 'isCopyConstructor' and len(args) == 1:
            x = ex.ev(args[0])
            if not isinstance(x, LV): raise Unsupported('isCopyConstructor')
            ex.write(x, V(ex.rv(x).td, ufapp('isCopyConstructor_quals', [v.t], INT)))
            return V(TBOOL, ufapp('isCopyConstructor', [v.t], BOOL))
        td = td_of(n.ty)
        vals = []
        streams = []
        for a in args:
            x = ex.ev(a)
            y = ex.rv(x)
            if y.td[0] == 'rec': raise Unsupported('record passed to external ' + name)
            if 'ostream' in a.ty and isinstance(x, LV) and y.td[0] == 'str': streams.append(x)
            elif y.td[0] == 'stream': return VVOID
            else: vals.append(y)
        if ex.st.dead: return VVOID
        targ = re.search(re.escape(name) + r'\s*<(.*)>$', me.src().strip(), re.S)
        if targ: name = '%s_%s' % (name, re.sub(r'\s+|clang::', '', targ.group(1)))
        ex.used_externals.add(name)
        terms = [v.t] + [y.t for y in vals]
        if streams:
            for s in streams:
                cur = ex.rv(s)
                ex.write(s, V(cur.td, cat(cur.t, ufapp('text_' + name, terms, STR))))
            return VVOID
        if name == 'get' and len(vals) == 1 and vals[0].td[0] == 'int': return V(TREF, ufapp('elem', terms, Ref))
        if td[0] == 'void': return VVOID
        if td[0] in ('bool', 'int', 'str', 'ref', 'char', 'vec'):
            t = ufapp(name, terms, sort_of(td))
            if td[0] == 'int' and td[2]: ex.facts.append(t >= 0)
            return V(td, t)
        raise Unsupported('external method %s -> %s' % (name, n.ty))


def snoc_chain(n):
    """the elements when n is the length of an explicitly built list"""
    if not (z3.is_app(n) and n.num_args() == 1 and n.decl().name().startswith('len_L')): return None
    out, t = [], n.arg(0)
    while z3.is_app(t) and t.decl().name().startswith('snoc_L'):
        out.append(t.arg(1))
        t = t.arg(0)
    return out[::-1] if z3.is_app(t) and t.decl().name().startswith('nil_L') else None


def itos(t):
    if z3.is_int_value(t): return S(str(t.as_long()))
    return ITOS(t)


def simp_select(arr, k):
    a = arr
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        if a.arg(1).eq(k): return a.arg(2)
        break
    return z3.Select(arr, k)
