"""Front end: clang-14 JSON AST of /repo/source/*.cpp, regenerated on every run.

Every function body that the verifier reasons about comes from this dump; nothing is transcribed by
hand.  The dump is restricted to declarations whose qualified name matches a filter (binder::,
BinderVisitor, main ...)."""
import json, os, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'source')
CLANG = 'clang++-14' if shutil.which('clang++-14') else '/usr/lib/llvm-14/bin/clang++'
FLAGS = ['-DBINDER_VERSION_STRING="1.4.1"', '-I/usr/lib/llvm-14/include', '-I' + SRC, '-fno-rtti', '-fexceptions',
         '-std=gnu++14', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS']
FILES = ['util', 'config', 'context', 'binder', 'enum', 'function', 'type', 'class', 'main', 'options']


class FrontEndError(Exception):
    pass


class Node:
    __slots__ = ('d', 'kind', 'inner', 'tu', 'file')

    def __init__(self, d, tu):
        self.d = d
        self.kind = d.get('kind')
        self.tu = tu
        self.inner = [Node(x, tu) if x.get('kind') or x.get('inner') else None for x in d.get('inner', [])]

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def name(self):
        return self.d.get('name')

    @property
    def id(self):
        return self.d.get('id')

    @property
    def qt(self):
        t = self.d.get('type')
        if not t: return ''
        return t.get('qualType', '')

    @property
    def ty(self):
        t = self.d.get('type')
        if not t: return ''
        return t.get('desugaredQualType') or t.get('qualType', '')

    def src(self):
        """source text of this node's range (main file only)"""
        r = self.d.get('range', {})
        b, e = r.get('begin', {}), r.get('end', {})
        b = b.get('expansionLoc', b)
        e = e.get('expansionLoc', e)
        if 'offset' not in b or 'offset' not in e: return ''
        return self.tu.text[b['offset']:e['offset'] + e.get('tokLen', 1)]

    def line(self):
        r = self.d.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        if 'offset' in r and self.tu:
            return self.tu.text.count('\n', 0, r['offset']) + 1
        return r.get('line')

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            for x in reversed(n.inner):
                if x is not None: st.append(x)

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.d.get('name', ''))


class TU:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.text = open(path, encoding='latin-1').read()
        self.docs = []
        self.by_id = {}


FILTERS = {'main': ['binder::', 'BinderVisitor', 'Binder', 'main']}


def dump(path, filt, flags=None):
    cmd = [CLANG, '-fsyntax-only', *(flags or FLAGS), '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise FrontEndError('clang failed on %s: %s' % (path, p.stderr.decode()[:2000]))
    return p.stdout.decode('utf-8', 'replace')


def parse_docs(s):
    d = json.JSONDecoder()
    i = 0
    out = []
    n = len(s)
    while True:
        while i < n and s[i].isspace(): i += 1
        if i >= n: break
        if s[i] != '{':                      # "Dumping xyz:" header lines
            j = s.find('\n', i)
            if j < 0: break
            i = j + 1
            continue
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


FUNCTION_KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


class Function:
    def __init__(self, node, tu, qname):
        self.node = node
        self.tu = tu
        self.qname = qname
        self.name = node.name
        self.mangled = node.get('mangledName')
        self.params = [x for x in node.inner if x is not None and x.kind == 'ParmVarDecl']
        self.body = next((x for x in node.inner if x is not None and x.kind == 'CompoundStmt'), None)
        self.inits = [x for x in node.inner if x is not None and x.kind == 'CXXCtorInitializer']
        self.sig = node.qt
        self.cls = None
        self.rets = node.qt.split('(')[0].strip()

    def __repr__(self):
        return 'fn ' + str(self.qname) + ' ' + str(self.sig)


class Program:
    """All functions of the current tree."""

    def __init__(self, files=FILES, src=SRC):
        self.tus = {}
        self.functions = {}        # mangled -> Function (definition)
        self.decls = {}            # (tu, id) -> mangled
        self.defaults = {}         # mangled -> {param index: Node default expr}
        self.globals = {}          # (tu,id) -> VarDecl Node
        self.gvars = {}            # name -> VarDecl with init
        self.fields = {}           # class name -> {field: Node}
        self.enums = {}            # (enumerator name) -> int
        self.text_hash = hashlib.sha256()
        jobs = []
        with ThreadPoolExecutor(8) as ex:
            for f in files:
                p = os.path.join(src, f + '.cpp')
                if not os.path.exists(p):
                    raise FrontEndError('missing ' + p)
                for filt in FILTERS.get(f, ['binder::']):
                    jobs.append((f, p, ex.submit(dump, p, filt)))
            for f, p, j in jobs:
                s = j.result()
                tu = self.tus.get(f)
                if tu is None:
                    tu = self.tus[f] = TU(f, p)
                    self.text_hash.update(tu.text.encode('latin-1'))
                for o in parse_docs(s):
                    tu.docs.append(Node(o, tu))
        for tu in self.tus.values():
            for d in tu.docs:
                self._index(d, tu, None)
        for tu in self.tus.values():
            self._fix_classes(tu)

    def _index(self, n, tu, cls):
        if n.kind in FUNCTION_KINDS:
            self._fn(n, tu, cls)
            return
        if n.kind == 'CXXRecordDecl':
            c = n.name
            if c and n.get('completeDefinition'):
                fs = self.fields.setdefault(c, {})
                for x in n.inner:
                    if x is not None and x.kind == 'FieldDecl':
                        fs[x.name] = x
            tu.by_id[n.id] = n
            for x in n.inner:
                if x is not None: self._index(x, tu, n)
            return
        if n.kind == 'VarDecl':
            tu.by_id[n.id] = n
            self.globals[(tu.name, n.id)] = n
            if n.inner: self.gvars[n.name] = n
            return
        if n.kind == 'EnumDecl':
            v = -1
            for x in n.inner:
                if x is not None and x.kind == 'EnumConstantDecl':
                    val = None
                    for y in x.walk():
                        if y.kind == 'ConstantExpr' and y.get('value') is not None:
                            val = int(y.get('value'))
                            break
                    if val is None:
                        for y in x.walk():
                            if y.kind == 'IntegerLiteral': val = int(y.get('value'))
                    v = v + 1 if val is None else val
                    self.enums[(n.name, x.name)] = v
            return
        if n.kind in ('NamespaceDecl', 'LinkageSpecDecl', 'ClassTemplateDecl'):
            for x in n.inner:
                if x is not None: self._index(x, tu, cls)

    def _fn(self, n, tu, cls):
        m = n.get('mangledName')
        tu.by_id[n.id] = n
        if not m:
            return
        m0 = m
        if n.get('storageClass') == 'static' or 'L' in m and '_GLOBAL__N_' in m:
            m = m  # internal linkage: still unique enough inside this program
        self.decls[(tu.name, n.id)] = m
        if n.kind == 'CXXConstructorDecl':
            pass
        ps = [x for x in n.inner if x is not None and x.kind == 'ParmVarDecl']
        for i, p in enumerate(ps):
            if p.get('init') and p.inner:
                self.defaults.setdefault(m, {})[i] = p.inner[0]
        if any(x is not None and x.kind == 'CompoundStmt' for x in n.inner):
            f = Function(n, tu, demangle(m))
            f.cls = cls.name if cls is not None else None
            old = self.functions.get(m)
            if old is None or f.node.tu.name == tu.name:
                self.functions.setdefault(m, f)

    def _fix_classes(self, tu):
        for f in self.functions.values():
            if f.cls is None and f.node.kind in FUNCTION_KINDS[1:]:
                parts = strip_params(f.qname).split('::')
                if len(parts) >= 2: f.cls = parts[-2]

    def find(self, qname, sig=None):
        """All definitions with a given qualified name (optionally signature substring)."""
        r = [f for f in self.functions.values() if strip_params(f.qname) == qname]
        if sig is not None:
            r = [f for f in r if sig in f.qname]
        return r

    def aliased_globals(self):
        """names of variables used anywhere other than by reading their value: those may change"""
        if getattr(self, '_aliased', None) is None:
            self._aliased = set()
            for f in self.functions.values():
                st = [(f.node, None)]
                while st:
                    n, up = st.pop()
                    r = n.get('referencedDecl')
                    if n.kind == 'DeclRefExpr' and r and r.get('kind') == 'VarDecl' and not (up is not None and (up.get('castKind') == 'LValueToRValue' or up.get('castKind') == 'NoOp' and (up.qt.endswith('const') or up.qt.startswith('const ') and '*' not in up.qt))): self._aliased.add(r.get('name'))
                    st.extend((x, n) for x in n.inner if x is not None)
        return self._aliased

    def resolve(self, tu, ident):
        m = self.decls.get((tu.name, ident))
        if m is None: return None, None
        return m, self.functions.get(m)


_dm = {}


def demangle(m):
    if m in _dm: return _dm[m]
    p = subprocess.run(['c++filt', m], stdout=subprocess.PIPE)
    r = p.stdout.decode().strip()
    r = r.replace('std::__cxx11::', 'std::').replace('std::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    r = r.replace('(anonymous namespace)::', '').replace('[abi:cxx11]', '')
    _dm[m] = r
    return r


def strip_params(q):
    """binder::Config::read(std::string const&) -> binder::Config::read"""
    depth = 0
    q = q.replace('operator()', 'operator@@')
    for i, c in enumerate(q):
        if c == '<' and not q[:i].endswith('operator') and not q[:i].endswith('operator<'): depth += 1
        elif c == '>' and depth: depth -= 1
        elif c == '(' and depth == 0:
            q = q[:i]
            break
    q = q.replace('operator@@', 'operator()')
    if ' ' in q and 'operator' not in q: q = q.split(' ')[-1]
    return q
