"""Scratch builds of /repo's current working tree (never inside /repo)."""
import os, subprocess, tempfile, shutil, glob, concurrent.futures as cf

REPO = os.environ.get('BINDER_REPO', '/repo')
SRC = REPO + '/source'
FLAGS = ['-DBINDER_VERSION_STRING="1.4.1"', '-I/usr/lib/llvm-14/include', '-I' + SRC, '-fno-rtti', '-std=gnu++14', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-O0', '-w']
LINK = ['/usr/lib/llvm-14/lib/libLLVM.so', '/usr/lib/llvm-14/lib/libclang-cpp.so.14']
HERE = os.path.dirname(os.path.abspath(__file__))


class BuildError(Exception): pass


class Scratch:
    """owns one scratch directory; removed on exit"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='bvrf.')
        os.makedirs(self.dir + '/o')
        self.objs = None
        self.log = []

    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.dir, ignore_errors=True)

    def cc(self, src, out, extra=()):
        r = subprocess.run(['g++'] + FLAGS + list(extra) + ['-c', src, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode == 0, r.stdout.decode(errors='replace')

    def objects(self):
        if self.objs is None:
            srcs = sorted(glob.glob(SRC + '/*.cpp') + [SRC + '/fmt/format.cc', SRC + '/fmt/os.cc'])
            jobs = []
            with cf.ThreadPoolExecutor(8) as p:
                for s in srcs:
                    b = os.path.basename(s).split('.')[0]
                    jobs.append((b, p.submit(self.cc, s, '%s/o/%s.o' % (self.dir, b))))
                    if b == 'main': jobs.append(('umain', p.submit(self.cc, s, '%s/o/umain.o' % self.dir, ['-Dmain=binder_main'])))
            bad = [(b, j.result()[1]) for b, j in jobs if not j.result()[0]]
            if bad: raise BuildError(bad[0][0] + ': ' + bad[0][1][:500])
            self.objs = [b for b, _ in jobs]
        return self.objs

    def binder(self):
        exe = self.dir + '/bin/binder'
        if os.path.exists(exe): return exe
        os.makedirs(self.dir + '/bin', exist_ok=True)
        os.makedirs(self.dir + '/lib', exist_ok=True)
        if not os.path.exists(self.dir + '/lib/clang'): os.symlink('/usr/lib/llvm-14/lib/clang', self.dir + '/lib/clang')
        os_ = ['%s/o/%s.o' % (self.dir, b) for b in self.objects() if b != 'umain']
        r = subprocess.run(['g++', '-o', exe] + os_ + LINK, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError(r.stdout.decode(errors='replace')[:500])
        return exe

    def unit(self, name, body, include=''):
        """compile one adapter; None when it does not fit the current source (renamed, re-typed...)"""
        key = ''.join(c if c.isalnum() else '_' for c in name)
        exe = '%s/u_%s' % (self.dir, key)
        if os.path.exists(exe): return exe
        src = '%s/u_%s.cpp' % (self.dir, key)
        open(src, 'w').write('#include "unit.hpp"\n' + include + 'using namespace binder;\nusing namespace llvm;\nvoid unit(In &in, Out &out)\n{\n%s\n}\n#include "unit_main.cpp"\n' % body)
        ok, msg = self.cc(src, exe + '.o', self.pch())
        if not ok:
            self.log.append((name, msg[:2000]))
            return None
        os_ = ['%s/o/%s.o' % (self.dir, b) for b in self.objects() if b != 'main']
        r = subprocess.run(['g++', '-o', exe, exe + '.o'] + os_ + LINK, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: self.log.append((name, r.stdout.decode(errors='replace')[-2000:]))
        return exe if r.returncode == 0 else None

    def pch(self):
        d = self.dir + '/pch'
        fl = ['-fno-access-control', '-I' + d, '-I' + HERE]
        if not os.path.exists(d):
            os.makedirs(d)
            shutil.copy(HERE + '/unit.hpp', d + '/unit.hpp')
            subprocess.run(['g++'] + FLAGS + fl + ['-x', 'c++-header', d + '/unit.hpp', '-o', d + '/unit.hpp.gch'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return fl


def enc(v):
    if v is True or v is False: return 'i%d' % v
    if isinstance(v, str): return 'x' + v.encode('latin-1').hex()
    if isinstance(v, int): return 'i%d' % v
    if isinstance(v, dict): return ' '.join(['m%d' % len(v)] + [enc(k) + ' ' + enc(x) for k, x in sorted(v.items())])
    if isinstance(v, (tuple, list)): return ' '.join(['v%d' % len(v)] + [enc(x) for x in v])
    raise TypeError(v)


def run_unit(exe, lines, timeout=60, cwd=None):
    """answers per line; 'crash' / 'hang' for the case that ended the process"""
    out = []
    todo = list(lines)
    while todo:
        try:
            r = subprocess.run([exe], input=('\n'.join(todo) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, cwd=cwd)
            got = r.stdout.decode('latin-1').split('\n')[:-1]
            how = 'crash'
        except subprocess.TimeoutExpired as e:
            got = (e.stdout or b'').decode('latin-1').split('\n')[:-1]
            how = 'hang'
        out += got[:len(todo)]
        if len(got) >= len(todo): break
        out.append(how)
        todo = todo[len(got) + 1:]
        if out.count('crash') + out.count('hang') > 3: 
            out += ['skipped'] * len(todo)
            break
    return out
