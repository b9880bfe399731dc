"""End-to-end runs of the binder executable built from the current tree, on the committed corpus.

corpus/<case>/in.hpp (+ other files), corpus/<case>/config, corpus/<case>/args (optional).
The expected answer is corpus/<case>/expect.txt: the generated files, written when the tree satisfied its contracts
(tools/corpus.py regenerates them; every change is reviewed by hand)."""
import os, subprocess, re, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = os.path.join(os.path.dirname(HERE), 'corpus')


def cases(): return sorted(d for d in os.listdir(CORPUS) if os.path.exists('%s/%s/in.hpp' % (CORPUS, d))) if os.path.isdir(CORPUS) else []


def tags(case):
    p = '%s/%s/props' % (CORPUS, case)
    return open(p).read().split() if os.path.exists(p) else []


def run_case(scratch, case, exe):
    src = '%s/%s' % (CORPUS, case)
    wd = '%s/e_%s' % (scratch.dir, case)
    shutil.rmtree(wd, ignore_errors=True)
    shutil.copytree(src, wd, ignore=shutil.ignore_patterns('expect.txt', 'props', 'args'))
    os.makedirs(wd + '/out')
    args = open(src + '/args').read().split() if os.path.exists(src + '/args') else ['--bind', '']
    open(wd + '/all.hpp', 'w').write('#include <in.hpp>\n')
    cmd = [exe, '--root-module', 'M', '--prefix', wd + '/out/']
    std = '-std=c++11'
    for a in list(args):
        if a.startswith('-std='): std = a; args.remove(a)
    if os.path.exists(wd + '/config'): cmd += ['--config', wd + '/config']
    cmd += args_fix(args) + [wd + '/all.hpp', '--', '-x', 'c++', std, '-I' + wd]
    try:
        r = subprocess.run(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        rc, err = r.returncode, r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired: rc, err = 'timeout', ''
    out = {}
    for root, _, fs in os.walk(wd + '/out'):
        for f in fs:
            p = os.path.join(root, f)
            out[os.path.relpath(p, wd + '/out')] = open(p, encoding='latin-1').read().replace(wd, '@')
    shutil.rmtree(wd, ignore_errors=True)
    return rc, out, err


def args_fix(args):
    return ['' if a == "''" else a for a in args]


def render(rc, out):
    if rc != 0: return 'exit %s\n' % rc
    t = 'exit 0\n'
    for f in sorted(out): t += '==== %s\n%s' % (f, out[f] if out[f].endswith('\n') else out[f] + '\n')
    return t


def norm(t): return t.rstrip('\n').split('\n')


def diff(exp, got, n=12):
    import difflib
    d = [l for l in difflib.unified_diff(norm(exp), norm(got), 'expected', 'got', lineterm='', n=1)]
    return d[:n]


def check(scratch, prop=None, only=None):
    """-> (cases run, [failing case dicts])"""
    exe = scratch.binder()
    todo = [c for c in cases() if (prop is None or not tags(c) or prop in tags(c)) and (only is None or c in only)]
    bad = []
    with cf.ThreadPoolExecutor(8) as p:
        for c, j in [(c, p.submit(run_case, scratch, c, exe)) for c in todo]:
            rc, out, err = j.result()
            exp = open('%s/%s/expect.txt' % (CORPUS, c), encoding='latin-1').read()
            got = render(rc, out)
            if norm(exp) != norm(got): bad.append({'case': c, 'files': 'corpus/' + c, 'difference': diff(exp, got, 40), 'stderr': err[-500:]})
    return todo, bad
