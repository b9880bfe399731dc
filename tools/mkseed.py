"""Writes /verif/seeded/<id>/ from the table in tools/seeds.py (a planted bug: one or more textual edits of /repo's HEAD,
an input for the binder executable and a python check of what it generates).   usage: mkseed.py [ids]"""
import os, sys, json, subprocess, shutil, stat
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
SH = '''#!/bin/bash
# runs the binder executable built in the current directory on in.hpp and checks what it generates
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir "$W/out"
cp "$D"/*.hpp "$W/"
echo '#include <in.hpp>' > "$W/all.hpp"
export SRC="$W" OUT="$W/out"
run() {
    "$PWD/_build/source/binder" --root-module M --prefix "$W/out/" "$@" "$W/all.hpp" -- -x c++ -std=%s -I"$W" > "$W/log" 2>&1
}
%s
python3 "$D/check.py" "$W/out" || exit 1
exit 0
'''
CH = '''import sys, os, re
out = sys.argv[1]
text = {}
for r, _, fs in os.walk(out):
    for f in fs: text[os.path.relpath(os.path.join(r, f), out)] = open(os.path.join(r, f), encoding='latin-1').read()
cpp = "\\n".join(text[f] for f in sorted(text) if f.endswith('.cpp'))
def need(c, what):
    if not c: print('FAILED:', what); sys.exit(1)
%s
'''
for id, s in seeds.SEEDS.items():
    if len(sys.argv) > 1 and id not in sys.argv[1:]: continue
    d = os.path.join(ROOT, id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = '/tmp/mkseed'; shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w, 'HEAD'])
    try:
        for f, old, new in s['edits']:
            p = w + '/' + f; t = open(p).read()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', w, 'diff']))
    finally: subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    files = dict(s.get('files', {})); files['in.hpp'] = s['input']
    if 'config' in s: files['config'] = s['config']
    for f, t in files.items(): open(d + '/' + f, 'w').write(t.lstrip('\n'))
    run = s.get('run') or 'run %s %s || { cat "$W/log"; exit 2; }' % ('--config "$D/config"' if 'config' in s else '', s.get('args', "--bind ''"))
    open(d + '/demo.sh', 'w').write(SH % (s.get('std', 'c++11'), run)); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/check.py', 'w').write(CH % s['check'].strip('\n'))
    print(id)
