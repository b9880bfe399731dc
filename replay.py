#!/usr/bin/env python3-vt
"""replay.py <file>: run the failing input of a replay file on a fresh scratch build of /repo."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from replay import build, e2e, unitcheck
d = json.load(open(sys.argv[1]))
c = d.get('failing_input')
if not c: sys.exit('no failing input in this file; failed obligations: ' + ', '.join(o['name'] for o in d['failed_obligations']))
with build.Scratch() as S:
    if 'adapter' in c:
        exe = S.unit('replay', c['adapter'], c.get('include', ''))
        if exe is None: sys.exit('the adapter does not compile against this tree: ' + S.log[-1][1])
        got = build.run_unit(exe, [c['case']], cwd=S.dir)[0]
        print('input   ', c['input'])
        print('expected', c['expected'])
        print('got     ', unitcheck.decode(got))
        sys.exit(0 if unitcheck.decode(got).strip() == c['expected'].strip() else 1)
    todo, bad = e2e.check(S, None, {c['case']})
    for b in bad: print('\n'.join(b['difference']))
    sys.exit(1 if bad else 0)
