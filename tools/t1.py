"""t1.py <modules> [patterns] : prove the contracts of these modules (only) ; -v verbose"""
import sys, time
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/tools')
import importlib
from cxxv import cast, verify
from cxxv.spec import REG
V='-v' in sys.argv
if V: sys.argv.remove('-v')
mods=sys.argv[1].split(',')
new=[]
for m in mods:
    importlib.import_module('contracts.'+m)
import contracts
for c in REG.contracts:
    if c.spec.__module__ in ['contracts.'+m for m in mods]: new.append(c)
from dbg import prog
pat=sys.argv[2:]
cons=[c for c in new if not c.trusted and (not pat or any(p in c.name or p in c.props for p in pat))]
res=verify.verify_all(prog(),REG,cons,timeout=8000)
ok=0
for n,r in res.items():
    if r.status=='proved' and r.time<20 and not V: ok+=1; continue
    print('%-60s %-12s %5.1fs obl=%d %s'%(n,r.status,r.time,len(r.obls),r.why[:300]))
    if getattr(r,'trace',None): print('\n'.join(r.trace.split('\n')[-(40 if V else 8):]))
    if r.status=='failed':
        for o in r.obls:
            if o['status']!='proved': print('   ',o['name'],o['status'],o['line'],o.get('goal','')[:1500] if V else '', str(o.get('model'))[:300] if V else '')
        for l in r.loops: print('   loop',str(l)[:300])
print(ok,'proved')
