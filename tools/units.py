import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/tools'); sys.setrecursionlimit(100000)
import importlib
for m in sys.argv[1].split(','): importlib.import_module('contracts.'+m)
from dbg import prog
from cxxv.spec import REG
from replay import build, unitcheck
from replay.units import UNITS
import time
P=prog()
with build.Scratch() as S:
    t=time.time(); S.objects(); print('build',time.time()-t)
    for c in REG.contracts:
        if c.name in UNITS and (len(sys.argv)<3 or sys.argv[2] in c.name):
            t=time.time(); r=unitcheck.check_unit(S,P,REG,c,1); print(c.name,r,round(time.time()-t,1))

    for n,m in S.log: print('LOG',n,m[:600])
