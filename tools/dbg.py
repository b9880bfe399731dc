import sys, time, os, pickle
sys.path.insert(0,'/verif'); sys.setrecursionlimit(100000)
from cxxv import cast, verify, loops, solve
from cxxv.spec import REG
import importlib, z3
for m in sys.argv[1].split(','): importlib.import_module('contracts.'+m)
def prog():
    import subprocess
    h=subprocess.check_output('cat %s/source/*.cpp %s/source/*.hpp /verif/cxxv/cast.py|sha1sum'%(cast.REPO,cast.REPO),shell=True).decode()[:16]
    p='/tmp/prog_%s.pkl'%h
    if os.path.exists(p): return pickle.load(open(p,'rb'))
    P=cast.Program()
    P.text_hash=P.text_hash.hexdigest(); pickle.dump(P,open(p,'wb'),protocol=4)
    return P
if __name__=='__main__':
    P=prog()
    name=sys.argv[2]
    con=[c for c in REG.contracts if c.name==name][0]
    op=loops.prove
    N=[0]
    def pr(h,g,t,**k):
        if os.environ.get('DUMP') and t==3000 and os.environ['DUMP'] in g.sexpr():
            sys.path.insert(0,'/verif/tools'); import absdbg
            I=solve.Inst(k.get('reveal',()),4,k.get('axioms',()))
            ex=I.add(h+[g])
            print('G',g.sexpr()[:3000])
            absdbg.explain(h+ex,g)
            sys.exit()
        t0=time.time(); r=op(h,g,t,**k); dt=time.time()-t0
        N[0]+=1
        if r.status!='proved' and t>=2500 or dt>1: print(N[0],r.status,r.backend,round(dt,2),str(g).replace('\n',' ')[:int(os.environ.get('W','300'))], r.reason)
        if os.environ.get('DUMP')==str(N[0]):
            sys.path.insert(0,'/tmp'); import absdbg
            I=solve.Inst(k.get('reveal',()),4,k.get('axioms',()))
            ex=I.add(h+[g])
            print('G',g.sexpr()[:3000])
            absdbg.explain(h+ex,g)
            sys.exit()
        return r
    loops.prove=pr
    so=solve.prove
    r=verify.run(P,REG,con)
    print(r.status,r.why,r.time,len(r.obls),getattr(r,'trace',''))
    for o in r.obls:
        if o['status']!='proved': print('   ',o['name'],o['status'],o['line'],o.get('goal','')[:600])
    for l in r.loops: print('   loop',str(l)[:1500])
