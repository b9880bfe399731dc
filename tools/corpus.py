import sys; sys.path.insert(0,'/verif')
from replay import build, e2e
import time
only=set(sys.argv[1:]) 
with build.Scratch() as S:
    exe=S.binder()
    for c in e2e.cases():
        if only and c not in only: continue
        t=time.time(); rc,out,err=e2e.run_case(S,c,exe); r=e2e.render(rc,out)
        p='%s/%s/expect.txt'%(e2e.CORPUS,c)
        try: old=open(p,encoding='latin-1').read()
        except OSError: old=None
        if old!=r:
            print(c,'changed' if old is not None else 'new',rc,len(r),round(time.time()-t,1)); print(err[-300:] if rc else '', end='')
            if old is not None: print('\n'.join(e2e.diff(old,r)))
            open(p,'w',encoding='latin-1').write(r)
            for l in err.split('\n'):
                if 'error:' in l: print('   ', l)
