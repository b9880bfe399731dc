"""obl.py <modules> <contract> [obligation substring]: fast run; explain the obligations that fail"""
import sys
import dbg, time, z3
from cxxv import verify, solve
from cxxv.spec import REG
import absdbg
P = dbg.prog()
con = [c for c in REG.contracts if c.name == sys.argv[2]][0]
so = solve.prove
def pr(h, g, t, **k):
    t0 = time.time()
    r = so(h, g, t, **k)
    print(r.status, r.backend, round(time.time() - t0, 2), str(g).replace('\n', ' ')[:100], flush=True)
    if r.status != 'proved' and (len(sys.argv) < 4 or sys.argv[3] in str(g)):
        print(sorted(k.get('reveal', ())))
        I = solve.Inst(k.get('reveal', ()), 4, k.get('axioms', ()))
        E = I.add(h + [g])
        print([x.arg(0).decl().name() for x in E if z3.is_eq(x)])
        absdbg.explain2(h + E, g)
        sys.exit()
    return r
solve.prove = pr
t0 = time.time()
R = verify.run1(P, REG, con, 8000, False, (), True)
print(R.status, R.why, R.time)
