import z3, re
from cxxv import abstract as ab
def explain(hyps, goal):
    A=ab.Abs()
    hs=[A.tr(h) for h in hyps]; g=A.tr(goal)
    for _ in range(2): hs += A.definitions(hyps)
    hs += A.literal_steps(hs+[g])
    s=z3.Solver(); s.set('timeout',5000)
    for h in hs+A.lemmas: s.add(h)
    if len(A.lits)>1: s.add(z3.Distinct(*A.lits.values()))
    s.add(z3.Not(g))
    r=s.check(); print('abs',r)
    if r!=z3.sat: return
    m=s.model()
    ev=lambda x: m.eval(x,model_completion=True)
    sh=lambda x: re.sub(r'\s+',' ',str(x))[:400]
    def walk(t,d=0):
        if z3.is_app_of(t,z3.Z3_OP_ITE):
            c=ev(t.arg(0)); print(' '*d,'cond',c, sh(t.arg(0)))
            atoms(t.arg(0),d+1)
            return walk(t.arg(1) if z3.is_true(c) else t.arg(2),d+1)
        print(' '*d,'=>',sh(t), ev(t))
    seen=set()
    def atoms(c,d):
        for x in ab.subterms(c):
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_bool(x) and not (z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_app_of(x,z3.Z3_OP_ITE)) and ev(x) is not None:
                print(' '*d,'  atom',ev(x),sh(x))
    if z3.is_eq(g):
        walk(g.arg(0)); print('---- vs'); 
        r=g.arg(1)
        walk(r)
        # definitions of rhs
        for h in hs:
            if z3.is_implies(h): h=h.arg(1)
            if z3.is_eq(h) and (h.arg(0).eq(r)): walk(h.arg(1))
        for h in hs:
            if z3.is_eq(h) and z3.is_app(h.arg(0)) and h.arg(0).decl().name().startswith('@line_'):
                print('DEF',sh(h.arg(0)),ev(h.arg(0))); walk(h.arg(1)); 
                if z3.is_bool(h.arg(0)): atoms(h.arg(1),0)


def explain2(hyps, goal):
    """both sides of the goal as lists of atoms, resolved in the countermodel of the weakened problem"""
    S = ab.Session()
    r = S.check(hyps, goal, 8000)
    print('abs', r)
    S.s.push(); S.s.add(z3.Not(S.A.tr(goal))); r = S.s.check()
    if r != z3.sat: return
    m = S.s.model()
    ev = lambda x: m.eval(S.A.tr(x), model_completion=True)
    defs = {}
    for f in hyps:
        g, e = (f.arg(0), f.arg(1)) if z3.is_implies(f) else (None, f)
        if z3.is_and(e): es = e.children()
        else: es = [e]
        for e in es:
            if z3.is_eq(e) and e.arg(0).sort() == ab.STR:
                for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if z3.is_string_value(a) or z3.is_app_of(a, z3.Z3_OP_SEQ_CONCAT) or z3.is_app_of(a, z3.Z3_OP_ITE): continue
                    defs.setdefault(a.get_id(), []).append((g, b))
    def norm(t, out, used=()):
        if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
            for c in t.children(): norm(c, out, used)
        elif z3.is_app_of(t, z3.Z3_OP_ITE): norm(t.arg(1) if z3.is_true(ev(t.arg(0))) else t.arg(2), out, used)
        elif z3.is_string_value(t): out.append(t)
        elif t.decl().name() == 'indent_lines': out.append('INDENT'); norm(t.arg(0).arg(0), out)
        else:
            for g, b in defs.get(t.get_id(), []):
                if (g is None or z3.is_true(ev(g))) and t.get_id() not in used and not z3.is_const(b): return norm(b, out, used + (t.get_id(),))
            if z3.is_app(t) and t.num_args() and t.arg(0).sort() == ab.STR:
                o = []
                norm(t.arg(0), o)
                out.append(t.decl().name() + '(' + ' . '.join(show(x) for x in o) + ')')
            else: out.append(t)
    def show(x): return re.sub(r'\s+', ' ', str(x))[:160] + ('' if isinstance(x, str) else '')
    def str_leaf(t):
        # find the first stored / indented text inside
        return t
    def texts(t):
        if t.sort() == ab.STR: return [t]
        if z3.is_app_of(t, z3.Z3_OP_STORE): return [t.arg(2)] if t.arg(2).sort() == ab.STR else []
        if z3.is_app_of(t, z3.Z3_OP_ITE): return texts(t.arg(1) if z3.is_true(ev(t.arg(0))) else t.arg(2))
        return []
    for side in goal.children():
        print('----')
        for t in texts(side):
            o = []
            norm(t, o)
            for x in o: print('  ', re.sub(r'\s+', ' ', str(x))[:4000])
