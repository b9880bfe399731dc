"""Run a function of the compiled tree on many inputs and compare with its contract."""
import random, z3, os
from cxxv import verify, conc
from cxxv.terms import *
from . import build
from .units import UNITS


def to_env(td, v, name, env):
    if td[0] == 'map':
        env[name + '.dom'] = conc.Arr(False, {k: True for k in v})
        env[name + '.val'] = conc.Arr('', dict(v))
    elif td[0] == 'set': env[name] = conc.pyset(v)
    elif td[0] == 'vec': env[name] = tuple(v)
    else: env[name] = v


def outval(v):
    if isinstance(v, conc.Arr): return tuple(sorted(k for k, x in v.d.items() if x))
    if isinstance(v, tuple) and v and v[0] == 'mk':
        if isinstance(v[1], conc.Arr): return {k: v[2].get(k) for k, x in v[1].d.items() if x}
    return v


class Oracle:
    def __init__(self, prog, reg, con, unit):
        s = verify.setup(prog, reg, con)
        if s is None: raise Unsupported('no such function')
        self.s, self.unit, self.k = s, unit, s.k
        if unit.outs: self.outs = unit.outs(s.k)
        elif isinstance(s.k.res, V): self.outs = [pack(x) for x in s.k.res.t] if s.k.res.td[0] == 'pair' else [pack(s.k.res)]
        else: self.outs = [s.k.res]

    def env(self, d):
        e = {}
        for key, v in d.items():
            if isinstance(key, int):
                p = self.s.f.params[key]
                to_env(td_of(p.ty), v, p.name, e)
            elif isinstance(v, dict): to_env(('map',), v, key, e)
            elif isinstance(v, list): to_env(('vec',), v, key, e)
            else: e[key] = v
        if self.unit.envf: e.update(self.unit.envf(d))
        return e

    def __call__(self, d):
        """expected answer line, or None when the contract does not say"""
        e = self.env(d)
        try:
            for r in self.k.req:
                if not conc.ev(r, e): return None
            if self.k.raise_ is not None and conc.ev(self.k.raise_, e): return 'throw'
            vs = [outval(conc.ev(t, e)) for t in self.outs]
            if any(v is None for v in vs): return None
            return ('ok ' + ' '.join(build.enc(v) for v in vs)).strip()
        except conc.Undefined:
            return None


def show(d): return {str(k): v for k, v in d.items()}


def check_unit(scratch, prog, reg, con, seed, n=4000, models=()):
    """returns (status, cases tried, failing case or None);  status ok | fail | na"""
    u = UNITS.get(con.name)
    if u is None: return 'na', 0, None
    exe = scratch.unit(con.name, u.cpp, getattr(u, 'include', ''))
    if exe is None: return 'na', 0, None
    try: orc = Oracle(prog, reg, con, u)
    except Exception as e:
        scratch.log.append((con.name, 'oracle: %r' % e))
        return 'na', 0, None
    r = random.Random(seed)
    cases = []
    if getattr(u, 'nomodels', False): models = ()
    for m in models:        # the verifier's counterexamples first
        d = {}
        ok = True
        for key in u.names:
            nm = orc.s.f.params[key].name if isinstance(key, int) else key
            if nm in m: d[key] = m[nm]
            else:
                g = u.gen(r)
                d[key] = g[key]
        cases.append(d)
    n = min(n, getattr(u, 'limit', n))
    cases += u.fixed + [u.gen(r) for _ in range(n)]
    exp, use, seen = [], [], set()
    for d in cases:
        try:
            line = ' '.join(build.enc(d[key]) for key in u.names)
        except (TypeError, UnicodeEncodeError, KeyError): continue
        if line in seen: continue
        seen.add(line)
        x = orc(d)
        if x is None: continue
        exp.append(x)
        use.append((line, d))
    got = build.run_unit(exe, [l for l, _ in use], cwd=scratch.dir)
    for g, x, (l, d) in zip(got, exp, use):
        if g == 'skipped': break
        if g.strip() != x.strip(): return 'fail', len(use), {'function': con.name, 'input': show(d), 'expected': decode(x), 'got': decode(g), 'case': l, 'adapter': u.cpp, 'include': getattr(u, 'include', '')}
    return 'ok', len(use), None


def decode(line):
    out = []
    for t in line.split(' '):
        if t[:1] == 'x': 
            try: out.append(repr(bytes.fromhex(t[1:]).decode('latin-1')))
            except ValueError: out.append(t)
        else: out.append(t)
    return ' '.join(out)
