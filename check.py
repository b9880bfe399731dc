#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]

Decide one property: prove every contract tagged with it against the bodies in /repo's current working tree.
  every obligation discharged                      -> exit 0
  an obligation fails                              -> search for a failing input on the real code, exit 1
  a function is outside the verifier's reach       -> bounded stand-in for that function (labelled), exit 0 or 1
Writes evidence/<property>.json."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json, time, threading, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
import contracts
from cxxv import cast, verify, solve
from cxxv.spec import REG
from replay import build, unitcheck, e2e

TRUSTED = ['clang 14 JSON AST dump of /repo/source (the verified text is that dump, regenerated on every run)',
           'cxxv symbolic executor and its models of std::string/vector/set/map/pair/streams and of clang/LLVM accessors (cxxv/models.py)',
           'z3 4.8/python API and cvc5 1.1.2 (unsat answers)', 'z3/cvc5 string theory over 8-bit characters']
ASSUME = ['partial correctness: termination and resource exhaustion are not proved',
          'machine integers are mathematical, except that size_t arithmetic around npos/underflow wraps at 2^64; strings are shorter than 2^62 characters',
          'AST accessors of clang/LLVM are total, deterministic, side-effect-free functions of their receiver (uninterpreted unless stated in cxxv/models.py)']


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(HERE + '/evidence/replay', exist_ok=True)
    contracts.load()
    mine = [c for c in REG.contracts if prop in c.props and not c.trusted]
    trusted = [c for c in REG.contracts if c.trusted and prop in c.props]
    notes, bounded, viol = [], [], []
    try:
        prog = cast.Program()
    except cast.FrontEndError as e:
        prog = None
        notes.append('front end: ' + str(e)[:500])
    res = {}
    if prog is not None:
        wall = 480 if tier == 'quick' else 3000
        res = verify.verify_all(prog, REG, mine, timeout=8000 if tier == 'quick' else 30000, wall=wall)
        again = [c for c in mine if res[c.name].status == 'failed' and not any(o['status'] == 'sat' for o in res[c.name].obls)]
        if again and time.time() - t0 < 300:    # an unknown may be a solver that ran out of time: once more, with more of it
            r2 = verify.verify_all(prog, REG, again, timeout=25000, wall=200, jobs=3)
            for c in again:
                if r2[c.name].status == 'proved': res[c.name] = r2[c.name]
    cov = {'cases': 0, 'corpus': 0}
    with build.Scratch() as S:
        fails = [c for c in mine if c.name in res and res[c.name].status == 'failed']
        out_of_reach = [c for c in mine if c.name not in res or res[c.name].status not in ('proved', 'failed')]
        need = bool(fails or out_of_reach)
        extra = mine if tier == 'thorough' else []
        corpus_done = None

        def corpus():
            nonlocal corpus_done
            if corpus_done is None:
                corpus_done = e2e.check(S, prop)
                cov['corpus'] = len(corpus_done[0])
            return corpus_done
        if need or extra or contracts.BOUNDED.get(prop):
            try: S.objects()
            except build.BuildError as e:
                notes.append('scratch build failed: %s' % e)
                need = False
                extra = []
                if fails:
                    for c in fails: viol.append((c, None))
                fails = []
        if need or extra:
            left = lambda: 860 - (time.time() - t0) if tier == 'quick' else 1e9
            found = False
            # concrete failing inputs: the function itself, against its contract
            for c in fails + out_of_reach + [c for c in extra if c not in fails and c not in out_of_reach]:
                if left() < 60: break
                r = res.get(c.name)
                st, n, case = unitcheck.check_unit(S, prog, REG, c, seed, n=1500 if tier == 'quick' else 4000, models=r.inputs if r else ()) if prog is not None else ('na', 0, None)
                cov['cases'] += n
                if st == 'fail':
                    viol.append((c, case))
                    found = True
                elif c in out_of_reach: bounded.append({'function': c.qname, 'why': r.why if r else 'front end', 'stand_in': 'differential test against the contract, %d inputs' % n if st == 'ok' else 'end-to-end corpus'})
            bad = []
            if left() > 60:
                try: done, bad = corpus()
                except build.BuildError as e: notes.append(str(e)[:300])
                for b in bad: viol.append((fails[0] if fails else out_of_reach[0] if out_of_reach else None, b))
            if not viol:
                for c in fails: viol.append((c, None))
            else:
                notes += ['also unproved: ' + c.name for c in fails if not any(v[0] is c for v in viol)]
        if contracts.BOUNDED.get(prop) and corpus_done is None and S.objs:
            try:
                done, bad = corpus()
                for b in bad: viol.append((None, b))
            except build.BuildError as e: notes.append(str(e)[:300])
        if contracts.BOUNDED.get(prop): bounded.append({'functions': contracts.BOUNDED[prop], 'stand_in': 'end-to-end corpus, %d cases' % cov['corpus']})
        notes += ['%s: %s' % (n, m.strip().split('\n')[0][:200]) for n, m in S.log]
    evidence(prop, tier, seed, t0, mine, trusted, res, prog, bounded, notes, cov, viol)
    for f in known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, f))
    st = [res[c.name].status if c.name in res else 'unsupported' for c in mine]
    print('%s: %d contracts, %d proved, %d failed, %d out of reach; %d obligations; %.0f s' % (prop, len(mine), st.count('proved'), st.count('failed'), len(st) - st.count('proved') - st.count('failed'), sum(len(r.obls) for r in res.values()), time.time() - t0))
    for c in mine:
        r = res.get(c.name)
        if r is not None and r.status != 'proved': print('  %s: %s %s' % (c.name, r.status, r.why or '; '.join(o['name'] for o in r.obls if o['status'] != 'proved')[:300]))
    if not viol: return 0
    for i, (c, case) in enumerate(viol[:3]):
        p = '%s/evidence/replay/%s-%d.json' % (HERE, prop, i)
        r = res.get(c.name) if c is not None else None
        json.dump({'property': prop, 'function': c.qname if c is not None else None,
                   'failed_obligations': [o for o in r.obls if o['status'] != 'proved'] if r is not None else [], 'why': r.why if r is not None else '',
                   'failing_input': case, 'replay': 'python3-vt replay.py ' + p if case else None}, open(p, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if case is not None else ' no-failing-input-found'))
    return 1


def known(prop):
    out = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop): out.append(l.split(' ', 2)[2])
    except OSError: pass
    return out


def evidence(prop, tier, seed, t0, mine, trusted, res, prog, bounded, notes, cov, viol):
    rs = [res[c.name] for c in mine if c.name in res]
    ob = [o for r in rs for o in r.obls]
    be = {}
    for o in ob: be[o['backend'] or 'none'] = be.get(o['backend'] or 'none', 0) + (o['status'] == 'proved')
    ext = sorted(set(x for r in rs for x in r.externals))
    std = sorted(set(x for r in rs for x in r.std))
    used = sorted(set(x for r in rs for x in r.used))
    names = set(c.name for c in mine)
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 1), 'violations': len(viol),
         'coverage': {'obligations': len(ob), 'discharged': sum(o['status'] == 'proved' for o in ob), 'checker_cmd': 'python3-vt check.py %s' % prop,
                      'trusted_base': TRUSTED,
                      'explanation': 'functions of /repo/source under contract for this property, each proved against its body with callees replaced by their contracts',
                      'functions_under_contract': [{'function': r.name, 'at': '%s:%s' % (r.file, r.line), 'status': r.status, 'why': r.why, 'obligations': len(r.obls), 'seconds': round(r.time, 1), 'loops': r.loops, 'inlined': r.inlined} for r in rs],
                      'discharged_by': be, 'solver_seconds': round(sum(getattr(r, 'stats', {}).get('time', 0) for r in rs), 1), 'solver_queries': sum(getattr(r, 'stats', {}).get('queries', 0) for r in rs),
                      'contracts_used_at_call_sites': used, 'of_these_proved_under_other_properties': [u for u in used if u not in names],
                      'bounded': bounded, 'unit_cases_run_on_the_compiled_code': cov['cases'], 'corpus_cases_run': cov['corpus'],
                      'source_hash': prog.text_hash.hexdigest() if prog is not None else None},
         'assumptions': ASSUME + ['assumed, not proved: ' + c.name + ' (' + str(c.trusted) + ')' for c in trusted] + [r.name + ': ' + w for r in rs for w in r.assumed] + ['external functions modelled as uninterpreted: ' + ', '.join(ext)] * bool(ext) + ['library functions modelled: ' + ', '.join(std)] * bool(std) + notes}
    json.dump(d, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1, default=str)


if __name__ == '__main__':
    rc = [3]

    def go(): rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
