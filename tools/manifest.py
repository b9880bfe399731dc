import json, sys
sys.path.insert(0, '/verif/tools')
from props import *
with open('/verif/properties.jsonl', 'w') as f:
    for (i, t, s, over, text, why, files, mech, obs) in PROPS:
        assert len(t) <= 80, (i, len(t))
        f.write(json.dumps({'id': i, 'title': t, 'statement': s, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                            'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': obs, 'hook_needed': None}}) + '\n')
note = 'Every contract tagged with the property is proved against the function body extracted from the current tree, for all inputs and iterations; trusted: the extraction (clang AST), the symbolic executor with its std/clang library models, z3 and cvc5. Functions outside the verifier\'s reach fall back to a bounded differential / end-to-end stand-in, labelled in the evidence.'
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"',
     'checks': [{'property': p, 'quick_cmd': 'python3-vt check.py ' + p, 'thorough_cmd': 'python3-vt check.py %s --thorough' % p,
                 'technique': 'contract-based deductive verification (function contracts proved by symbolic execution + z3/cvc5)', 'level': 'proof', 'level_note': note} for p in CLAIMED],
     'not_applicable': [{'property': p[0], 'reason': NA.get(p[0], 'contracts not finished yet')} for p in PROPS if p[0] not in CLAIMED]}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
