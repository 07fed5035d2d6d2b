"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPS
from meta import META
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for q in PROPS:
        f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['qtext']},
            'why_tests_cant': q['why'], 'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']], 'observe_at': q['observe'], 'hook_needed': None}}) + '\n')
checks, na = [], []
for q in PROPS:
    i = q['id']
    have = os.path.exists(os.path.join(H, 'contracts', i.lower() + '.py')) and i in META
    if have:
        mm = META[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
            'technique': mm.get('technique') or 'contract-based deductive verification of the real Python source (pyvc: obligations discharged by z3/cvc5)',
            'level': mm['level'], 'level_note': mm.get('note') or ('contracts on the functions the property depends on, every obligation discharged for all inputs in exact arithmetic; the same contracts are also evaluated on the running code (bounded, not counted as proved)'
                + ('; assumes: ' + '; '.join(mm['assumptions']) if mm['assumptions'] else ''))})
    else:
        na.append({'property': i, 'reason': q['na'] or 'no contracts written for it yet'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
    'notes': 'pyvc/ is the verifier, contracts/ the specifications on the functions of /repo, concrete/ the evaluation of the same contracts on the running code; see DESIGN.md'},
    open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
