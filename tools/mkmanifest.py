import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, R + '/vc')
from props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --thorough', 'technique': 'contract-based deductive verification of the real C++ functions (obligations from the clang AST, discharged by Verus/Z3)' + PROPS[i].get('technique', ''),
                 'level': PROPS[i].get('level', 'proof'), 'level_note': PROPS[i].get('note', 'Every obligation of the functions under contract is discharged for all inputs; trusts the extraction, the model of the C++ library and of system calls, and Verus/Z3.')} for i in ids if i in PROPS],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'not under contract yet')} for i in ids if i not in PROPS],
     'notes': 'See DESIGN.md.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
