#!/usr/bin/env python3
"""Records the signatures and local names that the annotations refer to (vc/baseline.json), so that renamed functions and variables are still matched."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vc'))
from gen import Session
from contract import symbols
s = Session()
b = {}
for c in s.clist:
    if c.decl is not None:
        b[s.contracts.cid(c)] = symbols(c.decl) | {'internal': c.decl.node.get('storageClass') == 'static' and c.decl.cls is None}
s.contracts.baseline = {}
for c in s.clist:
    if c.decl is not None and not c.trusted:
        b[s.contracts.cid(c)]['loops'] = s.vc(c).loopsigs
b['*functions'] = sorted(s.repo.by_q)
json.dump(b, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vc', 'baseline.json'), 'w'), indent=0, sort_keys=True)
print(len(b) - 1, 'functions')
