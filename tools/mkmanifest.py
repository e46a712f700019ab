#!/usr/bin/env python3
import json,sys
sys.path.insert(0,'/verif')
from checks import CHECKS
NA={'E01':'Needs the algebraic correctness of row reduction, canonical forms and group actions over all matrices: a functional-correctness statement over runtime matrices that no static argument in reach bounds; its structural parts are decided as C01, C02, C05, C06, C10, C21, C25.',
'E02':'A computational-hardness statement; not a property of the source that static analysis can decide.',
'E03':'A statement about output distributions; static analysis decides the supports (C19, C20), not the probabilities.',
'E04':'Functional correctness of pivoting and of an in-place recursive column sort quantifies over runtime matrices; no sound static argument in reach.',
'E05':'LESS does not claim it: sampling by rejection, pivot search and sorting branch on secret-dependent data by design; the helpers meant to be constant time are decided as C24.'}
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
TECH='static analysis: abstract interpretation over LLVM IR with a value-graph (value-numbering) domain, taint/definedness attributes and finite value-set tables'
checks=[]; na=[]
for p in props:
    if p in CHECKS:
        c=CHECKS[p]; d=dict(property=p,quick_cmd='python3 /verif/check.py '+p,thorough_cmd='python3 /verif/check.py %s --thorough'%p,evidence_file='evidence/%s.json'%p,technique=c.get('technique',TECH),level=c.get('level','other'),level_note=c.get('level_note',c['rule']))
        checks.append(d)
    else: na.append(dict(property=p,reason=NA.get(p,'Not decided statically.')))
json.dump(dict(version=1,setup_cmd='bash /verif/engine/build.sh',checks=checks,not_applicable=na,notes='Driver: check.py; rules: checks.py; analyser: engine/; specifications: harness/.'),open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
