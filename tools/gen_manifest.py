#!/usr/bin/env python3
# Writes MANIFEST.json from the job tables: every property with jobs is claimed.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import jobs as J
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
NA = getattr(J, 'NOT_APPLICABLE', {})
LN = 'every assertion is decided by the solver for all values within the bounds listed per job in the evidence (DESIGN.md section on the property); trusts clang-18 lowering, the llsym interpreter and term rewriting, Z3; hash primitives are uninterpreted functions unless the property is about them; counterexamples are replayed on the natively compiled code before they are reported'
m = {'version': 1, 'setup_cmd': 'make -s -C engine O=../build/engine', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in J.JOBS: m['checks'].append({'property': i, 'quick_cmd': f'python3 run.py {i} --tier quick', 'thorough_cmd': f'python3 run.py {i} --tier thorough', 'evidence_file': f'evidence/{i}.json', 'technique': J.TECH.get(i, 'symbolic execution of the LLVM IR of the real code (llsym) with state merging; goals decided by SMT (Z3) over bit-vectors and uninterpreted hash functions'), 'level': 'model_checking', 'level_note': J.NOTE.get(i, '') + LN})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'machinery for this property is not built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
