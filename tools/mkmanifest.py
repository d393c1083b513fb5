#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the contract files present."""
import json, re, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
have = {}
for f in glob.glob(R + '/contracts/*.cpp'):
    for p in re.findall(r'\bVC\w*\(\s*([A-Z]\d\d)\s*,', open(f).read()): have.setdefault(p, set()).add(os.path.basename(f))
NA = json.load(open(R + '/tools/not_applicable.json'))
NOTE = json.load(open(R + '/contracts/assumptions.json'))
checks = []
na = []
for p in props:
    i = p['id']
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3-vt lvc/run.py %s' % i, thorough_cmd='python3-vt lvc/run.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='contract-based deductive verification of the real headers (LLVM IR extracted on every run, VCs discharged by ring normal form, z3 and cvc5)',
            level='proof',
            level_note='Contracts in %s; every obligation discharged for all inputs, loops by invariant or complete unrolling of constant bounds. Trusted: clang/opt lowering, the lvc verifier, z3/cvc5.%s' % (', '.join('contracts/' + x for x in sorted(have[i])), (' ' + ' '.join(NOTE[i])) if NOTE.get(i) else '')))
    else: na.append(dict(property=i, reason=NA.get(i, 'No contract for it has been completed yet in this family; not claimed.')))
m = dict(version=1, setup_cmd='python3-vt -m py_compile lvc/run.py lvc/exec.py lvc/ir.py lvc/terms.py lvc/solve.py lvc/ring.py lvc/builtins_vf.py', checks=checks, not_applicable=na,
    notes='lvc/ is the deductive verifier, contracts/ the machine-checked contracts over the real headers; no hooks in /repo are needed.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
