#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os
import jobs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C23': 'A statement about the distribution of answers over 2^64 or 2^256 keys outside the set: counting models over a hash, not an assertion over one bounded execution that an SMT solver can decide.',
    'C24': 'Computational indistinguishability under LWE hardness is not an assertion over executions; the structural part (mask independent of the target, fresh ternary secrets, single use) is claimed as C05, C06 and C22.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1,
     'setup_cmd': 'sh tools/setup.sh',
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in jobs.PROPS:
        p = jobs.PROPS[i]
        m['checks'].append({
            'property': i,
            'quick_cmd': './check %s quick' % i,
            'thorough_cmd': './check %s thorough' % i,
            'technique': 'symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3)',
            'level': 'model_checking',
            'level_note': 'Bounded: ' + p['bounds'] + ('. Outside: ' + p['outside'] if p['outside'] else '')
                          + '. Trusted: rustc/LLVM, the engine, z3; counterexamples and sampled paths are rerun natively.',
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
