#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registered checks (authoring aid)."""
import sys, json, os
sys.path.insert(0, '/verif')
from jarlsa import core, checks
NA = {
 'N01': 'equality of the values computed by two R programs is a runtime quantity; the R evaluator is not part of the code base',
 'N02': 'termination and idempotence depend on the texts every fix produces for every program; no static argument in reach bounds them',
 'N04': 'running time is a runtime quantity that the family cannot bound here',
 'N05': 'quantifies over executions of the analysed R program; needs a semantic model of R control flow, not a property of the Rust source',
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='./check setup', checks=[], not_applicable=[], notes='All checks are static analyses of the current /repo sources; see DESIGN.md. /repo carries no hooks.')
for p in props:
    i = p['id']
    if i in core._CHECKS:
        f, tech = core._CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i,
                                technique=tech, level='other',
                                level_note=(f.__doc__ or 'decides the structural clauses listed in DESIGN.md').strip()))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check claimed yet')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
