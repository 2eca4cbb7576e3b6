#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools')); sys.dont_write_bytecode = True
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/vrun.py --setup', checks=[], not_applicable=[],
         notes='No hooks in /repo: the harnesses use the public interface. Known and fixed findings: known_findings.txt. See DESIGN.md.')
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 tools/vrun.py %s quick' % p, thorough_cmd='python3 tools/vrun.py %s thorough' % p,
                                technique=c.get('technique', 'explicit-state exploration of the real code: exhaustive enumeration of operation/argument choice sequences within bounds, each against an exact reference'),
                                level=c.get('level', 'model_checking'),
                                level_note=c.get('note', 'Exhaustive within the stated finite spaces (see DESIGN.md and the scenarios in the evidence); says nothing outside them. Trusts the compiler, LAPACK and the reference geometry in long double.')))
    else:
        m['not_applicable'].append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
