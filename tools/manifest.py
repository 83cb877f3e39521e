#!/usr/bin/env python3
"""writes MANIFEST.json from units.PROPS"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from units import PROPS
TECH = {'kani': 'contracts as Hoare triples on the unmodified crate, discharged by Kani/CBMC, loop-free and unbounded',
        'verus': 'contracts and loop invariants on the functions extracted from /repo on every run, discharged by Verus/Z3'}
checks = []
for p, c in sorted(PROPS.items()):
    t = [TECH[k] for k in ('verus', 'kani') if c.get(k)]
    note = c.get('note') or ('every obligation of the contracts is discharged for all inputs on each run; a search on the real code gives failing inputs for failed obligations'
        if c['level'] == 'proof' else 'bounded: searched on the real code against an executable contract; not counted as proved')
    checks.append(dict(property=p, quick_cmd='./check.py %s quick' % p, thorough_cmd='./check.py %s thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=c.get('technique') or '; '.join(t) or 'bounded check of the contract on the real code', level=c['level'], level_note=note))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
               notes='One driver (check.py) for all properties; see DESIGN.md. No hooks in /repo. known_findings.txt lists the repaired defects.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
