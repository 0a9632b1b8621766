#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the specs present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = {}
exec(open(V + '/tools/notes.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/specs/%s.py' % (V, i)) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique=TECH.get(i, 'contract-based deductive verification: weakest-precondition style symbolic execution of the real functions, obligations discharged by normal forms and SMT'),
                           level=LEVEL.get(i, 'proof'), level_note=NOTE.get(i, '') + BASE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'the contracts for this property are not written yet')))
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the contracts are written outside the sources and attached to the functions by name. Commits starting with fix: repair defects listed in known_findings.txt.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
