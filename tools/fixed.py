#!/usr/bin/env python3
"""fixed.py PROP COMMIT-SUBJECT-SUBSTRING WHAT: record a repaired defect in known_findings.json"""
import json, subprocess, sys
prop, sub, what = sys.argv[1:]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
h = [l.split(' ', 1)[0] for l in log if sub in l]
assert len(h) == 1, h
k = json.load(open('/verif/known_findings.json'))
e = 'fixed: property=%s %s %s' % (prop, h[0], what)
if e not in k['fixed']:
    k['fixed'].append(e)
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
