#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import meta
NA = getattr(meta, 'NA', [])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in meta.PROPS:
        assert len(p['title']) <= 80, p['title']
        for x in p['files']:
            assert os.path.exists(os.path.join('/repo', x)), x
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
na = {p for p, _ in NA}
NOTE = ('Every path of the real code within the stated bounds (sizes, value ranges, iteration limits; see evidence and DESIGN.md) is executed with symbolic inputs and each obligation is discharged by z3 over exact reals; '
        'counterexamples are replayed on the unmodified code before they are reported. Trusted: the engine (term arithmetic, numpy/math shims, LLVM rewriting of the compiled core), z3; outside: sizes beyond the bounds and floating-point rounding.')
checks = []
for p in meta.PROPS:
    if p['id'] in na or not os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py')):
        assert p['id'] in na, p['id']
        continue
    checks.append(dict(property=p['id'], quick_cmd='./run.py check %s --tier quick' % p['id'], thorough_cmd='./run.py check %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                       technique='symbolic execution of the real Python and compiled C++ code with z3', level='model_checking', level_note=NOTE + (' ' + p['note'] if p['note'] else '')))
json.dump(dict(version=1, setup_cmd='./run.py build', checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA]), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
