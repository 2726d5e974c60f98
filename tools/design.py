#!/usr/bin/env python3
"""DESIGN.md from the texts, the checks and the findings"""
import ast, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import meta
rd = lambda f: open(os.path.join(ROOT, f)).read()
out = [rd('tools/design_head.md')]
kf = json.loads(rd('known_findings.json'))
out += ['* known: **%s** (%s) – %s' % (f['id'], f['property'], f['what']) for f in kf['findings']]
out += ['* %s' % f for f in kf['fixed']]
tail = rd('tools/design_tail.md')
out.append('\n## Properties\n')
for p in meta.PROPS:
    f = os.path.join(ROOT, 'checks', p['id'] + '.py')
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    if not os.path.exists(f):
        out.append('Not applicable: ' + dict(meta.NA)[p['id']] + '\n')
        continue
    v = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('FUNCTIONS', 'REACH', 'DECIDES'):
            v[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS':
            v['BOUNDS'] = {k.arg: ast.literal_eval(k.value) for k in n.value.keywords}
    h = [n for n in ast.parse(open(f).read()).body if isinstance(n, ast.FunctionDef) and n.name.startswith('h_')]
    out.append('* code executed symbolically: ' + '; '.join(v['FUNCTIONS']))
    out.append('* anchors: ' + '; '.join('%s – %s' % m for m in p['mech']))
    out.append('* bounds, quick: %s. Thorough: %s' % (v['BOUNDS']['quick'], v['BOUNDS']['thorough']))
    out.append('* situations that have to be reached: ' + ', '.join(v.get('REACH', [])))
    out.append('* harnesses (`checks/%s.py`): ' % p['id'] + '; '.join('`%s`%s' % (n.name, (' – ' + ast.get_docstring(n).split('\n')[0]) if ast.get_docstring(n) else '') for n in h))
    out.append('* why tests cannot: ' + p['why'] + ('\n* note: ' + p['note'] if p['note'] else '') + '\n')
if meta.NA:
    out.append('## Not applicable\n')
    out += ['* %s: %s' % x for x in meta.NA]
out.append(tail)
caught = json.loads(rd('tools/caught.json')) if os.path.exists(os.path.join(ROOT, 'tools/caught.json')) else {}
S = os.path.join(ROOT, 'seeded')
for s in sorted(os.listdir(S)):
    m = json.loads(rd('seeded/%s/meta.json' % s))
    out.append('* `%s` (%s): %s. Needs: %s. %s' % (s, m['property'], m['what_it_breaks'], m['needs'], caught.get(s, '')))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
