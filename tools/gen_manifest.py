#!/usr/bin/env python3
"""Development tool: writes properties.jsonl and MANIFEST.json from tools/registry.py"""
import json, os, runpy
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
R = runpy.run_path(os.path.join(H, 'registry.py'))
with open(V + '/properties.jsonl', 'w') as f:
    for p in R['PROPS']:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None))) + '\n')
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 3, p['id']
checks = []
na = list(R['NA'])
for p in R['PROPS']:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    checks.append(dict(
        property=p['id'], quick_cmd='./check.py %s --tier quick' % p['id'],
        thorough_cmd='./check.py %s --tier thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=p.get('technique', 'bounded symbolic execution of the real Python code with z3, '
                        'counterexamples replayed on the unpatched build'),
        level='model_checking',
        level_note=p['note']))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='All checks: ./check.py ID. Bounds, assumptions and what lies outside are '
                     'in props/*.py (INFO), repeated in evidence and DESIGN.md. No hooks are '
                     'needed in /repo.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
