#!/usr/bin/env python3
"""Development tool: writes DESIGN.md from design_static.md, oracles.py, registry.py, props/*.py and seeded/"""
import ast, glob, json, os, runpy, re
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
R = runpy.run_path(H + '/registry.py')
O = runpy.run_path(H + '/oracles.py')['ORACLE']


def info(pid):
    f, = glob.glob(V + '/props/%s_*.py' % pid.lower())
    for s in ast.parse(open(f).read()).body:
        if isinstance(s, ast.Assign) and s.targets[0].id == 'INFO':
            return ast.literal_eval(s.value), os.path.relpath(f, V)


out = [open(H + '/design_static.md').read(), '\n## The properties\n']
for p in sorted(R['PROPS'], key=lambda p: p['id']):
    if p.get('na'):
        continue
    i, f = info(p['id'])
    out.append('### %s %s\n\n%s\n\n* how: %s\n* real code executed: %s\n* bounds: %s\n* outside: %s\n* assumed: %s\n* stand-ins: %s\n'
               '* cost: %s (quick); harness `%s`\n'
               % (p['id'], p['title'], p['statement'], O[p['id']], '; '.join(i.get('functions') or [a for a, _ in p['mech']]),
                  i['bounds'], i['outside'], '; '.join(i['assumptions']) or '-', '; '.join(i['stubs']) or '-',
                  R['COST'].get(p['id'], 'below two minutes'), f))
out.append('\n## Not applicable\n')
for n in R['NA']:
    out.append('* %s: %s' % (n['property'], n['reason']))
out.append(R.get('NA_TEXT', ''))
out.append('\n## Defects found in PyGnome\n\nEach was shown by a counterexample on the real code. Repaired ones (`fix:` commits):\n')
for k in json.load(open(V + '/known_findings.json')):
    out.append('* ' + k['what'])
out.append('\n## Planted bugs and which checks catch them\n\n| change | property | needs | caught by |\n|---|---|---|---|')
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['needs'],
                                          R['CAUGHT'].get(os.path.basename(os.path.dirname(m)), j['property'])))
out.append(R.get('TAIL', ''))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
