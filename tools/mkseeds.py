#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from tools/seedspecs/*.py and tries them.

  mkseeds.py gen [ID...]      patch.diff, demo.sh, demo.py, meta.json, stand-ins
  mkseeds.py try [ID...]      in a scratch copy: demo 0 on the plain tree, nonzero with the
                              patch; the property's check exits 1
  mkseeds.py try --tests      also the stable tests in the scratch copy (slow)

A spec file defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs,
breaks)].  No registered check reads any of this."""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile, difflib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
DEMO = '''#!/bin/bash
# cwd: /repo, after the build
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$D/standins:$PWD/py_gnome" PYTHONDONTWRITEBYTECODE=1 TZ=UTC
exec timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seedspecs', '*.py'))):
        for s in runpy.run_path(f)['SEEDS']:
            assert s['id'] not in out, s['id']
            out[s['id']] = s
    return out


def gen(s):
    d = os.path.join(VERIF, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = {}
    for f, old, new in s['edits']:
        src = files.get(f)
        if src is None:
            src = subprocess.run(['git', '-C', REPO, 'show', 'HEAD:' + f], stdout=subprocess.PIPE,
                                 check=True).stdout.decode()
            files[f] = src
            files[f + '\0'] = src
        if files[f].count(old) != 1:
            raise SystemExit('%s: %d matches in %s for:\n%s' % (s['id'], files[f].count(old), f, old))
        files[f] = files[f].replace(old, new)
    patch = ''
    for f in [k for k in files if not k.endswith('\0')]:
        a, b = files[f + '\0'].splitlines(True), files[f].splitlines(True)
        patch += 'diff --git a/%s b/%s\n' % (f, f)
        patch += ''.join(difflib.unified_diff(a, b, 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    shutil.copytree(os.path.join(VERIF, 'stubs'), os.path.join(d, 'standins'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def copy():
    t = tempfile.mkdtemp(prefix='seedtry-')
    subprocess.run(['cp', '-a', REPO, t + '/repo'], check=True)
    return t


def native(f):
    return not f.endswith('.py')


def try1(s):
    t = copy()
    try:
        R = t + '/repo'
        env = dict(os.environ, PYTHONPATH='')
        demo = os.path.join(VERIF, 'seeded', s['id'], 'demo.sh')

        def overlay(tag):
            ov = os.path.join(t, tag)
            subprocess.run(['/opt/venv/bin/python', '-m', 'symex.native', ov],
                           cwd=VERIF, env=dict(os.environ, VERIF_REPO=R), check=True,
                           stdout=subprocess.DEVNULL)
            os.makedirs(ov + '/x')
            os.rename(ov + '/gnome', ov + '/x/gnome')
            os.makedirs(ov + '/py_gnome')
            os.rename(ov + '/x/gnome', ov + '/py_gnome/gnome')
            return ov
        ov = overlay('plain')
        a = subprocess.run(['bash', demo], cwd=ov, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = subprocess.run(['git', '-C', R, 'apply', os.path.join(VERIF, 'seeded', s['id'], 'patch.diff')],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return s['id'], 'patch does not apply: ' + r.stdout
        ov = overlay('bug')
        b = subprocess.run(['bash', demo], cwd=ov, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        c = subprocess.run([VERIF + '/check.py', s['property']], cwd=VERIF,
                           env=dict(os.environ, VERIF_REPO=R, VERIF_EVIDENCE=t + '/ev'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        msg = 'demo plain=%d bug=%d check=%d' % (a.returncode, b.returncode, c.returncode)
        ok = a.returncode == 0 and b.returncode != 0 and c.returncode == 1
        if not ok:
            msg += '\n--- demo plain\n%s\n--- demo bug\n%s\n--- check\n%s' % (
                a.stdout[-1500:], b.stdout[-800:], c.stdout[-2500:])
        if '--tests' in sys.argv:
            msg += ' tests: use vcheck --bug'
        return s['id'], ('CAUGHT ' if ok else 'PROBLEM ') + msg
    finally:
        shutil.rmtree(t, ignore_errors=True)


if __name__ == '__main__':
    S = specs()
    ids = [a for a in sys.argv[2:] if not a.startswith('--')] or list(S)
    ids = [i for i in S if any(i == a or i.startswith(a + '-') or S[i]['property'] == a for a in ids)]
    for i in ids:
        gen(S[i])
    if sys.argv[1] == 'try':
        with ThreadPoolExecutor(int(os.environ.get('TRY_PROCS', '2'))) as ex:
            for i, m in ex.map(lambda i: try1(S[i]), ids):
                print(i, m, flush=True)
