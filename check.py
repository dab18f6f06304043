#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--case NAME ...] [--strict]
   check.py --replay FILE

exit 0: held on everything explored; 1: VIOLATION (reproduced on the real code);
2: error of the check (no verdict)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')


def env_for(ov):
    e = dict(os.environ)
    e['PYTHONPATH'] = os.pathsep.join([ov, os.path.join(HERE, 'stubs'), HERE])
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['TZ'] = 'UTC'
    e['OMP_NUM_THREADS'] = '1'
    e['OPENBLAS_NUM_THREADS'] = '1'
    e['VERIF_OVERLAY'] = ov
    return e


def run_worker(ov, args, scratch):
    env = env_for(ov)
    if args[0] == 'replay':
        from symex import native
        env['LD_PRELOAD'] = env['VERIF_CRAND'] = native.rand_feeder()
    r = subprocess.run([PY, '-m', 'symex.worker'] + args, env=env, cwd=scratch,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('worker failed (%d):\n%s' % (r.returncode, r.stdout[-4000:]))
    return r.stdout


def do_replays(ov, scratch, pid, jobs):
    if not jobs:
        return []
    jf = os.path.join(scratch, 'jobs-%d.json' % len(os.listdir(scratch)))
    of = jf + '.out'
    with open(jf, 'w') as f:
        json.dump(jobs, f)
    run_worker(ov, ['replay', pid, jf, of], scratch)
    with open(of) as f:
        return json.load(f)


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k['property'] == pid and k['status'] == 'known']


def main(argv):
    strict = '--strict' in argv
    argv = [a for a in argv if a != '--strict']
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        i = argv.index('--tier')
        tier = argv[i + 1]
        del argv[i:i + 2]
    verbose = '-v' in argv
    argv = [a for a in argv if a != '-v']
    only = []
    if '--case' in argv:
        i = argv.index('--case')
        only = argv[i + 1:]
        del argv[i:]
    from symex import native
    scratch = tempfile.mkdtemp(prefix='verif-run-')
    try:
        ov = os.path.join(scratch, 'ov')
        os.makedirs(ov)
        t0 = time.time()
        native.make_overlay(ov)
        if argv and argv[0] == '--replay':
            with open(argv[1]) as f:
                r = json.load(f)
            res = do_replays(ov, scratch, r['property'], [r['job']])[0]
            print(json.dumps(res, indent=1))
            return 1 if res['outcome'] == 'violated' else 0
        return check(argv[0], tier, only, ov, scratch, strict, verbose, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(pid, tier, only, ov, scratch, strict, verbose, t0):
    build_s = time.time() - t0
    out = os.path.join(scratch, 'sym.json')
    log = run_worker(ov, ['sym', pid, tier, out] + only, scratch)
    if verbose and log:
        print(log)
    with open(out) as f:
        R = json.load(f)
    results = R['results']
    errors, notes, viol = [], [], []
    incomplete, undecided = [], []
    jobs, meta = [], []
    for r in results:
        if 'error' in r:
            errors.append('%s: %s' % (r['case'], r['error']))
            continue
        for kind in ('violations', 'soft'):
            for v in r[kind]:
                jobs.append(dict(case=r['case'], inputs=v['inputs'], slack=0.5))
                meta.append((kind, r, v))
        for s in r['samples']:
            jobs.append(dict(case=r['case'], inputs=s['inputs'], slack=4.0,
                             observed=s['observed']))
            meta.append(('sample', r, s))
        if r['incomplete']:
            incomplete.append('%s: %s' % (r['case'], r['incomplete']))
            if not r['stats']['obligations_discharged'] and not r['violations']:
                errors.append('%s: %s before any obligation was decided' % (
                    r['case'], r['incomplete']))
        for u in r['undecided']:
            undecided.append('%s: %s' % (r['case'], u))
        for i in r['inconclusive']:
            errors.append('%s: inconclusive: %s' % (r['case'], i))
    kf = known_findings(pid)
    for k in kf:
        jobs.append(dict(case=k['case'], inputs=k['inputs'], slack=0.5))
        meta.append(('known', None, k))
    rep = do_replays(ov, scratch, pid, jobs)
    validated = compared = conc = 0
    mismatches = []
    cases_viol = {}
    shown = []
    for j, (kind, r, v), o in zip(jobs, meta, rep):
        if kind == 'known':
            if o['outcome'] == 'violated':
                print('KNOWN-FINDING: property=%s %s' % (pid, v['what']))
            continue
        if kind == 'sample':
            validated += 1
            compared += o.get('compared', 0)
            if o['mismatch'] or o['outcome'] not in ('held', 'not-applicable'):
                mismatches.append(dict(case=r['case'], outcome=o['outcome'],
                                       label=o.get('label'), mismatch=o['mismatch'][:5],
                                       inputs=v['inputs']))
            continue
        ok = o['outcome'] == 'violated'
        if ok:
            n = len(viol) + 1
            d = os.path.join(EVID, 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%d.json' % (pid, n))
            with open(p, 'w') as f:
                json.dump(dict(property=pid, job=j, symbolic_label=v['label'],
                               observed=o, note=v['note']), f, indent=1)
            viol.append(dict(case=r['case'], label=o.get('label'), path=p,
                             inputs=v['inputs'], trace=o.get('trace')))
            cases_viol.setdefault(r['case'], 0)
        elif o['outcome'] == 'harness-error':
            errors.append('%s: harness error %s\n%s' % (r['case'], o['label'], o.get('trace')))
        elif kind == 'soft' or v['label'].startswith('raised '):
            conc += 1
            notes.append('%s: path explored concretely only (%s): %s' % (
                r['case'], v['label'], v['note'][-700:]))
        else:
            shown.append((r['case'], v, o))
    for c, v, o in shown:
        if c in cases_viol:
            continue
        errors.append('%s: counterexample to "%s" does not reproduce: %s inputs=%s' % (
            c, v['label'], o.get('outcome'), json.dumps(v['inputs'])[:1500]))
    st = dict(paths=0, queries=0, solver_s=0.0, branches=0, obligations=0, unknown=0)
    reached, funcs = {}, set()
    enc = set()
    for r in results:
        if 'error' in r:
            continue
        s = r['stats']
        st['paths'] += s['paths']
        st['queries'] += s['queries']
        st['solver_s'] += s['solver_s']
        st['branches'] += s['branches']
        st['obligations'] += s['obligations_discharged']
        st['unknown'] += s['unknown']
        for k, n in s['reached'].items():
            reached[k] = reached.get(k, 0) + n
        funcs.update(r['functions'])
        enc.update(r['encoded'])
        if not s['reached'] and not r['inconclusive'] and r['case'] not in cases_viol:
            errors.append('%s: vacuous, no assertion reached' % r['case'])
    if len(undecided) > 0.05 * (st['obligations'] + len(undecided)):
        errors.append('no solver verdict on %d obligations: %s' % (
            len(undecided), undecided[:5]))
    info = prop_info(pid)
    samples = [dict(case=r['case'], inputs=s['inputs'], observed=s['observed'])
               for r in results if 'samples' in r for s in r['samples'][:1]][:12]
    wall = round(time.time() - t0, 2)
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
        level='model_checking',
        coverage=dict(
            states=st['paths'], transitions=st['branches'],
            traces_validated_against_impl=validated,
            samples=samples,
            explanation='bounded symbolic execution of the real functions; states = '
                        'feasible symbolic paths, transitions = branch decisions put to '
                        'the solver; every obligation is a solver query over all values '
                        'of its path; traces_validated = path models replayed on the '
                        'unpatched build and compared with the encoding',
            queries=st['queries'], solver_s=round(st['solver_s'], 2),
            obligations_discharged=st['obligations'],
            exhaustive=not (incomplete or undecided or conc),
            incomplete_cases=incomplete, undecided_obligations=undecided[:20],
            solver_unknown_branch_queries=st['unknown'],
            functions_encoded=sorted(funcs), native_functions_encoded=sorted(enc),
            assertions_reached=reached,
            cases=[dict(case=r['case'], wall_s=r.get('wall'),
                        paths=r.get('stats', {}).get('paths'),
                        bounds=R['bounds'].get(r['case'])) for r in results],
            bounds=info.get('bounds'), outside_the_claim=info.get('outside'),
            stubs=info.get('stubs'),
            observations_compared=compared, encoding_mismatches=mismatches[:10],
            paths_explored_concretely_only=conc, notes=notes[:10], errors=errors[:10],
            build_s=round(build_s, 2)),
        assumptions=info.get('assumptions', []),
        wall_s=wall, violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in viol[:5]:
        print('  case %s: %s' % (v['case'], v['label']))
        print('  inputs: %s' % json.dumps(v['inputs'])[:800])
        if v['trace'] and verbose:
            print(v['trace'])
    for n in notes[:5]:
        print('NOTE ' + n)
    if verbose:
        for r in results:
            if 'stats' in r:
                print(r['case'], r['wall'], 's', {k: v for k, v in r['stats'].items() if k != 'reached'})
                print('    ', r['stats']['reached'])
    for n in incomplete[:5]:
        print('NOTE incomplete: ' + n)
    for n in undecided[:5]:
        print('NOTE undecided: ' + n)
    if mismatches:
        print('NOTE %d encoding mismatches: %s' % (len(mismatches), json.dumps(mismatches[:2])[:1500]))
    print('%s tier=%s cases=%d paths=%d queries=%d obligations=%d solver=%.1fs wall=%.1fs replays=%d' % (
        pid, tier, len(results), st['paths'], st['queries'], st['obligations'],
        st['solver_s'], wall, validated))
    if viol:
        for v in viol[:3]:
            print('VIOLATION property=%s replay=%s' % (pid, v['path']))
        return 1
    if errors:
        for e in errors[:6]:
            print('ERROR ' + e)
        return 2
    if strict and (mismatches or notes or incomplete or undecided):
        print('STRICT: mismatches, incomplete or undecided cases or concretised paths')
        return 2
    return 0


def prop_info(pid):
    """static description of the property module, read without importing gnome"""
    p = os.path.join(HERE, 'props', 'info.json')
    d = os.path.join(HERE, 'props')
    import ast
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            t = ast.parse(open(os.path.join(d, f)).read())
            for n in t.body:
                if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'INFO':
                    return ast.literal_eval(n.value)
    return {}


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
