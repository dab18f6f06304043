"""Runs in the overlay: symbolic execution of the cases of one property, or the
concrete replay of recorded inputs on the unpatched code."""
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')


def load(pid):
    import gnome   # noqa: the tree under test
    import gnome.model  # noqa
    name = None
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props')
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            name = f[:-3]
    if name is None:
        raise SystemExit('no module for property ' + pid)
    return importlib.import_module('props.' + name)


def gnome_file(p):
    return '/gnome/' in p and '/symex/' not in p and '/props/' not in p


class Tracer:
    """names of the gnome functions executed on symbolic paths"""
    def __init__(self):
        self.seen = set()

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(3, 'verif')
        except ValueError:
            return

        def cb(code, off):
            f = code.co_filename
            if gnome_file(f):
                i = f.rindex('/gnome/')
                self.seen.add('%s:%s' % (f[i + 1:], code.co_qualname))
            return m.DISABLE
        m.register_callback(3, m.events.PY_START, cb)
        m.set_events(3, m.events.PY_START)


def run_case(mod, case, strict):
    from symex import core
    cx = core.SymCtx(case.name, branch_timeout=case.branch_timeout,
                     prove_timeout=case.prove_timeout, max_paths=case.max_paths,
                     deadline=time.time() + case.budget)
    cx.max_samples = case.samples
    tr = Tracer()
    tr.start()
    t = time.time()
    cx.explore(lambda c: case.fn(c, **case.params))
    return dict(case=case.name, wall=round(time.time() - t, 2),
                stats=cx.stats.as_dict(),
                violations=[dict(label=v.label, inputs=v.inputs, note=v.note)
                            for v in cx.violations],
                soft=[dict(label=v.label, inputs=v.inputs, note=v.note) for v in cx.soft],
                inconclusive=cx.inconclusive, undecided=cx.undecided,
                incomplete=cx.incomplete, samples=cx.samples,
                encoded=sorted(cx.encoded),
                functions=sorted(tr.seen))


def symbolic(pid, tier, out, only=None):
    mod = load(pid)
    P = mod.PROP
    if P.setup:
        P.setup()
    from symex import shims
    enc = {}
    for e in P.encoders:
        m = importlib.import_module('symex.' + e)
        enc[e] = m.install(P)
    shims.apply()
    cases = [c for c in P.cases if (c.tier == 'quick' or tier == 'thorough')]
    if only:
        cases = [c for c in P.cases if c.name in only]
    procs = int(os.environ.get('VERIF_PROCS', '8'))
    pending = list(cases)
    running = {}
    results = {}
    tmp = out + '.d'
    os.makedirs(tmp, exist_ok=True)
    while pending or running:
        while pending and len(running) < procs:
            c = pending.pop(0)
            i = cases.index(c)
            sys.stdout.flush()
            pid_ = os.fork()
            if pid_ == 0:
                code = 0
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    signal.alarm(int(c.budget * 1.5) + 60)
                    r = run_case(mod, c, False)
                except BaseException as e:   # noqa
                    r = dict(case=c.name, error='%s: %s\n%s' % (
                        type(e).__name__, e, traceback.format_exc()[-3000:]))
                with open(os.path.join(tmp, '%d.json' % i), 'w') as f:
                    json.dump(r, f)
                os._exit(code)
            running[pid_] = (i, c)
        p, st = os.wait()
        if p in running:
            i, c = running.pop(p)
            f = os.path.join(tmp, '%d.json' % i)
            if os.path.exists(f):
                with open(f) as fh:
                    results[i] = json.load(fh)
            else:
                results[i] = dict(case=c.name, error='worker ended with status %d' % st)
    with open(out, 'w') as f:
        json.dump(dict(results=[results[i] for i in range(len(cases))], encoders=enc,
                       bounds={c.name: c.bounds for c in cases if c.bounds}), f)


def replay(pid, jobs, out):
    """jobs: [{case, inputs, slack, observed}] -> what happened on the real code"""
    mod = load(pid)
    P = mod.PROP
    if P.setup:
        P.setup()
    from symex import core
    byname = {c.name: c for c in P.cases}
    with open(jobs) as f:
        J = json.load(f)
    res = []
    for j in J:
        c = byname[j['case']]
        cx = core.ConcreteCtx(j['inputs'], slack=j.get('slack', 0.5))
        r = {}
        signal.alarm(120)
        with core.random_feed(cx):
            try:
                c.fn(cx, **c.params)
                r['outcome'] = 'held'
            except core.Reproduced as e:
                r['outcome'] = 'violated'
                r['label'] = e.label
            except core.Infeasible:
                r['outcome'] = 'not-applicable'
            except core.ReplayError as e:
                r['outcome'] = 'replay-error'
                r['label'] = str(e)
            except Exception as e:
                tb = e.__traceback__
                while tb.tb_next is not None:
                    tb = tb.tb_next
                inner = tb.tb_frame.f_code.co_filename
                r['outcome'] = 'violated' if '/props/' not in inner else 'harness-error'
                r['label'] = 'raised %s: %s' % (type(e).__name__, str(e)[:200])
                r['trace'] = traceback.format_exc()[-2000:]
        signal.alarm(0)
        r['reached'] = cx.reached[:200]
        mism = []
        for k, v in (j.get('observed') or {}).items():
            if k in cx.observed:
                a = cx.observed[k]
                try:
                    if isinstance(v, bool) or isinstance(v, str):
                        ok = bool(a) == v if isinstance(v, bool) else str(a) == v
                    else:
                        ok = abs(float(a) - v) <= 1e-6 * max(1.0, abs(v)) or (a != a and v != v)
                except (TypeError, ValueError):
                    ok = False
                if not ok:
                    mism.append([k, v, str(a)])
        r['mismatch'] = mism
        r['compared'] = len([k for k in (j.get('observed') or {}) if k in cx.observed])
        res.append(r)
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    mode = sys.argv[1]
    if mode == 'sym':
        symbolic(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5:] or None)
    else:
        replay(sys.argv[2], sys.argv[3], sys.argv[4])
