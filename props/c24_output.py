"""C24: which steps are written to output"""
import datetime as dt

from symex.case import Case, Property
from props.lib import BASE

INFO = {
    'functions': ['Outputter.prepare_for_model_run', 'Outputter.prepare_for_model_step', 'Outputter.write_output',
                  'Outputter.rewind', 'Outputter.write_output_post_run', 'Model.write_output'],
    'bounds': 'runs of five steps (seven in thorough) of any whole length from 1 s to an hour, forward or backward; output '
              'every step or every 450, 900, 1000, 2700 or 3600 s; any start of output from the start of the run to '
              'beyond its end; every combination of the zero, last and single step options; a second run after '
              'rewinding',
    'outside': 'what is written (files, images); start of output before the start of the run',
    'stubs': ['an outputter that records the steps it is told to write'],
    'assumptions': [],
}


def recorder(cx, **k):
    from gnome.outputters import Outputter

    class R(Outputter):
        def write_output(self, step_num, islast_step=False):
            super().write_output(step_num, islast_step)
            if self._write_step:
                self.seen.append(step_num)
                return {'step': step_num}
    r = R(cache=object(), **k)
    r.seen = []
    return r


def expected(cx, n, ts, out, S, zero, last, single):
    """steps to write: ts, S > 0 seconds in the direction of the run"""
    w = []
    first = None
    for k in range(n):
        e = k * ts
        if k == 0:
            c = zero or (single and S is None)
        elif S is not None and first is None:
            c = bool(e >= S)
            if c:
                first = e
        elif single:
            c = False
        elif out is None:
            c = True
        else:
            b = first if first is not None else 0
            c = bool((e - b) // out > (e - ts - b) // out)
        if k == n - 1 and last:
            c = True
        if c:
            w.append(k)
    return w


def options(cx, start):
    out = cx.choice('out', [None, 450, 900, 1000, 2700, 3600])
    zero, last, single = cx.flag('zero'), cx.flag('last'), cx.flag('single')
    return out, zero, last, single


def drive(cx, o, n, sgn, ts):
    o.prepare_for_model_run(model_start_time=BASE, spills=None, model_time_step=sgn * ts)
    for k in range(n):
        if k:
            o.prepare_for_model_step(sgn * ts, BASE + cx.secs(sgn * ts * (k - 1)))
        o.write_output(k, islast_step=(k == n - 1)) if k == n - 1 else o.write_output(k)
        o.model_step_is_done()


def schedule(cx, n, back, start, twice=False):
    import warnings
    warnings.simplefilter('ignore')
    out, zero, last, single = options(cx, start)
    ts = cx.int('ts', 1, 3600)
    sgn = -1 if back else 1
    S = None
    kw = {}
    if start == 'same':
        kw['output_start_time'] = BASE
    elif start == 'later':
        S = cx.int('S', 1, 20000)
        kw['output_start_time'] = BASE + cx.secs(sgn * S)
    if out is not None:
        kw['output_timestep'] = dt.timedelta(seconds=out)
    o = recorder(cx, output_zero_step=zero, output_last_step=last, output_single_step=single, **kw)
    drive(cx, o, n, sgn, ts)
    w = expected(cx, n, ts, out, S, zero, last, single)
    cx.prove(o.seen == w, 'exactly the steps due are written')
    if twice:
        o.rewind()
        o.seen = []
        drive(cx, o, n, sgn, ts)
        cx.prove(o.seen == w, 'and the same again after rewinding')


def whole(cx, n, back):
    """in a real run"""
    from gnome.model import Model
    import warnings
    warnings.simplefilter('ignore')
    out = cx.choice('out', [None, 900, 1000, 1800])
    zero, last = cx.flag('zero'), cx.flag('last')
    S = cx.int('S', 1, 5000) if cx.flag('later') else None
    ts, sgn = 900, -1 if back else 1
    m = Model(start_time=BASE, duration=dt.timedelta(seconds=ts * (n - 1)), time_step=ts, run_backwards=back)
    o = recorder(cx, output_zero_step=zero, output_last_step=last,
                 output_start_time=None if S is None else BASE + cx.secs(sgn * S),
                 output_timestep=None if out is None else dt.timedelta(seconds=out))
    m.outputters += o
    got = []
    for k, r in enumerate(m):
        if 'R' in r:
            got.append(r['R']['step'])
    w = expected(cx, n, ts, out, S, zero, last, False)
    cx.prove(o.seen == w, 'a run writes exactly the steps due')
    cx.prove(got == w, 'and returns what was written')


def post(cx, n, back):
    """from the cache, after a run"""
    import warnings
    warnings.simplefilter('ignore')
    out, zero, last, single = options(cx, None)
    ts = cx.int('ts', 1, 3600)
    sgn = -1 if back else 1

    class SC:
        def __init__(self, t):
            self.current_time_stamp = t

    class Pair:
        def __init__(self, t):
            self.t = t

        def items(self):
            return (SC(self.t),)

    class Cache:
        recent = {}

        def load_timestep(self, k):
            return Pair(BASE + cx.secs(sgn * ts * k))
    o = recorder(cx, output_zero_step=zero, output_last_step=last, output_single_step=single,
                 output_timestep=None if out is None else dt.timedelta(seconds=out))
    o.write_output_post_run(model_start_time=BASE, model_time_step=sgn * ts, num_time_steps=n, cache=Cache(), spills=None)
    w = expected(cx, n, ts, out, None, zero, last, single)
    cx.prove(o.seen == w, 'output after the run writes exactly the steps due')


PROP = Property('C24', [
    Case('%s-%s' % (s, 'back' if b else 'on'), schedule, dict(n=5, back=b, start=s, twice=(s == 'same')), max_paths=20000)
    for s in ('none', 'same', 'later') for b in (False, True)
] + [
    Case('run', whole, dict(n=4, back=False)), Case('run-back', whole, dict(n=4, back=True)),
    Case('post', post, dict(n=4, back=False)), Case('post-back', post, dict(n=4, back=True)),
    Case('long', schedule, dict(n=7, back=False, start='later'), tier='thorough', max_paths=100000, budget=1500),
    Case('long-back', schedule, dict(n=7, back=True, start='later'), tier='thorough', max_paths=100000, budget=1500),
])
