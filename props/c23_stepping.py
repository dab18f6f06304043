"""C23 the model clock"""
import datetime as dt

from symex.case import Case, Property
from props.lib import BASE

INFO = {
 'bounds': 'time steps of 45, 600 and 900 s or the default (any whole 1-40 s for the sub-steps), any whole-second start time, any '
           'duration up to four steps (six in thorough), forward and backward, one to five weathering sub-steps, '
           'constructor and every setter in any order of two',
 'outside': 'sub-second durations, more sub-steps than seconds in a step, outputters',
 'stubs': ['a mover, a weatherer and a spill that record their calls'],
 'assumptions': ['not more weathering sub-steps than seconds in a time step'],
}


def recorder(cx):
    from gnome.movers import Mover
    from gnome.weatherers.core import Weatherer

    class M(Mover):
        def __init__(self, **k):
            super().__init__(**k)
            self.calls = []
            self.prep = []
            self.runs = 0
            self.done = 0

        def prepare_for_model_run(self):
            self.runs += 1

        def prepare_for_model_step(self, sc, ts, t):
            super().prepare_for_model_step(sc, ts, t)
            self.prep.append((t, ts))

        def get_move(self, sc, ts, t):
            self.calls.append((t, ts))
            p = sc['positions']
            return cx.array([[0.001, 0.002, 0.0]] * len(p))

        def model_step_is_done(self, sc=None):
            self.done += 1

    class W(Weatherer):
        def __init__(self, **k):
            super().__init__(**k)
            self.calls = []

        def weather_elements(self, sc, ts, t):
            self.calls.append((t, ts))
    return M(), W()


def make(cx, start, ts, dur, back=False, **kw):
    from gnome.model import Model
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    if ts is not None:
        kw['time_step'] = ts
    m = Model(start_time=start, duration=dur, run_backwards=back, **kw)
    mv, w = recorder(cx)
    m.movers += mv
    m.weatherers += w
    m.spills += Spill(release=PointLineRelease(release_time=start, start_position=(0., 0., 0.), num_elements=2),
                      amount=10, units='kg')
    return m, mv, w


def steps_of(cx, dur, ts):
    """1 + floor(dur / ts) as a number, by comparison"""
    k = 0
    while bool(dur >= (k + 1) * ts):
        k += 1
    return k + 1


def run(cx, nmax=4, again=False):
    given = cx.choice('ts', [45, 600, 900, None])
    ts = given or 900
    back = cx.flag('back')
    start = cx.time('start', 0, 10 ** 6)
    dur = cx.int('dur', 0, nmax * 900)
    cx.assume(dur <= nmax * ts)
    m, mv, w = make(cx, start, given and (cx.secs(ts) if cx.flag('delta') else ts), cx.secs(dur), back,
                    uncertain=cx.flag('uncertain'))
    N = steps_of(cx, dur, ts)
    sg = -ts if back else ts
    cx.prove(m.num_time_steps == N, 'run: number of steps')
    cx.prove(m.model_time == start and m.current_time_step == -1, 'run: starts at the start time')
    for r in range(2 if again else 1):
        mv.calls, mv.prep, w.calls = [], [], []
        mv.runs = mv.done = 0
        out = 0
        m.rewind()
        while True:
            try:
                m.step()
            except StopIteration:
                break
            out += 1
            if out > N:
                break
            k = out - 1
            cx.prove(m.current_time_step == k, 'run: step number')
            cx.prove(m.model_time == start + cx.secs(k * sg), 'run: model time is start + steps x time step')
            for sc in m.spills.items():
                cx.prove(sc.current_time_stamp == m.model_time, 'run: the elements carry the model time')
                for i in range(len(sc['age'])):
                    cx.prove(sc['age'][i] == k * ts, 'run: age of the elements')
                    cx.prove(cx.close(sc['positions'][i, 0], 0.001 * k), 'run: each mover moves once per step')
                    cx.prove(cx.close(sc['positions'][i, 1], 0.002 * k), 'run: each mover moves once per step')
        cx.prove(out == N, 'run: exactly the steps that fit in the duration')
        cx.observe('out', out)
        ns = len(list(m.spills.items()))
        cx.prove(len(mv.calls) == ns * (N - 1) and len(mv.prep) == ns * (N - 1), 'run: movers act once per step')
        for j, (t, d) in enumerate(mv.calls):
            cx.prove(t == start + cx.secs(j // ns * sg) and d == sg, 'run: movers get the step they move over')
        cx.prove(mv.runs == 1 and mv.done == ns * (N - 1), 'run: prepared once and told once per step')
        if back:
            cx.prove(len(w.calls) == 0, 'run: no weathering backwards')
        else:
            cx.prove(len(w.calls) == N - 1 and all(bool(t == start + cx.secs(k * ts)) and d == ts
                                                   for k, (t, d) in enumerate(w.calls)), 'run: weathering per step')
        try:
            m.step()
            cx.prove(False, 'run: the end is the end')
        except StopIteration:
            pass


def substeps(cx):
    ts = cx.int('ts', 1, 40)
    n = cx.choice('n', [1, 2, 3, 4, 5])
    cx.assume(ts >= n)
    start = cx.time('start', 0, 10 ** 6)
    m, mv, w = make(cx, start, ts, cx.secs(2 * ts), weathering_substeps=n)
    for k in range(3):
        m.step()
    cx.prove(m.model_time == start + cx.secs(2 * ts), 'sub-steps: model time')
    cx.prove(len(w.calls) >= 2 * n, 'sub-steps: at least as many as asked for')
    at = start
    for t, d in w.calls:
        cx.prove(t == at, 'sub-steps: each starts where the one before ended')
        cx.prove(d > 0, 'sub-steps: have a length')
        cx.prove(d * n <= ts, 'sub-steps: are not longer than the even share')
        at = at + cx.secs(d)
    cx.prove(at == start + cx.secs(2 * ts), 'sub-steps: cover the steps exactly')
    cx.observe('calls', len(w.calls))


def setters(cx, n=2):
    """settings changed between runs: the clock starts over where it must, and the number of steps fits"""
    ts, dur, back = 600, cx.int('dur0', 0, 2400), cx.flag('back0')
    start = cx.time('start0', 0, 10 ** 6)
    m, mv, w = make(cx, start, ts, cx.secs(dur), back)
    unc = False
    m.step()
    if bool(dur >= ts):
        m.step()
    for i in range(n):
        op = cx.choice('op%d' % i, ['ts', 'dur', 'back', 'start', 'unc', 'rewind'])
        was = m.current_time_step
        restart = True
        if op == 'ts':
            ts = cx.choice('ts%d' % i, [300, 700])
            m.time_step = ts if cx.flag('plain%d' % i) else cx.secs(ts)
        elif op == 'dur':
            old = dur
            dur = cx.int('newdur%d' % i, 0, 2400)
            m.duration = cx.secs(dur)
            restart = bool(dur < old)
        elif op == 'back':
            b = cx.flag('newback%d' % i)
            restart = b != back
            back = b
            m.run_backwards = b
        elif op == 'start':
            start = cx.time('newstart%d' % i, 0, 10 ** 6)
            m.start_time = start
            m.spills[0].release_time = start
        elif op == 'unc':
            u = cx.flag('newunc%d' % i)
            restart = u != unc
            unc = u
            m.uncertain = u
        else:
            m.rewind()
        if restart:
            cx.prove(m.current_time_step == -1 and m.model_time == start, op + ': the run starts over')
            cx.prove(all(len(sc) == 0 for sc in m.spills.items()), op + ': with nothing in the water')
        else:
            cx.prove(m.current_time_step == was, op + ': the run goes on')
        cx.prove(len(list(m.spills.items())) == (2 if unc else 1), op + ': one container, or two if uncertain')
    N = steps_of(cx, dur, ts)
    cx.prove(m.num_time_steps == N, 'setters: number of steps')
    k = m.current_time_step
    while True:
        try:
            m.step()
        except StopIteration:
            break
        k += 1
        cx.prove(m.model_time == start + cx.secs(k * (-ts if back else ts)), 'setters: model time')
        if k > N:
            break
    cx.prove(k == N - 1, 'setters: runs to the end')
    cx.observe('k', k)


PROP = Property('C23', [
    Case('run', run), Case('run-twice', run, dict(nmax=2, again=True)),
    Case('substeps', substeps, max_paths=20000), Case('setters', setters, dict(n=1)),
    Case('setters-2', setters, dict(n=2), max_paths=20000, tier='thorough', budget=1500),
    Case('run-6', run, dict(nmax=6), tier='thorough', budget=900),
], pyx=['gnome.utilities.geometry.cy_point_in_polygon'])
