"""C12: a run depends on its own settings alone, and repeats after rewinding"""
import contextlib
import datetime as dt
import io

from symex.case import Case, Property
from props.lib import BASE, small_oil

INFO = {
    'functions': ['Model.rewind', 'Model.setup_model_run', 'Model.step', 'SpillContainerPair.rewind', 'rand.seed',
                  'prepare_for_model_run of movers and weatherers'],
    'bounds': 'runs of one to three steps, rewound at once, part of the way or at the end; one or two elements; each of: '
              'SimpleMover (any velocity), CurrentMover and WindMover (Python; one velocity, every random value), '
              'RandomMover (every value of rand(), few rejected draws), Skimmer (any amount), Burn (any area), '
              'ChemicalDispersion (any efficiency), evaporation with dispersion and emulsification (any wind to 30 m/s and '
              'wave height to 5 m), ROC burn, skim and spray systems (any masses); certain and uncertain; a second '
              'model stepped in between and rewound half way; a mover, weatherer and spill that are off and two outputters; a setting '
              '(velocity, switch, active range, amount, place and time of release, start, step, uncertainty) changed after a run',
    'outside': 'file outputters, gridded data, wind movers in C++, models that share objects',
    'stubs': ['a random source: the k-th value after seeding with s is one unknown, the same each time it is seeded with s',
              'wind, current and waves with one value everywhere'],
    'assumptions': ['random values drawn by elements of two models, or of forecast and uncertain elements, come from one '
                    'source: values drawn at random (windages) are not compared there'],
}
TS = 900
RANDOM = ('windages',)      # drawn from a source that other elements draw from, too


def sec(x):
    return dt.timedelta(seconds=x)


def leaves(v):
    import numpy as np
    if isinstance(v, dict):
        return [x for k in sorted(v, key=str) for x in leaves(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in leaves(y)]
    if isinstance(v, np.ndarray):
        return list(np.ravel(v))
    return [v]


def snapshot(sc):
    d = {k: leaves(a) for k, a in sc.data_arrays.items()}
    mb = {k: leaves(v) for k, v in sc.mass_balance.items()}
    return d, mb


def eq(cx, x, y):
    if x is y:
        return True
    if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
        return x == y
    if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
        return True             # both NaN
    if isinstance(x, (dt.datetime, dt.timedelta)):
        return x == y
    return cx.close(x, y, 1e-9, 1e-9)


def same(cx, a, b, label, skip=()):
    for p, q in zip(a, b):
        p, q = ({k: v for k, v in x.items() if k not in skip} for x in (p, q))
        cx.prove(set(p) <= set(q), label + ': the same quantities')
        for k in sorted(p):
            cx.prove(len(p[k]) == len(q[k]), label + ': as many values (%s)' % k)
            cx.prove(cx.all([eq(cx, x, y) for x, y in zip(p[k], q[k])]), label + ': ' + k)


def states(m, steps):
    out = []
    for s in range(steps):
        with contextlib.redirect_stdout(io.StringIO()):
            m.step()
        out.append([snapshot(sc) for sc in m.spills.items()])
    return out


def agree(cx, a, b, label, skip=()):
    where = {k for x in a for p in x for d in p for k in d if 'positions' in k}
    other = {k for x in a for p in x for d in p for k in d} - where
    for last in (where, other):         # the easier ones first
        for x, y in zip(a, b):
            for p, q in zip(x, y):
                same(cx, p, q, label, set(skip) | last)


def Steady(cx, v, ref='current'):
    """the same velocity everywhere"""
    from gnome.environment.environment import Environment

    class SteadyField(Environment):
        data_start = BASE
        _ref_as = ref
        data_stop = BASE + sec(86400)

        def at(self, pos, time, *a, **k):
            import numpy as np
            rows = [list(v) + [0.0] for i in range(len(pos))]
            return cx.array(rows) if rows else np.zeros((0, 3))
    return SteadyField()


def vec(cx, n):
    return [cx.real(n + 'x', -2, 2), cx.real(n + 'y', -2, 2)]


def spill(n=1, cont=0, amount=16.0, oil=None, persist=900, rng=(0.25, 0.5)):
    from gnome.spills.spill import Spill
    from gnome.spills.substance import NonWeatheringSubstance
    from gnome.spills.release import PointLineRelease
    rel = PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=n,
                           end_release_time=BASE + sec(cont) if cont else None)
    if oil is None:
        oil = NonWeatheringSubstance(windage_range=rng, windage_persist=persist)
    return Spill(release=rel, substance=oil, amount=amount, units='kg')


def model(steps, uncertain=False, **kw):
    from gnome.model import Model
    m = Model(start_time=BASE, time_step=TS, duration=sec(TS * (steps - 1)), uncertain=uncertain, **kw)
    m.make_default_refs = False
    return m


def build(cx, kind, steps, uncertain, tag='', long=None):
    from gnome.movers import SimpleMover
    from gnome.movers.py_current_movers import CurrentMover
    from gnome.movers.py_wind_movers import WindMover
    m = model(steps, uncertain)
    if kind == 'simple':
        m.movers += SimpleMover(velocity=(cx.real(tag + 'u', -2, 2), cx.real(tag + 'v', -2, 2), 0.0))
        m.spills += spill(2, TS)
    elif kind == 'current':
        m.movers += CurrentMover(current=Steady(cx, (0.5, 0.0)), uncertain_along=0.5, uncertain_cross=0.0,
                                 uncertain_duration=long or 900., uncertain_time_delay=0., default_num_method='Euler')
        m.spills += spill(1)
    elif kind == 'wind':
        m.movers += WindMover(wind=Steady(cx, (8.0, 0.0), 'wind'), default_num_method='Euler')
        m.spills += spill(1, persist=TS)
    elif kind == 'random':
        from gnome.movers import RandomMover
        m.movers += RandomMover(diffusion_coef=1024.0)
        cx.limit_draws(16)
        m.spills += spill(1)
    elif kind == 'skim':
        from gnome.weatherers import Skimmer
        m.weatherers += Skimmer(cx.real(tag + 'skim', 1, 20), units='kg', efficiency=0.5, water=water(),
                                active_range=(BASE + sec(TS // 2), BASE + sec(2 * TS)))
        m.spills += spill(2, oil=small_oil(2))
    elif kind == 'manual':
        from gnome.weatherers import Beaching
        m.weatherers += Beaching(active_range=(BASE, BASE + sec(2 * TS)), units='kg', water=water(), timeseries=[
            (BASE + sec(TS + TS // 2), cx.real(tag + 'obs', 1, 5)), (BASE + sec(2 * TS), 4.0)])
        m.spills += spill(2, oil=small_oil(2))
    elif kind == 'burn':
        from gnome.weatherers import Burn
        m.weatherers += Burn(area=cx.real(tag + 'area', 1, 4), thickness=0.125, active_range=(BASE, BASE + sec(TS)),
                             efficiency=0.5, water=water(), wind=AnyWind(cx, tag))
        m.spills += spill(2, oil=small_oil(2), amount=1000.)
    elif kind == 'chem':
        from gnome.weatherers import ChemicalDispersion
        m.weatherers += ChemicalDispersion(0.5, active_range=(BASE + sec(TS // 2), BASE + sec(2 * TS)),
                                           efficiency=cx.real(tag + 'eff', 0, 1), waves=AnyWaves(cx, tag, water()))
        m.spills += spill(2, oil=small_oil(2))
    elif kind == 'weather':
        from gnome.weatherers import Evaporation, NaturalDispersion, Emulsification
        wind = AnyWind(cx, tag)
        waves = AnyWaves(cx, tag, water())
        m.environment += wind
        m.environment += waves
        m.weatherers += Evaporation(water(), wind)
        m.weatherers += NaturalDispersion(waves, water())
        m.weatherers += Emulsification(waves)
        m.spills += spill(1, oil=small_oil(2), amount=1000.)
    return m


def water():
    from gnome.environment import Water
    return Water(temperature=288.15, units={'temperature': 'K'})


def AnyWind(cx, tag):
    from gnome.environment.environment import Environment

    class W(Environment):
        _ref_as = 'wind'
        data_start = BASE
        data_stop = BASE + sec(86400)
        v = 8.0 if tag else cx.real('wind', 0, 30)

        def at(self, points, time, *a, **k):
            return cx.array([[self.v] for p in range(len(points))])

        def get_value(self, points, time):
            return cx.array([self.v for p in range(len(points))])
    return W()


def AnyWaves(cx, tag, wat):
    from gnome.environment.environment import Environment

    class W(Environment):
        _ref_as = 'waves'
        data_start = BASE
        data_stop = BASE + sec(86400)
        water = wat
        h = 1.5 if tag else cx.real('H', 0, 5)

        def get_emulsification_wind(self, points, time):
            return cx.array([8.0] * len(points))

        def get_value(self, points, time):
            n = len(points)
            return cx.array([self.h] * n), cx.array([5.0] * n), cx.array([0.25] * n), cx.array([2.0] * n)
    return W()


def beside(cx, kind, steps=3, other=None):
    """a second model that runs in between"""
    cx.seeded()
    a = build(cx, kind, steps, False)
    a.rewind()
    alone = states(a, steps)
    a.rewind()
    b = build(cx, other or kind, steps, False, 'b_')
    b.rewind()
    out = []
    for k in range(steps):
        if k < steps:
            states(b, 1)
        out += states(a, 1)
        if k == 1:
            b.rewind()
    agree(cx, alone, out, 'beside another model', RANDOM)


def forecast(cx, kind, steps=3):
    """the forecast is the same with and without uncertain elements"""
    cx.seeded()
    m = build(cx, kind, steps, False)
    m.rewind()
    a = states(m, steps)
    m.uncertain = True
    m.rewind()
    b = states(m, steps)
    cx.prove(all(len(x) == 1 for x in a) and all(len(x) == 2 for x in b), 'one or two sets of elements')
    agree(cx, a, b, 'with uncertainty', RANDOM)
    m.uncertain = False
    m.rewind()
    agree(cx, a, states(m, steps), 'uncertainty on and off', RANDOM)


def extras(cx, kind, steps=3):
    """what is switched off, and what only watches, changes nothing"""
    from gnome.movers import SimpleMover, RandomMover
    from gnome.movers.py_current_movers import CurrentMover
    from gnome.movers.py_wind_movers import WindMover
    from gnome.weatherers import Skimmer
    from gnome.outputters import WeatheringOutput, OilBudgetOutput
    from gnome.outputters.memory_outputter import MemoryOutputter
    cx.seeded()
    m = build(cx, kind, steps, False)
    m.rewind()
    a = states(m, steps)
    ob = WeatheringOutput()
    m.movers += SimpleMover(velocity=(1.0, 1.0, 0.0), on=False)
    m.movers += CurrentMover(current=Steady(cx, (0.5, 0.25)), on=False)
    m.movers += WindMover(wind=Steady(cx, (8.0, 2.0), 'wind'), on=False)
    m.movers += RandomMover(diffusion_coef=1024.0, on=False)
    m.weatherers += Skimmer(4.0, units='kg', efficiency=0.5, water=water(), on=False,
                            active_range=(BASE, BASE + sec(2 * TS)))
    m.outputters += ob
    m.outputters += MemoryOutputter()
    m.spills += spill(1, oil=list(m.spills)[0].substance)
    list(m.spills)[-1].on = False
    m.rewind()
    b = states(m, steps)
    agree(cx, a, b, 'with more that is off')


def again(cx, kind, steps, stop, uncertain=False, **kw):
    cx.seeded()
    m = build(cx, kind, steps, uncertain, **kw)
    m.rewind()
    a = states(m, steps)
    if stop:
        m.rewind()
        states(m, stop)
    m.rewind()
    b = states(m, steps)
    agree(cx, a, b, 'rewound')
    cx.observe('x', b[-1][0][0]['positions'][0])


def alter(cx, m, what, tag):
    """one setting of the model, to a new value"""
    mv = list(m.movers)[0] if len(m.movers) else None
    w = list(m.weatherers)[0] if len(m.weatherers) else None
    s = list(m.spills)[0]
    v = lambda lo, hi: cx.real('new_' + what, lo, hi)
    if what == 'velocity':
        mv.velocity = cx.array([v(-2, 2), 0.5, 0.0])
    elif what == 'along':
        mv.uncertain_along = cx.choice('new_along', [0.25, 0.125])
    elif what == 'switch':
        mv.on = False
    elif what == 'range':
        mv.active_range = (BASE + sec(TS), BASE + sec(2 * TS))
    elif what == 'amount':
        s.amount = v(1, 64)
    elif what == 'place':
        s.release.start_position = (v(-1, 1), 0.5, 0.0)
    elif what == 'release':
        s.release_time = BASE + sec(TS)
        s.end_release_time = BASE + sec(2 * TS)
    elif what == 'many':
        s.release.num_elements = 3
    elif what == 'skim':
        w.amount = v(1, 20)
    elif what == 'skim-range':
        w.active_range = (BASE + sec(TS), BASE + sec(3 * TS))
    elif what == 'efficiency':
        w.efficiency = v(0, 1)
    elif what == 'observed':
        w.timeseries = [(BASE + sec(TS), v(1, 5)), (BASE + sec(2 * TS), 2.0)]
    elif what == 'observed-units':
        w.units = 'g'
    elif what == 'start':
        m.start_time = BASE - sec(TS // 2)
    elif what == 'step':
        m.time_step = TS // 2
    elif what == 'w-switch':
        w.on = False


class Once(object):
    """the same input whenever its name is used"""
    def __init__(self, cx):
        self._cx, self._got = cx, {}

    def __getattr__(self, n):
        f = getattr(self._cx, n)
        if n not in ('real', 'int', 'choice', 'flag', 'time'):
            return f

        def get(name, *a, **k):
            if name not in self._got:
                self._got[name] = f(name, *a, **k)
            return self._got[name]
        return get


def changed(cx, kind, what, steps=3, uncertain=False, **kw):
    """settings changed after a run: as a model that had them from the start"""
    cx = Once(cx)
    cx.seeded()
    m = build(cx, kind, steps, uncertain, **kw)
    m.rewind()
    if cx.flag('ran'):
        states(m, steps)
    else:
        states(m, 2)
    alter(cx, m, what, '')
    m.rewind()
    a = states(m, steps)
    n = build(cx, kind, steps, uncertain, **kw)
    alter(cx, n, what, '')
    n.rewind()
    b = states(n, steps)
    agree(cx, a, b, 'changed ' + what)
    cx.observe('x', b[-1][0][0]['mass'][0] if len(b[-1][0][0]['mass']) else 0)


def system(cx, kind, stop, steps=3, dtm=TS, gap=0, **kw):
    """a response system, as a model prepares and runs it, twice"""
    import props.c33_response as r
    w = r.MAKE[kind](**kw)
    runs = []
    t0 = BASE
    masses = [[cx.real('m%d' % j, 1, 1e5) for j in range(2)]]
    for w, n in ((r.MAKE[kind](**kw), steps), (w, stop), (w, steps)):
        sc, comps, mass = r.setup(cx, w, 1, [0], hi=1e5, masses=masses)
        sc.mass_balance['floating'] = mass[0]
        out = []
        for k in range(n):
            t = t0 + sec(dtm * k)
            w.prepare_for_model_step(sc, dtm, t)
            w.weather_elements(sc, dtm, t)
            d, mb = snapshot(sc)
            d.pop('windages', None)         # drawn when released
            out.append([(d, mb)])
            sc.reset_fate_dataview()
        runs.append(out)
    agree(cx, runs[0], runs[2], 'rewound')


PROP = Property('C12', [
    Case('simple', again, dict(kind='simple', steps=3, stop=2)),
    Case('simple-unc', again, dict(kind='simple', steps=3, stop=2, uncertain=True)),
    Case('current', again, dict(kind='current', steps=3, stop=0, uncertain=True)),
    Case('current-long', again, dict(kind='current', steps=3, stop=2, uncertain=True, long=86400.)),
    Case('wind', again, dict(kind='wind', steps=3, stop=0)),
    Case('roc-burn', system, dict(kind='burn', stop=2, dtm=3600, offset=100, boom_length=100, boom_draft=12)),
    Case('roc-burn-1', system, dict(kind='burn', stop=1, steps=2, dtm=3600, offset=100, boom_length=100, boom_draft=12)),
    Case('roc-skim', system, dict(kind='skim', stop=1, steps=2, dtm=3600, storage=100., transit_time=60., rig_time=10.)),
    Case('roc-skim-2', system, dict(kind='skim', stop=2, dtm=3600, storage=100., transit_time=60., rig_time=10.)),
    Case('roc-plane', system, dict(kind='spray', stop=1, steps=1, platform='Test Platform')),
    Case('roc-plane-2', system, dict(kind='spray', stop=1, steps=2, platform='Test Platform')),
    Case('roc-boat', system, dict(kind='spray', stop=2, platform='Typical Large Vessel', transit=1)),
    Case('skim', again, dict(kind='skim', steps=3, stop=0)),
    Case('burn', again, dict(kind='burn', steps=3, stop=2)),
    Case('chem', again, dict(kind='chem', steps=3, stop=2)),
    Case('weather', again, dict(kind='weather', steps=2, stop=1)),
    Case('two-simple', beside, dict(kind='simple')),
    Case('two-skim', beside, dict(kind='skim')),
    Case('two-weather', beside, dict(kind='weather', steps=2)),
    Case('forecast-simple', forecast, dict(kind='simple')),
    Case('forecast-skim', forecast, dict(kind='skim')),
    Case('extras-simple', extras, dict(kind='simple')),
    Case('extras-chem', extras, dict(kind='chem')),
] + [Case('changed-' + w, changed, dict(kind='simple', what=w)) for w in (
        'velocity', 'switch', 'range', 'amount', 'place', 'release', 'many', 'start', 'step')] + [
    Case('changed-along', changed, dict(kind='current', what='along', uncertain=True, long=86400.)),
    Case('changed-skim', changed, dict(kind='skim', what='skim')),
    Case('changed-skim-range', changed, dict(kind='skim', what='skim-range')),
    Case('manual', again, dict(kind='manual', steps=3, stop=2)),
    Case('changed-observed', changed, dict(kind='manual', what='observed')),
    Case('changed-observed-units', changed, dict(kind='manual', what='observed-units')),
    Case('changed-w-switch', changed, dict(kind='skim', what='w-switch')),
    Case('changed-efficiency', changed, dict(kind='chem', what='efficiency')),
    Case('wind-unc', again, dict(kind='wind', steps=3, stop=2, uncertain=True)),
    Case('random', again, dict(kind='random', steps=2, stop=1)),
], pyx=['gnome.utilities.geometry.cy_point_in_polygon', 'gnome.cy_gnome.cy_mover', 'gnome.cy_gnome.cy_random_mover',
        'gnome.cy_gnome.cy_weatherers'])
