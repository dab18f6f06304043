"""C02 response actions: the amount asked for, over the time asked for"""
import datetime as dt
from symex.case import Case, Property
from props.lib import small_oil, make_sc, set_array, sym_masses, total
from props.c01_cleanup import kg

INFO = {
 'bounds': 'runs of 1-4 consecutive steps (5 in thorough) with a symbolic step length of 60 to '
           '3600 whole seconds, one element, two components; start and stop at any whole '
           'second of the run, including both inside one step; amount, fraction, efficiency '
           'symbolic; enough oil present',
 'outside': 'oil running out (C01 bounds what is taken then), sub-second times, float64 '
            'rounding',
 'stubs': ['logging', 'a small concrete GnomeOil'],
 'assumptions': ['the run covers the active range and the steps tile the run'],
}


def tiling(cx, mk, key, expect, steps=3, n=1, k=2, sub=1):
    step = cx.int('step', 60, 3600)
    parts = [step]
    if sub == 2:
        # the model may weather a step in several sub-steps
        p0 = cx.int('substep', 1, 3600)
        cx.assume(p0 < step)
        parts = [p0, step - p0]
    start = cx.time('start', 0, 20000)
    stop = cx.time('stop', 0, 20000)
    cx.assume(start < stop)
    # window inside the run
    t0 = cx.time('t0', 0, 20000)
    end = t0 + dt.timedelta(seconds=1) * (step * steps) if not cx.symbolic else \
        t0 + _delta(cx, step * steps)
    cx.assume(start >= t0)
    cx.assume(stop <= end)
    oil = small_oil(k)
    w = mk(cx, start, stop)
    sc = make_sc(cx, n, oil, [w.array_types], amount=1000.0)
    w.prepare_for_model_run(sc)
    big = 1e9
    comps = [[big] * k for _ in range(n)]
    set_array(sc, 'mass_components', comps)
    set_array(sc, 'mass', [big * k] * n)
    t = t0
    got = []
    for i in range(steps):
        w.prepare_for_model_step(sc, step, t)
        before = sc.mass_balance[key]
        ts = t
        for p in parts:
            w.weather_elements(sc, p, ts)
            ts = ts + _delta(cx, p)
        d = sc.mass_balance[key] - before
        nt = t + _delta(cx, step)
        if (nt <= start) or (t >= stop):
            cx.prove(cx.close(d, 0, 1e-9), key + ': nothing outside the active range')
        else:
            cx.prove(d >= 0, key + ': not negative inside the active range')
        t = nt
    tot = sc.mass_balance[key]
    cx.observe('total', tot)
    want = expect(cx, oil)
    cx.prove(cx.close(tot, want, 1e-6, 1e-6),
             key + ': the amount asked for, whatever the steps')


def _delta(cx, s):
    if cx.symbolic:
        from symex.core import SymDelta
        return SymDelta(s)
    return dt.timedelta(seconds=s)


def mk_skim(units):
    def mk(cx, start, stop):
        from gnome.weatherers import Skimmer
        return Skimmer(amount=cx.real('amount', 0, 1e5), units=units,
                       efficiency=cx.real('eff', 0, 1), active_range=(start, stop))
    return mk


def skim_run(cx, steps=3, units='kg', sub=1):
    st = {}

    def mk(cx, start, stop):
        from gnome.weatherers import Skimmer
        st['a'] = cx.real('amount', 0, 1e5)
        st['e'] = cx.real('eff', 0, 1)
        return Skimmer(amount=st['a'], units=units, efficiency=st['e'],
                       active_range=(start, stop))
    tiling(cx, mk, 'skimmed', lambda cx, oil: kg(units, st['a'], oil) * st['e'],
           steps, sub=sub)


def chem_run(cx, steps=3, sub=1):
    st = {}

    def mk(cx, start, stop):
        from gnome.weatherers import ChemicalDispersion
        st['f'] = cx.real('frac', 0, 1)
        st['e'] = cx.real('eff', 0, 1, lo_strict=True)
        return ChemicalDispersion(fraction_sprayed=st['f'], efficiency=st['e'],
                                  active_range=(start, stop))
    tiling(cx, mk, 'chem_dispersed', lambda cx, oil: 1000.0 * st['f'] * st['e'],
           steps, sub=sub)


def burn_run(cx, steps=2, fw=0.0):
    """a burn ends by itself when the layer is 2 mm thick: all oil above that is burned"""
    from gnome.weatherers import Burn
    oil = small_oil(2)
    start = cx.time('start', 0, 7200)
    thick = cx.real('thick', 0.0025, 0.1)
    area = cx.real('area', 1.0, 1e4)
    eff = cx.real('eff', 0, 1, lo_strict=True)
    step = 3600
    # whole burn inside the run
    dur = (thick - 0.002) / 0.000058 / (1 - fw)
    t = cx.time('t0', 0, 7200)
    cx.assume(start >= t)
    off = (start - t).total_seconds()
    cx.assume(off + dur <= step * steps)
    w = Burn(area=area, thickness=thick, efficiency=eff,
             active_range=(start, start + dt.timedelta(days=1)))
    sc = make_sc(cx, 1, oil, [w.array_types])
    w.prepare_for_model_run(sc)
    set_array(sc, 'mass_components', [[1e9, 1e9]])
    set_array(sc, 'mass', [2e9])
    set_array(sc, 'frac_water', [fw])
    for i in range(steps):
        w.prepare_for_model_step(sc, step, t)
        before = sc.mass_balance['burned']
        w.weather_elements(sc, step, t)
        cx.prove(sc.mass_balance['burned'] >= before, 'burned: never decreases')
        nt = t + dt.timedelta(seconds=step)
        if nt <= start:
            cx.prove(cx.close(sc.mass_balance['burned'], 0), 'burned: nothing before the start')
        t = nt
    want = oil.standard_density * area * (thick - 0.002) * eff * (1 - fw)
    cx.observe('burned', sc.mass_balance['burned'])
    # burn times are kept to the microsecond
    cx.prove(cx.close(sc.mass_balance['burned'], want, 1e-3, 1e-4),
             'burned: all oil above the minimum thickness, whatever the steps')


def off(cx):
    """switched off: nothing is taken"""
    from gnome.weatherers import Skimmer, ChemicalDispersion, Burn
    start = cx.time('start', 0, 4000)
    stop = cx.time('stop', 0, 4000)
    cx.assume(start < stop)
    ws = [Skimmer(amount=cx.real('amount', 0, 1e5), units='kg', active_range=(start, stop)),
          ChemicalDispersion(fraction_sprayed=0.5, active_range=(start, stop)),
          Burn(area=100., thickness=0.1, active_range=(start, stop))]
    at = {}
    for w in ws:
        at.update(w.array_types)
        w.on = False
    sc = make_sc(cx, 1, small_oil(2), [at])
    m = cx.real('m', 1.0, 1e5)
    set_array(sc, 'mass_components', [[m, m]])
    set_array(sc, 'mass', [2 * m])
    for w in ws:
        w.prepare_for_model_run(sc)
    t = cx.time('t', 0, 4000)
    for w in ws:
        w.prepare_for_model_step(sc, 900, t)
    for w in ws:
        w.weather_elements(sc, 900, t)
    cx.prove(cx.close(sc['mass'][0], 2 * m), 'off: no mass is removed')


PROP = Property('C02', [
    Case('skim-1', skim_run, dict(steps=1)), Case('skim-2', skim_run, dict(steps=2)),
    Case('skim-3', skim_run, dict(steps=3)),
    Case('skim-bbl', skim_run, dict(steps=2, units='bbl')),
    Case('chem-2', chem_run, dict(steps=2)), Case('chem-3', chem_run, dict(steps=3)),
    Case('burn-2', burn_run), Case('burn-water', burn_run, dict(fw=0.25)),
    Case('skim-sub', skim_run, dict(steps=1, sub=2)),
    Case('chem-sub', chem_run, dict(steps=1, sub=2)),
    Case('skim-2sub', skim_run, dict(steps=2, sub=2), tier='thorough'),
    Case('off', off),
    Case('skim-5', skim_run, dict(steps=5), tier='thorough'),
    Case('chem-5', chem_run, dict(steps=5), tier='thorough'),
    Case('burn-4', burn_run, dict(steps=4), tier='thorough'),
])
