"""C01 response actions: what they remove is what they book"""
from symex.case import Case, Property
from props.lib import small_oil, make_sc, set_array, sym_masses, total

INFO = {
 'bounds': '2-3 elements, 2 pseudo-components, one or two consecutive steps of 900 s; all '
           'masses, water fractions, amounts, areas, efficiencies, start and stop times '
           '(whole seconds, start anywhere relative to the step) symbolic; Skimmer in kg, '
           'm^3, bbl, gal and lb; manual beaching over up to 4 steps, with 1 or 2 sub-steps, two '
           'observed amounts (symbolic) and 4 start times within and outside a step',
 'outside': 'float64 rounding (arithmetic over the reals, equality to 1e-9 relative), more '
            'elements or components than the bound, several substances in one container, '
            'wind- or wave-derived efficiencies',
 'stubs': ['logging', 'oil properties of a small concrete GnomeOil'],
 'assumptions': ['element masses are non-negative and equal the sum of their components on '
                 'entry', 'water fractions in [0, 0.95]', 'start < stop'],
}


def kg(units, amount, oil):
    rho = oil.standard_density
    f = {'kg': 1.0, 'lb': 0.45359237, 'm^3': rho, 'bbl': rho * 0.158987294928,
         'gal': rho * 0.003785411784}[units]
    return amount * f


def accounts(cx, sc, n, k, comps, tot, booked, label):
    """what left the elements is what was booked, evenly over components"""
    after = [sc['mass'][i] for i in range(n)]
    cx.observe('booked', booked)
    cx.prove(booked >= 0, label + ': booked amount is not negative')
    cx.prove(cx.close(total(tot), total(after) + booked, 1e-6),
             label + ': mass lost by the elements = mass booked')
    for i in range(n):
        c = [sc['mass_components'][i, j] for j in range(k)]
        cx.observe('mass%d' % i, after[i])
        cx.prove(cx.close(total(c), after[i], 1e-6), label + ': components sum to mass')
        cx.prove(after[i] <= tot[i] + 1e-9, label + ': no element gains mass')
        for j in range(k):
            cx.prove(c[j] >= 0, label + ': no component becomes negative')
            # every component of an element shrinks by the same fraction
            cx.prove(cx.close(c[j] * tot[i], comps[i][j] * after[i], 1e-6, 1e-9),
                     label + ': composition of an element is unchanged')


def overlap(cx, t, step, start, stop):
    """seconds of [t, t+step] inside [start, stop] (as a number)"""
    a = start if start > t else t
    e = t + step
    b = stop if stop < e else e
    if b <= a:
        return 0
    return (b - a).total_seconds()


def states(cx, sc, n):
    """elements are surface oil unless told otherwise"""
    from gnome.basic_types import fate
    return [cx.choice('fate%d' % i, [fate.surface_weather, fate.non_weather])
            for i in range(n)]


def skim(cx, n=2, k=2, units='kg', mixed=False, loss=False):
    import datetime as dt
    from gnome.weatherers import Skimmer
    oil = small_oil(k)
    start = cx.time('start', 0, 4000)
    stop = cx.time('stop', 0, 4000)
    cx.assume(start < stop)
    eff = cx.real('eff', 0, 1)
    amount = cx.real('amount', 0, 1e6)
    w = Skimmer(amount=amount, units=units, efficiency=eff, active_range=(start, stop))
    sc = make_sc(cx, n, oil, [w.array_types])
    w.prepare_for_model_run(sc)
    comps, tot = sym_masses(cx, sc, n, k)
    set_array(sc, 'frac_water', [cx.real('fw%d' % i, 0, 0.95) for i in range(n)])
    fates = None
    if mixed:
        fates = states(cx, sc, n)
        set_array(sc, 'fate_status', fates)
    t = cx.time('t', 0, 4000)
    w.prepare_for_model_step(sc, 900, t)
    if loss:
        comps, tot = other_losses(cx, sc, n, k, comps)
    w.weather_elements(sc, 900, t)
    rm = sc.mass_balance['skimmed']
    accounts(cx, sc, n, k, comps, tot, rm, 'skim')
    ov = overlap(cx, t, dt.timedelta(seconds=900), start, stop)
    dur = (stop - start).total_seconds()
    # never more than the requested rate for the time the skimmer worked
    if n == 1:
        cx.prove(rm * dur <= kg(units, amount, oil) * eff * ov * (1 + 1e-6) + 1e-6,
                 'skim: at most the requested rate over the active time')
    if mixed:
        from gnome.basic_types import fate
        for i in range(n):
            if fates[i] == fate.non_weather:
                cx.prove(cx.close(sc['mass'][i], tot[i]), 'skim: only floating oil is skimmed')


def other_losses(cx, sc, n, k, comps):
    """other processes take mass between the marking and the removal"""
    left = [cx.real('left%d' % i, 0, 1) for i in range(n)]
    comps = [[comps[i][j] * left[i] for j in range(k)] for i in range(n)]
    tot = [total(c) for c in comps]
    set_array(sc, 'mass_components', comps)
    set_array(sc, 'mass', tot)
    sc.reset_fate_dataview()      # as the model does before it weathers
    return comps, tot


def burn(cx, n=2, k=2, loss=False):
    import datetime as dt
    from gnome.weatherers import Burn
    oil = small_oil(k)
    start = cx.time('start', 0, 3000)
    eff = cx.real('eff', 0, 1)
    area = cx.real('area', 0.1, 1e5)
    thick = cx.real('thick', 0.003, 1.0)
    w = Burn(area=area, thickness=thick, active_range=(start, start + dt.timedelta(days=1)),
             efficiency=eff)
    sc = make_sc(cx, n, oil, [w.array_types])
    w.prepare_for_model_run(sc)
    comps, tot = sym_masses(cx, sc, n, k)
    set_array(sc, 'frac_water', [0.0 if loss else cx.real('fw%d' % i, 0, 0.95)
                                 for i in range(n)])
    t = cx.time('t', 0, 3000)
    w.prepare_for_model_step(sc, 900, t)
    if loss:
        comps, tot = other_losses(cx, sc, n, k, comps)
    w.weather_elements(sc, 900, t)
    rm = sc.mass_balance['burned']
    accounts(cx, sc, n, k, comps, tot, rm, 'burn')
    if n == 1:
        cx.prove(rm <= oil.standard_density * area * thick * eff * (1 + 1e-6) + 1e-6,
                 'burn: at most the boomed oil times the efficiency')


def chem(cx, n=2, k=2, loss=False):
    import datetime as dt
    from gnome.weatherers import ChemicalDispersion
    oil = small_oil(k)
    start = cx.time('start', 0, 4000)
    stop = cx.time('stop', 0, 4000)
    cx.assume(start < stop)
    eff = cx.real('eff', 0, 1, lo_strict=True)
    frac = cx.real('frac', 0, 1)
    w = ChemicalDispersion(fraction_sprayed=frac, active_range=(start, stop),
                           efficiency=eff)
    sc = make_sc(cx, n, oil, [w.array_types], amount=1000.0)
    w.prepare_for_model_run(sc)
    comps, tot = sym_masses(cx, sc, n, k)
    set_array(sc, 'frac_water', [cx.real('fw%d' % i, 0, 0.95) for i in range(n)])
    t = cx.time('t', 0, 4000)
    w.prepare_for_model_step(sc, 900, t)
    if loss:
        comps, tot = other_losses(cx, sc, n, k, comps)
    w.weather_elements(sc, 900, t)
    rm = sc.mass_balance['chem_dispersed']
    accounts(cx, sc, n, k, comps, tot, rm, 'chem')
    ov = overlap(cx, t, dt.timedelta(seconds=900), start, stop)
    dur = (stop - start).total_seconds()
    cx.prove(rm * dur <= 1000.0 * frac * eff * ov * (1 + 1e-6) + 1e-6,
             'chem: at most the sprayed fraction over the active time')


def two_actions(cx, k=2):
    """a skimmer and a dispersant operation in the same step never remove the same oil"""
    from gnome.weatherers import Skimmer, ChemicalDispersion
    n = 2
    oil = small_oil(k)
    s = Skimmer(amount=cx.real('amount', 0, 1e5), units='kg', efficiency=cx.real('e1', 0, 1),
                active_range=(cx.time('s0', 0, 0), cx.time('s1', 1, 4000)))
    c = ChemicalDispersion(fraction_sprayed=cx.real('frac', 0, 1),
                           active_range=(cx.time('c0', 0, 0), cx.time('c1', 1, 4000)),
                           efficiency=cx.real('e2', 0, 1, lo_strict=True))
    at = dict(s.array_types)
    at.update(c.array_types)
    sc = make_sc(cx, n, oil, [at], amount=1000.0)
    s.prepare_for_model_run(sc)
    c.prepare_for_model_run(sc)
    comps, tot = sym_masses(cx, sc, n, k)
    t = cx.time('t', 0, 0)
    for w in (s, c):
        w.prepare_for_model_step(sc, 900, t)
    for w in (s, c):
        w.weather_elements(sc, 900, t)
    accounts(cx, sc, n, k, comps, tot,
             sc.mass_balance['skimmed'] + sc.mass_balance['chem_dispersed'], 'two actions')


def manual(cx, n=2, k=2, subs=1, units='kg', steps=4):
    """manual beaching: the observed amounts leave the water, over the observed times"""
    import datetime as dt
    from gnome.weatherers import Beaching
    from props.lib import BASE
    oil = small_oil(k)
    sec = lambda s: BASE + dt.timedelta(seconds=s)
    s0 = cx.choice('start', [0, 300, 900, 1100])
    v = [cx.real('v%d' % i, 0, 1e5) for i in range(2)]
    ends = [1350, 2700]
    w = Beaching(active_range=(sec(s0), sec(5000)), units=units,
                 timeseries=[(sec(e), x) for e, x in zip(ends, v)])
    sc = make_sc(cx, n, oil, [w.array_types])
    w.prepare_for_model_run(sc)
    comps, tot = sym_masses(cx, sc, n, k)
    m = [kg(units, x, oil) for x in v]
    enough = cx.all([m[0] + m[1] < 0.999 * total(tot)])
    for i in range(steps):
        t = 900 * i
        before = sc.mass_balance['observed_beached']
        w.prepare_for_model_step(sc, 900, sec(t))
        for j in range(subs):
            sc.reset_fate_dataview()
            w.weather_elements(sc, 900 // subs, sec(t + j * 900 // subs))
        done = sc.mass_balance['observed_beached']
        a, b = 0.0, s0
        for e, x in zip(ends, m):
            a = a + x * max(0.0, min(t + 900, e) - b) / (e - b)
            b = e
        cx.prove(cx.implies(enough, cx.close(done, a, 1e-6)),
                 'manual beaching: the observed amounts so far have left the water')
        cx.prove(done >= before, 'manual beaching: nothing is given back')
        accounts(cx, sc, n, k, comps, tot, done, 'manual beaching')
        w.model_step_is_done(sc)


R = dict(n=1, k=1)
PROP = Property('C01', [
    Case('skim', skim), Case('skim-mixed', skim, dict(mixed=True)),
    Case('burn', burn), Case('chem', chem), Case('two-actions', two_actions),
    Case('burn-loss', burn, dict(loss=True, k=1)), Case('chem-loss', chem, dict(loss=True, k=1)),
    Case('skim-loss', skim, dict(loss=True, k=1)),
    Case('manual', manual, dict(n=1, k=1)), Case('manual-subs', manual, dict(subs=2, n=1, k=1, steps=2)),
    Case('manual-m3', manual, dict(n=1, k=1, units='m^3')), Case('manual-2', manual, dict(steps=2)),
    Case('burn-rate', burn, R), Case('chem-rate', chem, R),
] + [Case('skim-rate-' + u, skim, dict(R, units=u)) for u in ('kg', 'lb', 'm^3', 'bbl', 'gal')] + [
    Case('skim-3', skim, dict(n=3), tier='thorough'),
    Case('burn-3', burn, dict(n=3), tier='thorough'),
    Case('chem-3', chem, dict(n=3), tier='thorough'),
])
