"""C33: what a response system takes out of the oil is booked, and only that"""
import datetime as dt

from symex.case import Case, Property
from props.lib import BASE, small_oil, make_sc, set_array, sym_masses, total

INFO = {
    'functions': ['roc.Burn.prepare_for_model_step', 'roc.Burn.weather_elements', 'roc.Burn._collect', 'roc.Burn._transit',
                  'roc.Burn._burn', 'roc.Burn._clean', 'roc.Skim.prepare_for_model_step', 'roc.Skim.weather_elements',
                  'roc.Skim._collect', 'roc.Skim._transit', 'roc.Skim._offload', 'roc.Response._remove_mass_simple',
                  'roc.Response._remove_mass_indices', 'roc.Response._is_active', 'roc.Response._get_thickness',
                  'roc.Disperse.prepare_for_model_step', 'roc.Disperse.weather_elements'],
    'bounds': 'one or two elements of two components each, component masses free in 1 .. 1e6 kg (0 .. 1e6 in the "-0" '
              'cases, 1 .. 1e5 for spraying), area 5000 m2, water fraction 0.25, density 900; one system at a time; up to '
              'three steps of 900 or 3600 s; two burn and two skimmer set-ups (a long trip, and one that fills, transits and '
              'comes back within the steps), a sprayer from an aircraft or a vessel; model time free over 6 h with two '
              'periods of activity in the idle cases, steps of 600 or 3600 s',
    'outside': 'the encounter rates, pump rates and units themselves (a skimmer removes gallons as kg), the burning time '
               'that is reported, more than one system at a time, platforms and dispersants other than the named ones',
    'stubs': ['the wind is a steady 6.25 m/s (duck-typed)'],
    'assumptions': ['real arithmetic for double'],
}


def timeseries(*hours):
    h = lambda x: BASE + dt.timedelta(hours=x)
    return [(h(a), h(b)) for a, b in hours]


def burner(**kw):
    from gnome.weatherers import ROC_Burn
    d = dict(offset=5280, boom_length=500, boom_draft=24, speed=0.75, throughput=0.75, burn_efficiency_type=1,
             timeseries=timeseries((0, 12)))
    d.update(kw)
    return ROC_Burn(**d)


def skimmer(**kw):
    from gnome.weatherers import ROC_Skim
    d = dict(speed=1., storage=1000., swath_width=150., group='a', throughput=0.75, nameplate_pump=500., recovery=0.8,
             recovery_ef=0.75, decant=0.5, decant_pump=100., rig_time=30., discharge_pump=600., skim_efficiency_type='x',
             transit_time=30., timeseries=timeseries((0, 12)))
    d.update(kw)
    return ROC_Skim(**d)


class Breeze(object):
    """a steady wind"""
    def get_value(self, time):
        return 6.25, 90.


def sprayer(**kw):
    from gnome.weatherers import ROC_Disperse
    d = dict(transit=5, pass_length=4, dosage=5., timeseries=timeseries((0, 12)), platform='Test Platform', wind=Breeze())
    d.update(kw)
    return ROC_Disperse(**d)


MAKE = {'burn': burner, 'skim': skimmer, 'spray': sprayer}


def setup(cx, w, n, fates, area=5000., fw=0.25, lo=1.0, hi=1e6, visc=None, masses=None):
    from gnome.basic_types import fate
    sc = make_sc(cx, n, small_oil(2), [w.array_types, 'mass', 'mass_components', 'area', 'frac_water', 'density',
                                      'viscosity', 'fate_status'])
    if masses:
        comps, mass = masses, [total(c) for c in masses]
        set_array(sc, 'mass_components', comps)
        set_array(sc, 'mass', mass)
    else:
        comps, mass = sym_masses(cx, sc, n, 2, lo, hi)
    for i in range(n):
        sc['area'][i] = area
        sc['frac_water'][i] = fw
        sc['density'][i] = 900.
        sc['viscosity'][i] = visc[i] if visc else 1e-4
        sc['fate_status'][i] = [fate.surface_weather, fate.non_weather, fate.subsurf_weather][fates[i]]
    sc.reset_fate_dataview()
    if w.on:
        w.prepare_for_model_run(sc)
    return sc, comps, mass


def judge(cx, sc, w, comps, fates, names, booked0, own0):
    """after a step; comps: components before; returns (components, booked, own) now"""
    n = len(fates)
    new = [[sc['mass_components'][i, j] for j in range(2)] for i in range(n)]
    for i in range(n):
        cx.prove(cx.close(sc['mass'][i], new[i][0] + new[i][1], 1e-6, 1e-9), 'mass is the sum of the components')
        if fates[i]:
            cx.prove(cx.all([new[i][j] == comps[i][j] for j in range(2)]), 'oil that does not float is not taken')
        else:
            cx.prove(cx.all([cx.all([new[i][j] >= 0, new[i][j] <= comps[i][j]]) for j in range(2)]),
                     'no more is taken than there is')
            cx.prove(cx.close(new[i][0] * comps[i][1], new[i][1] * comps[i][0], 1e-3, 1e-9), 'the composition stays')
    mb = sc.mass_balance
    own = mb['systems'][w.id]
    out = total(total(c) for c in comps) - total(total(c) for c in new)
    b = total(mb[k] for k in names)
    o = own[names[0]]
    cx.prove(cx.close(b - booked0, out, 1e-3, 1e-9), 'what is taken is booked')
    cx.prove(cx.close(o - own0, out, 1e-3, 1e-9), 'under its own entry too')
    cx.prove(cx.all([mb[k] >= 0 for k in names]), 'no amount is negative')
    if 'burned' in names:
        cx.prove(cx.close(mb['burned'], own['burned'], 1e-3, 1e-9), 'what is burned is the same in both entries')
    return new, b, o


def run(cx, kind, fates, steps, dtm=900, area=5000., fw=0.25, on=True, at=0, lo=1.0, hi=1e6, **kw):
    w = MAKE[kind](on=on, **kw)
    sc, comps, mass = setup(cx, w, len(fates), fates, area, fw, lo, hi)
    names = {'burn': ['boomed', 'burned'], 'skim': ['skimmed']}[kind]
    t = BASE + dt.timedelta(seconds=at)
    b = o = 0
    for k in range(steps):
        w.prepare_for_model_step(sc, dtm, t)
        w.weather_elements(sc, dtm, t)
        comps, b, o = judge(cx, sc, w, comps, fates, names, b, o)
        st = sc.mass_balance['systems'][w.id]['state']
        cx.prove(cx.all([s[1] >= 0 for s in st]), 'no phase of a step is of negative length')
        if st:
            cx.prove(cx.close(total(s[1] for s in st), dtm, 1e-6), 'the phases of a step last as long as it')
        sc.reset_fate_dataview()
        t = t + dt.timedelta(seconds=dtm)


def idle(cx, kind, on=True):
    """switched off, or outside of its times"""
    n, fates = 2, [0, 0]
    h = timeseries((1, 1.5), (3, 4))
    w = MAKE[kind](on=on, timeseries=h)
    sc, comps, mass = setup(cx, w, n, fates)
    dtm = cx.choice('step', [600, 3600])
    t = cx.time('t', 0, 21600, BASE)
    if on:
        half = dt.timedelta(seconds=dtm / 2)
        cx.assume(cx.not_(cx.any([cx.all([t >= a, t + half <= b]) for a, b in h])))
    w.prepare_for_model_step(sc, dtm, t)
    w.weather_elements(sc, dtm, t)
    for i in range(n):
        cx.prove(cx.all([sc['mass_components'][i, j] == comps[i][j] for j in range(2)]), 'nothing is taken')
        cx.prove(sc['mass'][i] == mass[i], 'nothing is taken')
    mb = sc.mass_balance
    for k in ('boomed', 'burned', 'skimmed', 'chem_dispersed'):
        if k in mb:
            cx.prove(mb[k] == 0, 'nor booked')


def spray(cx, platform, steps, dtm=900, n=1, hi=1e5, visc=None, **kw):
    """dispersant from the air or from a boat"""
    w = sprayer(platform=platform, **kw)
    sc, comps, mass = setup(cx, w, n, [0] * n, hi=hi, visc=visc)
    sc.mass_balance['floating'] = total(mass)
    t = BASE
    b = o = 0
    took = False
    for k in range(steps):
        f0 = sc.mass_balance['floating']
        w.prepare_for_model_step(sc, dtm, t)
        w.weather_elements(sc, dtm, t)
        own = sc.mass_balance['systems'][w.id]
        new = [[sc['mass_components'][i, j] for j in range(2)] for i in range(n)]
        for i in range(n):
            cx.prove(cx.close(sc['mass'][i], new[i][0] + new[i][1], 1e-6, 1e-9), 'mass is the sum of the components')
            cx.prove(cx.all([cx.all([new[i][j] >= 0, new[i][j] <= comps[i][j]]) for j in range(2)]),
                     'no more is taken than there is')
            cx.prove(cx.close(new[i][0] * comps[i][1], new[i][1] * comps[i][0], 1e-3, 1e-9), 'the composition stays')
            if visc and visc[i] >= 1:
                cx.prove(cx.all([new[i][j] == comps[i][j] for j in range(2)]), 'stiff oil does not disperse')
        out = total(total(c) for c in comps) - total(total(c) for c in new)
        mb = sc.mass_balance
        cx.prove(cx.close(mb['chem_dispersed'] - b, out, 1e-3, 1e-9), 'what is taken is booked')
        cx.prove(cx.close(own['dispersed'] - o, out, 1e-3, 1e-9), 'under its own entry too')
        cx.prove(cx.close(f0 - mb['floating'], out, 1e-3, 1e-9), 'and no longer floats')
        cx.prove(cx.close(own['dispersant_applied'], own['payloads_delivered'] * w.platform.get('payload', 'm^3'), 1e-6),
                 'dispersant applied is payloads delivered')
        b, o, comps = mb['chem_dispersed'], own['dispersed'], new
        st = own['state']
        cx.prove(cx.all([s[1] >= 0 for s in st]), 'no phase of a step is of negative length')
        cx.prove(cx.implies(len(st) > 0, total(s[1] for s in st) <= dtm + 1e-6), 'the phases fit in the step')
        cx.observe('took', out)
        sc.reset_fate_dataview()
        t = t + dt.timedelta(seconds=dtm)


PROP = Property('C33', [
    Case('burn-1', run, dict(kind='burn', fates=[0], steps=2)),
    Case('burn-2', run, dict(kind='burn', fates=[0, 1], steps=1)),
    Case('skim-1', run, dict(kind='skim', fates=[0], steps=2)),
    Case('burn-0', run, dict(kind='burn', fates=[0, 1], steps=1, lo=0.0)),
    Case('skim-0', run, dict(kind='skim', fates=[0, 2], steps=1, lo=0.0)),
    Case('burn-cycle', run, dict(kind='burn', fates=[0], steps=3, dtm=3600, offset=100, boom_length=100, boom_draft=12)),
    Case('skim-cycle', run, dict(kind='skim', fates=[0], steps=3, dtm=3600, storage=100., transit_time=10., rig_time=10.)),
    Case('plane', spray, dict(platform='Test Platform', steps=2)),
    Case('boat', spray, dict(platform='Typical Large Vessel', steps=3, transit=1)),
    Case('plane-2', spray, dict(platform='Test Platform', steps=1, n=2, visc=[1e-4, 2.0])),
    Case('plane-3', spray, dict(platform='Test Platform', steps=1, n=2, visc=[1e-4, 4e-3])),
    Case('burn-idle', idle, dict(kind='burn')),
    Case('skim-idle', idle, dict(kind='skim')),
    Case('spray-idle', idle, dict(kind='spray')),
    Case('burn-off', idle, dict(kind='burn', on=False)),
    Case('skim-off', idle, dict(kind='skim', on=False)),
    Case('spray-off', idle, dict(kind='spray', on=False)),
    Case('skim-2', run, dict(kind='skim', fates=[0, 2], steps=1)),
])
