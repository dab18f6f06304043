"""C03 weathering: mass leaves the elements and arrives in the mass balance"""
from symex.case import Case, Property
from props.lib import BASE, small_oil, make_sc, set_array, sym_masses, total

INFO = {
 'bounds': '1-2 elements, 1-2 pseudo-components, one step (time step 900 s, symbolic 1..3600 s '
           'for the half-life weatherer); wind speed, area, water fraction, viscosity, density, '
           'wave height, energy, whitecap fraction and sediment load symbolic per element; water '
           'temperature 273.15, 288.15 and 303.15 K; two consecutive steps in thorough',
 'outside': 'float64 rounding; exp, sqrt and fractional powers are uninterpreted functions with '
            'sign, monotonicity and bound axioms (refined at counterexamples); biodegradation and '
            'dissolution (they need SARA data this oil class does not carry)',
 'stubs': ['wind.at and waves.get_value return arbitrary values of their documented ranges'],
 'assumptions': ['masses are non-negative and equal the sum of their components', 'oil lighter '
                 'than water', 'initial mass is at least the current mass', 'areas are positive'],
}


class AnyWind(object):
    """the wind interface the weatherers use: arbitrary speeds"""
    def __init__(self, cx, n):
        self.v = [cx.real('wind%d' % i, 0, 50) for i in range(n)]
        self.cx = cx

    def at(self, points, time, *a, **k):
        return self.cx.array([[x] for x in self.v[:len(points)]])


class AnyWaves(object):
    def __init__(self, cx, n, sediment, water):
        self.h = [cx.real('H%d' % i, 0, 20) for i in range(n)]
        self.f = [cx.real('f%d' % i, 0, 1) for i in range(n)]
        self.e = [cx.real('De%d' % i, 0, 1e4) for i in range(n)]
        self.cx = cx
        self.water = water

    def get_value(self, points, time):
        c = self.cx
        n = len(points)
        return (c.array(self.h[:n]), c.array([5.0] * n), c.array(self.f[:n]),
                c.array(self.e[:n]))


class AnyWater(object):
    kinematic_viscosity = 1e-6
    density = 1025.0

    def __init__(self, sediment, temp=288.15):
        self.s = sediment
        self.t = temp

    def get(self, attr, unit=None):
        return self.s if attr == 'sediment' else self.t


def booked_is_lost(cx, sc, n, k, comps, tot, booked, label):
    after = [sc['mass'][i] for i in range(n)]
    cx.observe('booked', total(booked))
    for b in booked:
        cx.prove(b >= 0, label + ': booked amount is not negative')
    cx.prove(cx.close(total(tot), total(after) + total(booked), 1e-6),
             label + ': mass lost by the elements = mass booked')
    for i in range(n):
        c = [sc['mass_components'][i, j] for j in range(k)]
        cx.observe('mass%d' % i, after[i])
        cx.prove(cx.close(total(c), after[i], 1e-6), label + ': components sum to mass')
        for j in range(k):
            cx.prove(c[j] >= 0, label + ': no component becomes negative')
            cx.prove(c[j] <= comps[i][j] * (1 + 1e-9), label + ': no component gains mass')


def evaporation(cx, n=1, k=2, temp=288.15, steps=1, floating=True):
    from gnome.weatherers import Evaporation
    from gnome.environment import Water
    from gnome.basic_types import fate
    oil = small_oil(k)
    w = Evaporation(wind=AnyWind(cx, n), water=Water(temperature=temp, units={
        'temperature': 'K'}))
    sc = make_sc(cx, n, oil, [w.array_types])
    w.prepare_for_model_run(sc)
    comps, tot = sym_masses(cx, sc, n, k, lo=1e-3, hi=1e6)
    set_array(sc, 'init_mass', [t + cx.real('gone%d' % i, 0, 1e6) for i, t in enumerate(tot)])
    set_array(sc, 'area', [cx.real('area%d' % i, 1e-3, 1e8) for i in range(n)])
    set_array(sc, 'vol_frac_le_st', [cx.real('vf%d' % i, 1e-3, 1) for i in range(n)])
    set_array(sc, 'frac_water', [cx.real('fw%d' % i, 0, 0.99) for i in range(n)])
    if not floating:
        set_array(sc, 'fate_status', [fate.surface_weather] + [fate.non_weather] * (n - 1))
    before = 0.0
    for s in range(steps):
        w.prepare_for_model_step(sc, 900, BASE)
        w.weather_elements(sc, 900, BASE)
        now = sc.mass_balance['evaporated']
        cx.prove(now >= before, 'evaporation: never flows back')
        before = now
    booked_is_lost(cx, sc, n, k, comps, tot, [sc.mass_balance['evaporated']], 'evaporation')
    for i in range(n):
        if floating or i == 0:
            cx.prove(cx.close(sc['frac_lost'][i] * sc['init_mass'][i],
                              sc['init_mass'][i] - sc['mass'][i], 1e-6),
                     'evaporation: lost fraction is the share of the initial mass that is gone')
        else:
            cx.prove(cx.close(sc['mass'][i], tot[i]), 'evaporation: only floating oil')


def dispersion(cx, n=2, k=1, algorithm='D&S1988', sed=True, floating=True):
    from gnome.weatherers import NaturalDispersion
    from gnome.basic_types import fate
    oil = small_oil(k)
    water = AnyWater(cx.real('sediment', 0, 1) if sed else 0.0)
    w = NaturalDispersion(waves=AnyWaves(cx, n, sed, water), water=water, algorithm=algorithm)
    sc = make_sc(cx, n, oil, [w.array_types])
    w.prepare_for_model_run(sc)
    comps, tot = sym_masses(cx, sc, n, k, lo=1e-3, hi=1e6)
    set_array(sc, 'area', [cx.real('area%d' % i, 1e-3, 1e8) for i in range(n)])
    set_array(sc, 'frac_water', [cx.real('fw%d' % i, 0, 0.99) for i in range(n)])
    set_array(sc, 'density', [cx.real('rho%d' % i, 700, 1024) for i in range(n)])
    set_array(sc, 'viscosity', [cx.real('nu%d' % i, 1e-7, 1) for i in range(n)])
    if not floating:
        set_array(sc, 'fate_status', [fate.surface_weather] + [fate.non_weather] * (n - 1))
    w.prepare_for_model_step(sc, 900, BASE)
    w.weather_elements(sc, 900, BASE)
    mb = sc.mass_balance
    booked_is_lost(cx, sc, n, k, comps, tot,
                   [mb['natural_dispersion'], mb['sedimentation']], 'dispersion')
    if not floating:
        for i in range(1, n):
            cx.prove(cx.close(sc['mass'][i], tot[i]), 'dispersion: only floating oil')


def halflife(cx, n=2, k=2):
    from gnome.weatherers import HalfLifeWeatherer
    oil = small_oil(k)
    hl = [900.0, 3600.0, 86400.0][:k]
    w = HalfLifeWeatherer(half_lives=hl)
    sc = make_sc(cx, n, oil, [w.array_types])
    w.prepare_for_model_run(sc)
    comps, tot = sym_masses(cx, sc, n, k, lo=1e-3)
    step = cx.real('step', 1, 3600)
    w.prepare_for_model_step(sc, step, BASE)
    w.weather_elements(sc, step, BASE)
    for i in range(n):
        c = [sc['mass_components'][i, j] for j in range(k)]
        cx.prove(cx.close(total(c), sc['mass'][i], 1e-6), 'half-life: components sum to mass')
        for j in range(k):
            cx.prove(c[j] > 0, 'half-life: never negative')
            cx.prove(c[j] < comps[i][j], 'half-life: always less than before')
            if step == hl[j]:
                cx.prove(cx.close(c[j] * 2, comps[i][j], 1e-6),
                         'half-life: half is left after one half-life')
            elif step < hl[j]:
                cx.prove(c[j] * 2 > comps[i][j] * (1 - 1e-6), 'half-life: more than half before it')
            else:
                cx.prove(c[j] * 2 < comps[i][j] * (1 + 1e-6), 'half-life: less than half after it')


def inactive(cx, which='evap'):
    """off, or outside the active range: nothing changes"""
    from gnome.weatherers import Evaporation, NaturalDispersion, HalfLifeWeatherer
    from gnome.environment import Water
    n, k = 1, 2
    oil = small_oil(k)
    start = cx.time('start', 0, 5000)
    stop = cx.time('stop', 0, 5000)
    cx.assume(start < stop)
    on = cx.flag('on')
    kw = dict(active_range=(start, stop), on=on)
    if which == 'evap':
        w = Evaporation(wind=AnyWind(cx, n), water=Water(temperature=288.15, units={
            'temperature': 'K'}), **kw)
    elif which == 'disp':
        water = AnyWater(0.0)
        w = NaturalDispersion(waves=AnyWaves(cx, n, 0, water), water=water, **kw)
    else:
        w = HalfLifeWeatherer(half_lives=[900., 1800.], **kw)
    sc = make_sc(cx, n, oil, [w.array_types])
    w.prepare_for_model_run(sc)
    comps, tot = sym_masses(cx, sc, n, k, lo=1.0)
    set_array(sc, 'init_mass', tot) if 'init_mass' in sc else None
    t = cx.time('t', 0, 5000)
    import datetime as dt
    w.prepare_for_model_step(sc, 900, t)
    mid = t + dt.timedelta(seconds=450)
    if on and start <= mid and stop >= mid:
        return
    w.weather_elements(sc, 900, t)
    cx.prove(cx.close(sc['mass'][0], tot[0]), 'inactive: mass unchanged')
    for j in range(k):
        cx.prove(cx.close(sc['mass_components'][0, j], comps[0][j]),
                 'inactive: components unchanged')


PROP = Property('C03', [
    Case('evap-273', evaporation, dict(temp=273.15)),
    Case('evap-288', evaporation, dict(temp=288.15)),
    Case('evap-303', evaporation, dict(temp=303.15)),
    Case('evap-2', evaporation, dict(n=2, k=1)),
    Case('evap-fate', evaporation, dict(n=2, k=1, floating=False)),
    Case('disp-ds', dispersion, dict(n=1, k=2)),
    Case('disp-ds-2', dispersion, tier='thorough', budget=1500), Case('disp-ds-clear', dispersion, dict(sed=False)),
    Case('disp-ds-fate', dispersion, dict(floating=False)),
    Case('disp-li', dispersion, dict(algorithm='Li2017', n=1)),
    Case('disp-li-2', dispersion, dict(algorithm='Li2017', n=2, sed=False), tier='thorough',
         budget=1500),
    Case('halflife', halflife),
    Case('inactive-evap', inactive), Case('inactive-disp', inactive, dict(which='disp')),
    Case('inactive-half', inactive, dict(which='half')),
    Case('evap-two-steps', evaporation, dict(n=1, k=1, steps=2), tier='thorough'),
    Case('evap-22', evaporation, dict(n=2, k=2), tier='thorough'),
    Case('disp-22', dispersion, dict(n=2, k=2), tier='thorough'),
])
