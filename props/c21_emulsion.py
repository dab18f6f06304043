"""C21: water is taken up by floating oil once it has weathered enough, up to its maximum"""
from symex.case import Case, Property
from props.lib import BASE, small_oil, make_sc, set_array, sym_masses, total

INFO = {
    'functions': ['gnome.weatherers.emulsification.Emulsification.weather_elements',
                  'gnome.weatherers.emulsification.Emulsification.prepare_for_model_step',
                  'gnome.environment.waves.Waves.get_emulsification_wind',
                  'gnome.cy_gnome.cy_weatherers.emulsify_oil', 'emulsify (lib_gnome/Weatherers_c.cpp)'],
    'bounds': '1 and 2 elements of age 0, 20 or 25 min and 25 h, any evaporated fraction, interfacial area and earlier start; any '
              'maximum water fraction in 0..0.95, any threshold (fraction or hours), steps of 1 to 3600 s, wind 0 to 40 '
              'm/s; one step, and up to three steps in a row (900 s, maximum water fraction 0.5)',
    'outside': 'float64 rounding; exp is uninterpreted with sign, monotonicity and bound axioms, refined at '
               'counterexamples; wave heights other than none, 0.5, 2 and 8 m',
    'stubs': ['a wind with arbitrary speed per element'],
    'assumptions': ['interfacial area at most the maximum the oil can reach'],
}

DMIN, DMAX, K0Y = 1e-6, 1e-5, 2.02e-06


class AnyWind(object):
    def __init__(self, cx, v):
        self.cx, self.v = cx, v

    def at(self, points, time, *a, **k):
        return self.cx.array([[x] for x in self.v[:len(points)]])


def setup(cx, n, wave=None, **oil):
    from gnome.weatherers import Emulsification
    from gnome.environment import Waves, Water
    wind = [cx.real('wind%d' % i, 0, 40) for i in range(n)]
    water = Water(temperature=288.15, units={'temperature': 'K'}, wave_height=wave)
    sub = small_oil(2, **oil)
    return sub, wind, Waves(wind=AnyWind(cx, wind), water=water)


def pseudo(h):
    u = (9.80665 * h / 0.243) ** 0.5
    return (u / 0.71) ** 0.813008 if u < 4.433049525859078 else u


def uptake(cx, n=1, mode='fraction', waves=(None,), steps=1, fixed=False):
    from gnome.weatherers import Emulsification
    from gnome.basic_types import fate
    H = cx.choice('H', list(waves))
    ymax = 0.5 if fixed else cx.real('ymax', 0, 0.95)
    hours = -1.0
    if mode == 'fraction':
        thr = cx.real('threshold', 0, 1)
        sub, wind, wv = setup(cx, n, H, emulsion_water_fraction_max=ymax, bullwinkle_fraction=thr)
    else:
        thr = 0.25
        hours = cx.real('hours', 0, 100)
        sub, wind, wv = setup(cx, n, H, emulsion_water_fraction_max=ymax, bullwinkle_fraction=thr,
                              bullwinkle_time=hours)
    if fixed:
        for x in wind:
            cx.assume(x == 8)
        wind[:] = [8.0] * n
    w = Emulsification(waves=wv)
    sc = make_sc(cx, n, sub, [w.array_types])
    w.prepare_for_model_run(sc)
    cx.prove(cx.close(sc.mass_balance['water_content'], 0.0), 'start: no water')
    comps, tot = sym_masses(cx, sc, n, 2, lo=1.0, hi=1e4)
    floating = [cx.flag('floating%d' % i) if i else True for i in range(n)]
    set_array(sc, 'fate_status', [fate.surface_weather if f else fate.non_weather for f in floating])
    age = [cx.choice('age%d' % i, [0, 1200, 90000] if n == 1 else [0, 1200 + 300 * i]) for i in range(n)]
    evap = [cx.real('evap%d' % i, 0, 1) for i in range(n)]
    S0 = [cx.real('S%d' % i, 0, 1e8) for i in range(n)]
    before = [cx.choice('bull%d' % i, ['not yet', 'earlier']) if mode == 'fraction' else 'not yet' for i in range(n)]
    bull = []
    for i in range(n):
        if before[i] == 'earlier':
            b = cx.real('b%d' % i, 0, age[i])
            bull.append(b)
        else:
            bull.append(-1.0)
        if mode == 'fraction' and before[i] == 'not yet':
            cx.assume(S0[i] == 0)
    set_array(sc, 'age', age)
    set_array(sc, 'frac_evap', evap)
    set_array(sc, 'interfacial_area', S0)
    set_array(sc, 'bulltime', bull)
    W0 = [cx.real('W%d' % i, 0, 0.9) for i in range(n)]
    set_array(sc, 'frac_water', W0)
    step = 900 if fixed else cx.int('step', 1, 3600)
    if bool(ymax > 0):
        smax = 6 / DMIN * (ymax / (1 - ymax))
        for i in range(n):
            cx.assume(S0[i] <= smax)
    for s in range(steps):
        sc.reset_fate_dataview()
        w.prepare_for_model_step(sc, step, BASE)
        w.weather_elements(sc, step, BASE)
        for i in range(n):
            cx.prove(cx.close(sc['mass'][i], tot[i]), 'emulsification: no mass is lost')
            for j in range(2):
                cx.prove(cx.close(sc['mass_components'][i, j], comps[i][j]), 'emulsification: no mass is lost')
            W, S = sc['frac_water'][i], sc['interfacial_area'][i]
            if not floating[i] or not bool(ymax > 0):
                cx.prove(cx.close(W, W0[i]), 'emulsification: only floating oil that can take up water')
                continue
            if mode == 'fraction':
                started = bool(evap[i] >= thr)
                t0 = (bull[i] if before[i] == 'earlier' else age[i])
            else:
                started = bool(age[i] >= hours * 3600)
                t0 = hours * 3600
                if bool(hours == 0):
                    t0 = age[i]
            if not started:
                cx.prove(cx.close(W, 0.0), 'emulsification: no water before it starts')
                continue
            u = wind[i]
            if H is not None:
                u = cx.mx(u, pseudo(H))
            k = 6 * K0Y * u * u / DMAX
            e = cx.fn('exp', -k / smax * (age[i] - t0)) if not (age[i] is t0) else 1.0
            S1 = cx.mn(S0[i] + k * step * e, smax)
            cx.prove(cx.close(S, S1, 1e-3, 1e-9), 'emulsification: the interfacial area grows at the rate of the wind')
            cx.prove(S >= S0[i] * (1 - 1e-9), 'emulsification: never shrinks')
            cx.prove(cx.all([W >= 0, W <= ymax * (1 + 1e-9)]), 'emulsification: between none and the maximum')
            cx.prove(cx.any([cx.close(W * (6 + S * DMAX), S * DMAX, 1e-9),
                             cx.all([S * DMAX * (1 - ymax) >= 6 * ymax * (1 - 1e-9), cx.close(W, ymax)])]),
                     'emulsification: water held in droplets of the largest size')
            cx.observe('W%d' % i, W)
            S0[i], W0[i] = S, W
        if bool(ymax > 0):
            fl = [i for i in range(n) if floating[i]]
            M = total([tot[i] for i in fl])
            cx.prove(cx.close(sc.mass_balance['water_content'] * M,
                              total([tot[i] * sc['frac_water'][i] for i in fl]), 1e-6),
                     'emulsification: reported water content is the average of the floating oil')


def sequence(cx, mode='fraction', steps=3):
    """steps that follow each other: the start is remembered"""
    from gnome.weatherers import Emulsification
    thr = cx.real('threshold', 0, 1)
    kw = dict(emulsion_water_fraction_max=0.5, bullwinkle_fraction=thr)
    hours = None
    if mode == 'hours':
        hours = cx.real('hours', 0, 1)
        kw['bullwinkle_time'] = hours
    sub, wind, wv = setup(cx, 1, None, **kw)
    wv.wind.v = [cx.choice('u0', [4.0, 12.0])]
    w = Emulsification(waves=wv)
    sc = make_sc(cx, 1, sub, [w.array_types])
    w.prepare_for_model_run(sc)
    smax = 6 / DMIN
    S, t0, evap, W = 0.0, None, 0.0, 0.0
    for s in range(steps):
        if s:
            wv.wind.v = [cx.choice('u%d' % s, [4.0, 12.0])]
        evap = evap + cx.real('evap_%d' % s, 0, 0.5)
        age = 900 * s
        set_array(sc, 'age', [age])
        set_array(sc, 'frac_evap', [evap])
        sc.reset_fate_dataview()
        w.prepare_for_model_step(sc, 900, BASE)
        w.weather_elements(sc, 900, BASE)
        if mode == 'hours':
            if bool(age >= hours * 3600) and t0 is None:
                t0 = age if bool(hours == 0) else hours * 3600
        elif bool(evap >= thr) and t0 is None:
            t0 = age
        if t0 is None:
            cx.prove(cx.close(sc['frac_water'][0], 0.0), 'sequence: no water before it starts')
            continue
        k = 6 * K0Y * wv.wind.v[0] * wv.wind.v[0] / DMAX
        d = age - t0
        e = 1.0 if not hasattr(d, 'z') and d == 0 else cx.fn('exp', -k / smax * d)
        S = cx.mn(S + k * 900 * e, smax)
        cx.prove(cx.close(sc['interfacial_area'][0], S, 1e-3, 1e-9), 'sequence: grows from the time it started')
        cx.prove(cx.all([sc['frac_water'][0] >= W * (1 - 1e-9), sc['frac_water'][0] <= 0.5]),
                 'sequence: the water fraction never decreases')
        W = sc['frac_water'][0]
    cx.observe('W', W)


def inactive(cx):
    """off, or outside the active range: nothing changes"""
    from gnome.weatherers import Emulsification
    import datetime as dt
    sub, wind, wv = setup(cx, 1)
    start, stop = cx.time('start', 0, 5000), cx.time('stop', 0, 5000)
    cx.assume(start < stop)
    on = cx.flag('on')
    w = Emulsification(waves=wv, active_range=(start, stop), on=on)
    sc = make_sc(cx, 1, sub, [w.array_types])
    w.prepare_for_model_run(sc)
    set_array(sc, 'frac_evap', [0.5])
    set_array(sc, 'bulltime', [0.0])
    S0 = cx.real('S', 0, 1e6)
    W0 = cx.real('W', 0, 0.9)
    set_array(sc, 'interfacial_area', [S0])
    set_array(sc, 'frac_water', [W0])
    t = cx.time('t', 0, 5000)
    sc.reset_fate_dataview()
    w.prepare_for_model_step(sc, 900, t)
    w.weather_elements(sc, 900, t)
    mid = t + dt.timedelta(seconds=450)
    S, W = sc['interfacial_area'][0], sc['frac_water'][0]
    if on and start <= mid and stop >= mid:
        cx.prove(S >= S0, 'active: water is taken up')
        if bool(wind[0] > 1):
            cx.prove(S > S0, 'active: water is taken up')
    else:
        cx.prove(cx.all([cx.close(S, S0), cx.close(W, W0)]), 'inactive: nothing changes')
    cx.observe('S', S)


PROP = Property('C21', [
    Case('fraction', uptake), Case('fraction-waves', uptake, dict(waves=(0.5, 2.0, 8.0))),
    Case('hours', uptake, dict(mode='hours')),
    Case('fraction-2', uptake, dict(n=2, fixed=True)), Case('hours-2', uptake, dict(mode='hours', n=2, fixed=True)),
    Case('sequence', sequence, dict(steps=2)), Case('sequence-hours', sequence, dict(mode='hours', steps=2)), Case('inactive', inactive),
    Case('sequence-3', sequence, tier='thorough', budget=900),
    Case('fraction-22', uptake, dict(n=2), tier='thorough', budget=900),
    Case('hours-22', uptake, dict(n=2, mode='hours'), tier='thorough', budget=900),
], pyx=['gnome.cy_gnome.cy_weatherers'])
