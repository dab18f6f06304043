"""C22: a slick spreads, never shrinks, and stops at its thickness limit; Langmuir covers part of it"""
import math

from symex.case import Case, Property
from props.lib import BASE, small_oil, set_array, total

INFO = {
    'functions': ['gnome.weatherers.spreading.FayGravityViscous.weather_elements',
                  'gnome.weatherers.spreading.FayGravityViscous.update_area',
                  'gnome.weatherers.spreading.FayGravityViscous.init_area',
                  'gnome.weatherers.spreading.FayGravityViscous.get_thickness_limit',
                  'gnome.weatherers.spreading.FayGravityViscous.prepare_for_model_run',
                  'gnome.weatherers.spreading.Langmuir.weather_elements',
                  'gnome.spills.release.Release.initialize_elements_post_substance'],
    'bounds': '1 to 3 elements in one or two instantaneous spills of 10 or 200 m3, any area of each element, any density '
              'in 800..1000 kg/m3 (one element), share of the spill 1 or 1/4, ages 0 and 900 s, steps of 60 and 900 s; '
              'any wind up to 40 m/s, area and density for Langmuir; releases of any mass in 1 to 3 elements',
    'outside': 'float64 rounding; powers are uninterpreted functions with sign, monotonicity and bound axioms, refined '
               'at counterexamples; spills whose elements belong to blobs of different volume (continuous releases)',
    'stubs': ['a wind with arbitrary speed, the same for all elements'],
    'assumptions': ['oil lighter than water', 'areas are positive'],
}

G = 9.80665


def container(cx, ns, ats, amount=1000.0, uncertain=False, substance=None, units='kg'):
    """one SpillContainer with len(ns) instantaneous spills"""
    import datetime as dt
    from gnome.spill_container import SpillContainer
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    from gnome.environment import Water
    sub = substance or small_oil(2)
    sc = SpillContainer()
    for n in ns:
        rel = PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=n)
        sc.spills += Spill(release=rel, substance=sub, amount=amount, units=units)
    at = dict(ats)
    for s in sc.spills:
        at.update(s.all_array_types)
    sc.prepare_for_model_run(at, 900)
    sc.release_elements(BASE, BASE + dt.timedelta(seconds=900), environment={'water': Water(
        temperature=288.15, units={'temperature': 'K'})})
    assert len(sc) == sum(ns)
    return sc


def water():
    from gnome.environment import Water
    return Water(temperature=288.15, units={'temperature': 'K'})


def limit(vo):
    return 1e-4 if vo >= 1e-4 else (1e-5 if vo < 1e-6 else 1e-5 + 0.9091 * (vo - 1e-6))


def thickness(cx):
    from gnome.weatherers.spreading import FayGravityViscous
    vo = cx.real('vo', 1e-9, 1e-1)
    got = FayGravityViscous.get_thickness_limit(vo)
    cx.prove(cx.close(got, cx.ite(vo >= 1e-4, 1e-4, cx.ite(vo < 1e-6, 1e-5, 1e-5 + 0.9091 * (vo - 1e-6))), 1e-12, 1e-9),
             'thickness limit: by the viscosity of the oil')
    cx.observe('t', got)
    temp = cx.choice('temp', [None, 275.15, 300.15])
    from gnome.environment import Water
    w = FayGravityViscous(water=None if temp is None else Water(temperature=temp, units={'temperature': 'K'}))
    kv = cx.choice('kvis', [1e-3, 5e-5, 5e-7])
    sub = small_oil(2, kvis=[kv], kvis_ref_temps=[288.15], kvis_weathering=[0.])
    sc = container(cx, [1], w.array_types, substance=sub)
    w.prepare_for_model_run(sc)
    cx.prove(cx.close(w.thickness_limit, limit(sub.kvis_at_temp(288.15 if temp is None else temp)), 1e-12, 1e-9),
             'thickness limit: from the oil at the temperature of the water')


def fay(cx, ns=(1,), vols=(10.0, 200.0), fracs=(1.0, 0.25), rho=None, state=False):
    from gnome.weatherers.spreading import FayGravityViscous
    from gnome.basic_types import fate
    w = FayGravityViscous(water=water())
    sc = container(cx, ns, w.array_types)
    n = sum(ns)
    w.prepare_for_model_run(sc)
    w.initialize_data(sc, n)
    sub = small_oil(2)
    lim = limit(sub.kvis_at_temp(288.15))
    num = [k for k, m in enumerate(ns) for _ in range(m)]
    V = [cx.choice('V%d' % k, list(vols)) for k in range(len(ns))]
    vf = cx.choice('share', list(fracs))
    dens = [rho - 64.0 * i if rho else cx.real('rho%d' % i, 800, 1000) for i in range(n)]
    A = [cx.real('A%d' % i, 1, 1e8) for i in range(n)]
    mass = [V[num[i]] * vf * 900.0 for i in range(n)]
    age = [cx.choice('age%d' % k, [0, 900]) for k in range(len(ns))]
    dt = cx.choice('dt', [60, 900])
    floating = [cx.flag('floating%d' % i) if state and i else True for i in range(n)]
    set_array(sc, 'fate_status', [fate.surface_weather if f else fate.non_weather for f in floating])
    set_array(sc, 'density', dens)
    set_array(sc, 'init_mass', mass)
    set_array(sc, 'mass', [m * 0.5 for m in mass])
    set_array(sc, 'bulk_init_volume', [V[k] for k in num])
    set_array(sc, 'vol_frac_le_st', [vf] * n)
    set_array(sc, 'fay_area', A)
    B = [cx.real('B%d' % i, 0, 1e8) for i in range(n)]
    set_array(sc, 'area', B)
    set_array(sc, 'age', [age[k] for k in num])
    sc.reset_fate_dataview()
    w.prepare_for_model_step(sc, dt, BASE)
    w.weather_elements(sc, dt, BASE)
    rw = float(water().get('density'))
    b = (rw - sub.standard_density) / rw
    nu = 1e-6
    K = 4 * math.pi * 2 * .033
    for i in range(n):
        got, v = sc['fay_area'][i], V[num[i]]
        cx.observe('A%d' % i, got)
        cx.prove(cx.close(sc['mass'][i], mass[i] * 0.5), 'spreading: no mass is lost')
        if not floating[i]:
            cx.prove(cx.all([got == A[i], sc['area'][i] == B[i]]), 'spreading: only floating oil')
            continue
        top = mass[i] / dens[i] / lim
        cx.prove(got >= A[i] * (1 - 1e-12), 'spreading: never shrinks')
        cx.prove(cx.any([got <= top * (1 + 1e-9), cx.close(got, A[i])]), 'spreading: stops at the thickness limit')
        cx.prove(cx.close(sc['area'][i], got), 'spreading: the area is the one spread to')
        t0 = (1.21 / 1.53) ** 4 * (v / (nu * G * b)) ** (1. / 3)
        if age[num[i]] + dt <= t0:
            cx.prove(cx.close(got, A[i]), 'spreading: as released during the first minutes')
        elif bool(A[i] < top):
            C = math.pi * 1.45 ** 2 * (v ** 2 * G * b / math.sqrt(nu)) ** (1. / 3)
            blob = A[i] / vf
            new = A[i] + vf * dt * (0.5 * C ** 2 / blob + 7. / 6 * K * (blob / K) ** (1. / 7))
            cx.prove(cx.close(got, cx.mn(new, top), 1e-6, 1e-9), 'spreading: grows by gravity and by diffusion')


def release(cx, ns=(1, 2, 3)):
    """the area a slick begins with"""
    n = cx.choice('n', list(ns))
    m = cx.real('amount', 1, 1e7)
    from gnome.weatherers.spreading import FayGravityViscous
    w = FayGravityViscous(water=water())
    sc = container(cx, [n], w.array_types, amount=m)
    w.prepare_for_model_run(sc)
    sub = small_oil(2)
    V = m / sc['density'][0]
    A = [sc['fay_area'][i] for i in range(n)]
    rw = float(water().get('density'))
    b = (rw - sub.standard_density) / rw
    nu = sub.kvis_at_temp(288.15)
    a0 = math.pi * (1.21 ** 4 / 1.53 ** 2) * (V ** 5 * G * b / nu ** 2) ** (1. / 6)
    for i in range(n):
        cx.prove(cx.close(sc['bulk_init_volume'][i], V, 1e-6), 'release: volume of the blob')
        cx.prove(cx.close(sc['vol_frac_le_st'][i] * n, 1.0, 1e-6), 'release: share of the blob')
        cx.prove(cx.close(A[i], A[0], 1e-6), 'release: equal elements, equal areas')
        cx.prove(cx.close(sc['area'][i], A[i]), 'release: area')
        cx.prove(A[i] > 0, 'release: has an area')
    top = V / limit(nu)
    cx.prove(total(A) <= top * (1 + 1e-9), 'release: not thinner than the limit')
    cx.prove(cx.close(total(A), cx.mn(a0, top), 1e-3, 1e-6), 'release: gravity spreading of the whole blob')


class AnyWind(object):
    def __init__(self, cx, v):
        self.cx, self.v = cx, v

    def at(self, points, time, *a, **k):
        return self.cx.array([[self.v]] * len(points))


def langmuir(cx, ns=(1,), rho=None, state=False, vary='wind'):
    from gnome.weatherers.spreading import Langmuir
    from gnome.basic_types import fate
    u = cx.real('wind', 0, 40) if vary in ('wind', 'all') else cx.choice('wind', [0.5, 3.0, 20.0])
    w = Langmuir(water=water(), wind=AnyWind(cx, u))
    sc = container(cx, ns, w.array_types)
    n = sum(ns)
    w.prepare_for_model_run(sc)
    num = [k for k, m in enumerate(ns) for _ in range(m)]
    V = [cx.choice('V%d' % k, [10.0, 200.0]) for k in range(len(ns))]
    dens = [cx.real('rho%d' % i, 800, 1000) if vary in ('rho', 'all') else 850.0 + 50 * i for i in range(n)]
    A = [cx.real('A%d' % i, 1, 1e7) if vary in ('area', 'all') else cx.choice('A%d' % i, [2e4, 1e6]) for i in range(n)]
    floating = [cx.flag('floating%d' % i) if state and i else True for i in range(n)]
    set_array(sc, 'fate_status', [fate.surface_weather if f else fate.non_weather for f in floating])
    set_array(sc, 'density', dens)
    set_array(sc, 'bulk_init_volume', [V[k] for k in num])
    set_array(sc, 'fay_area', A)
    set_array(sc, 'area', A)
    sc.reset_fate_dataview()
    w.prepare_for_model_step(sc, 900, BASE)
    w.weather_elements(sc, 900, BASE)
    rw = float(water().get('density'))
    for i in range(n):
        f, a = sc['frac_coverage'][i], sc['area'][i]
        cx.observe('f%d' % i, f)
        cx.prove(cx.close(sc['fay_area'][i], A[i]), 'Langmuir: the slick as such does not change')
        if not floating[i]:
            cx.prove(cx.close(a, A[i]), 'Langmuir: only floating oil')
            continue
        cx.prove(cx.all([f >= 0.1 - 1e-12, f <= 1 + 1e-12]), 'Langmuir: between a tenth and all is covered')
        cx.prove(cx.close(a, A[i] * f, 1e-9, 1e-9), 'Langmuir: area is the covered part of the slick')
        slick = total([A[j] for j in range(n) if num[j] == num[i] and floating[j]])
        if vary == 'all':
            continue
        h = V[num[i]] / slick
        x = (0.005 * u) ** 2 * math.pi ** 2 / (4 * h * ((rw - dens[i]) / rw) * G)
        if bool(x > 1e-9):
            y = x ** (-1. / 3)
            cx.prove(cx.close(f, cx.mn(1.0, cx.mx(0.1, y)), 1e-6), 'Langmuir: coverage falls with the wind, and rises with thickness')
        else:
            cx.prove(cx.close(f, 1.0), 'Langmuir: all is covered without wind')


def inactive(cx, which='fay'):
    """off, or outside the active range: nothing changes"""
    from gnome.weatherers.spreading import Langmuir, FayGravityViscous
    import datetime as dt
    start, stop = cx.time('start', 0, 5000), cx.time('stop', 0, 5000)
    cx.assume(start < stop)
    on = cx.flag('on')
    kw = dict(active_range=(start, stop), on=on)
    w = FayGravityViscous(water=water(), **kw) if which == 'fay' else Langmuir(water=water(), wind=AnyWind(cx, 30.0), **kw)
    sc = container(cx, [1], dict(w.array_types), amount=1e5)
    w.prepare_for_model_run(sc)
    w.initialize_data(sc, 1)
    A = 5000.0
    set_array(sc, 'fay_area', [A])
    set_array(sc, 'area', [A])
    t = cx.time('t', 0, 5000)
    sc.reset_fate_dataview()
    w.prepare_for_model_step(sc, 900, t)
    w.weather_elements(sc, 900, t)
    mid = t + dt.timedelta(seconds=450)
    a = sc['area'][0]
    if on and start <= mid and stop >= mid:
        cx.prove((a > A) if which == 'fay' else (a < A), 'active: the area changes')
    else:
        cx.prove(a == A, 'inactive: the area stays')


PROP = Property('C22', [
    Case('thickness', thickness), Case('fay', fay),
    Case('fay-2', fay, dict(ns=(2,), vols=(10.0,), fracs=(0.5,), rho=900.0, state=True)),
    Case('fay-11', fay, dict(ns=(1, 1), vols=(10.0, 200.0), fracs=(1.0,), rho=900.0)),
    Case('release', release),
    Case('langmuir', langmuir, dict(vary='all')), Case('langmuir-wind', langmuir),
    Case('langmuir-area', langmuir, dict(vary='area')), Case('langmuir-rho', langmuir, dict(vary='rho')),
    Case('langmuir-2', langmuir, dict(ns=(2,), state=True)),
    Case('langmuir-11', langmuir, dict(ns=(1, 1))), Case('langmuir-11-area', langmuir, dict(ns=(1, 1), vary='area')),
    Case('inactive-fay', inactive), Case('inactive-langmuir', inactive, dict(which='langmuir')),
    Case('fay-21', fay, dict(ns=(2, 1), fracs=(0.5,), rho=900.0, state=True), tier='thorough', budget=900),
    Case('langmuir-21', langmuir, dict(ns=(2, 1), vary='area', state=True), tier='thorough', budget=900),
])
