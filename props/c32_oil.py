"""C32: the properties of an oil follow its measurements"""
import itertools

from symex.case import Case, Property
from props.lib import small_oil

INFO = {
    'functions': ['GnomeOil.density_at_temp', 'GnomeOil.get_densities', 'GnomeOil.bounding_temperatures',
                  'GnomeOil._get_reference_densities', 'GnomeOil._vol_expansion_coeff', 'GnomeOil.standard_density',
                  'GnomeOil.kvis_at_temp', 'GnomeOil.determine_visc_constants', 'GnomeOil.vapor_pressure',
                  'density_at_temp', 'vol_expansion_coeff'],
    'bounds': 'one to three measured densities of any value from 700 to 1100 kg/m3 (at most 64 apart) at any temperatures '
              '1 to 40 K apart, in any order, with measurements of weathered oil among them; any temperature from 250 to '
              '350 K, one or several at a time; any pour point; API on either side of 30; one viscosity of any value and '
              'temperature, or tables of two and three; any two boiling points',
    'outside': 'oils changed after they were made; oils from the ADIOS database',
    'stubs': [],
    'assumptions': ['exp: positive, growing, one at zero, tangent bounds'],
}


def table(cx, n, weathered):
    """[(T, rho)] sorted by temperature, and the arguments for the oil in any order"""
    T, R = [cx.real('T0', 270, 290)], [cx.real('rho0', 700, 1100)]
    for i in range(1, n):
        T.append(T[-1] + cx.real('dT%d' % i, 1, 40))
        d = cx.real('drho%d' % i, -64, 64)
        R.append(R[-1] + d)
    rows = [(t, r, 0.0) for t, r in zip(T, R)]
    if weathered:
        rows.append((cx.real('Tw', 270, 300), cx.real('rhow', 700, 1100), 0.25))
    p = list(itertools.permutations(range(len(rows))))
    p = p[cx.choice('order', list(range(len(p))))] if len(p) > 1 else p[0]
    rows = [rows[i] for i in p]
    kw = dict(densities=[r[1] for r in rows], density_ref_temps=[r[0] for r in rows],
              density_weathering=[r[2] for r in rows])
    return T, R, kw


def judge(cx, got, T, R, pour, api, t):
    n = len(T)
    kd = 0.0009 if api > 30 else 0.0008
    lowest = cx.mn(T[0], pour)
    te = cx.mx(t, lowest)
    for i in range(n):
        cx.prove(cx.implies(te == T[i], cx.close(got, R[i], 1e-9, 1e-9)), 'the measured density at its temperature')
    cx.prove(cx.implies(te > T[-1], cx.close(got * (1 + kd * (te - T[-1])), R[-1], 1e-9, 1e-9)),
             'above the highest: expands')
    cx.prove(cx.implies(te < T[0], cx.close(got * (1 - kd * (T[0] - te)), R[0], 1e-9, 1e-9)),
             'below the lowest: contracts, down to the pour point')
    for i in range(n - 1):
        inside = cx.all([te > T[i], te < T[i + 1]])
        d = R[i + 1] - R[i]
        # got - line, times (T1 - T0)
        off = (got - R[i]) * (T[i + 1] - T[i]) - d * (te - T[i])
        lim = d * d / 500 * (T[i + 1] - T[i]) + 1e-6
        cx.prove(cx.implies(inside, cx.all([off <= lim, off >= -lim])),
                 'in between: along the line of the two measurements around it')


def density(cx, n, weathered=False, api=35.):
    T, R, kw = table(cx, n, weathered)
    pour = cx.real('pour', 240, 300)
    oil = small_oil(2, api=api, pour_point=pour, **kw)
    t = cx.real('T', 250, 350)
    judge(cx, oil.density_at_temp(t), T, R, pour, api, t)


def several(cx, n, api=25.):
    """at several temperatures at once"""
    import numpy as np
    T, R, kw = table(cx, n, False)
    pour = cx.real('pour', 240, 300)
    oil = small_oil(2, api=api, pour_point=pour, **kw)
    ts = [cx.real('T_%d' % i, 250, 350) for i in range(2)]
    a = cx.array(ts)
    got = oil.density_at_temp(a)
    cx.prove(len(got) == 2, 'one density for each temperature')
    for i in range(2):
        judge(cx, got[i], T, R, pour, api, ts[i])
        cx.prove(a[i] == ts[i], 'the temperatures given are not changed')


def standard(cx):
    T, R, kw = table(cx, 2, False)
    cx.assume(T[0] <= 288.15)
    cx.assume(T[1] >= 288.15)
    oil = small_oil(2, pour_point=cx.real('pour', 240, 280), **kw)
    judge(cx, oil.standard_density, T, R, oil.pour_point, 30., 288.15)


def visc1(cx):
    """one measurement"""
    import warnings
    warnings.simplefilter('ignore')
    v = cx.real('v', 1e-7, 1.0)
    t0 = cx.choice('t0', [273.15, 288., 313.15])
    cx.hint('exp', 2100 / t0)
    oil = small_oil(2, kvis=[v], kvis_ref_temps=[t0], kvis_weathering=[0.])
    cx.prove(cx.close(oil.kvis_at_temp(t0), v, 1e-15, 1e-9), 'the measured viscosity at its temperature')
    t, u = cx.real('t', 260, 340), cx.real('u', 260, 340)
    a, b = oil.kvis_at_temp(t), oil.kvis_at_temp(u)
    cx.prove(cx.all([a > 0, b > 0]), 'positive')
    cx.prove(cx.implies(t < u, a > b), 'warmer oil is thinner')
    cx.prove(cx.implies(t > t0, a < v * 1.001), 'thinner than measured when warmer')


def viscn(cx, k):
    tab = {2: [(273.15, 1e-4), (300.15, 5e-5)], 22: [(288.15, 2e-2), (323.15, 4e-4)],
           3: [(273.15, 1e-4), (293.15, 6e-5), (313.15, 4e-5)]}[k]
    rows = [(t, v, 0.) for t, v in tab] + [(280., 0.5, 0.3)]
    p = cx.choice('order', [0, 1, 2, 3])
    rows = rows[p:] + rows[:p] if p < len(rows) else rows[::-1]
    oil = small_oil(2, kvis=[r[1] for r in rows], kvis_ref_temps=[r[0] for r in rows],
                    kvis_weathering=[r[2] for r in rows])
    tol = 1e-9 if k != 3 else 0.1
    import math
    slope = math.log(tab[0][1] / tab[1][1]) / (1 / tab[0][0] - 1 / tab[1][0])
    for t, v in tab:
        cx.hint('exp', slope / t)
        cx.hint('exp', slope / t * (1 + 1e-9))
        cx.hint('exp', slope / t * (1 - 1e-9))
    for t, v in tab:
        cx.prove(cx.close(oil.kvis_at_temp(t), v, 0, tol), 'the measured viscosities at their temperatures')
    t, u = cx.real('t', 260, 340), cx.real('u', 260, 340)
    a = oil.kvis_at_temp(t)
    b = oil.kvis_at_temp(cx.array([u, t]))
    cx.prove(cx.all([a > 0, b[0] > 0]), 'positive')
    cx.prove(cx.implies(t < u, a > b[0]), 'warmer oil is thinner')
    cx.prove(cx.close(b[1], a, 0, 1e-12), 'alone or together')
    for (t0, v0), (t1, v1) in zip(tab, tab[1:]):
        cx.prove(cx.implies(cx.all([t >= t0, t <= t1]), cx.all([a <= v0 * (1.001 + tol), a >= v1 * (0.999 - tol)])),
                 'between the measurements around it')


def vapor(cx):
    b = [cx.real('bp0', 300, 500), cx.real('dbp', 1, 500)]
    b[1] = b[0] + b[1]
    oil = small_oil(2, boiling_point=b)
    t = cx.real('t', 260, 350)
    P = 101325.
    p = oil.vapor_pressure(t)
    for i in range(2):
        cx.prove(p[i] > 0, 'positive')
        cx.prove(cx.implies(t == b[i], cx.close(p[i], P, 1e-6)), 'atmospheric at the boiling point')
        cx.prove(cx.iff(t < b[i], p[i] < P), 'below it, below the boiling point and only there')
    q = oil.vapor_pressure(t, 50000.)
    cx.prove(cx.all([cx.close(q[i] * P, p[i] * 50000., 1e-6, 1e-9) for i in range(2)]), 'in proportion to the pressure')


def vapor_grows(cx):
    b = [cx.choice('bp0', [310., 420., 650.]), 900.]
    oil = small_oil(2, boiling_point=b)
    t, u = cx.real('t', 260, 350), cx.real('u', 260, 350)
    p, q = oil.vapor_pressure(t), oil.vapor_pressure(u)
    for i in range(2):
        cx.prove(cx.implies(t < u, p[i] < q[i]), 'grows with temperature')


def volatile(cx):
    b = [cx.choice('bp0', [310., 420., 650.]), 900.]
    oil = small_oil(2, boiling_point=b)
    p = oil.vapor_pressure(cx.real('t', 260, 350))
    cx.prove(p[0] > p[1], 'the component that boils first is the more volatile')


def formula(cx):
    """each component's pressure is that of its own boiling point"""
    bp = cx.choice('bp', [[310., 900.], [420., 425.], [650., 1100.], [365., 500.]])
    oil = small_oil(2, boiling_point=list(bp))
    t = cx.real('t', 260, 350)
    p = oil.vapor_pressure(t, 100000.)
    for i in range(2):
        B = bp[i]
        if B > 900:
            continue        # next to nothing: only the shape matters there
        import math
        C = 0.19 * B - 18
        k = (8.75 + 1.987 * math.log(B)) * (B - C) ** 2 / (0.97 * 1.987 * B)
        x = k * (1 / (B - C) - 1 / (t - C))
        cx.prove(cx.close(p[i], 100000. * cx.fn('exp', x), 1e-9, 1e-6), "Antoine's law with its own boiling point")


PROP = Property('C32', [
    Case('density-1', density, dict(n=1)),
    Case('density-1w', density, dict(n=1, weathered=True, api=20.)),
    Case('density-2', density, dict(n=2)),
    Case('density-2w', density, dict(n=2, weathered=True, api=30.)),
    Case('density-3', density, dict(n=3)),
    Case('several-1', several, dict(n=1)),
    Case('several-2', several, dict(n=2)),
    Case('standard', standard),
    Case('visc-1', visc1),
    Case('visc-2', viscn, dict(k=2)),
    Case('visc-2b', viscn, dict(k=22)),
    Case('visc-3', viscn, dict(k=3)),
    Case('vapor', vapor),
    Case('vapor-grows', vapor_grows),
    Case('volatile', volatile),
    Case('formula', formula),
    Case('several-3', several, dict(n=3), tier='thorough', budget=1500),
])
