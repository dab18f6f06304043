"""C30: density and viscosity follow the state of the oil; the bulk figures follow the elements"""
from symex.case import Case, Property
from props.lib import BASE, small_oil, make_sc, set_array, sym_masses, total

INFO = {
    'functions': ['gnome.ops.density.recalc_density', 'gnome.ops.density.init_density',
                  'gnome.ops.viscosity.recalc_viscosity', 'gnome.ops.viscosity.init_viscosity',
                  'gnome.ops.aggregated_data.aggregate'],
    'bounds': '1 to 3 elements of two pseudo-components, any component masses, water and evaporated fractions, fates '
              'and statuses; water of 275 to 303 K, 990 to 1030 kg/m3 or the default; two further releases',
    'outside': 'float64 rounding; exp and the power 2.49 are uninterpreted with sign and monotonicity axioms, refined '
               'at counterexamples',
    'stubs': ['a Water with arbitrary density'],
    'assumptions': ['masses positive for the elements whose density is judged'],
}


class AnyWater(object):
    def __init__(self, t, rho):
        self.t, self.rho = t, rho

    def get(self, attr, unit=None):
        return self.t if attr == 'temperature' else self.rho


def container(cx, n, oil=None):
    from gnome.ops import weathering_array_types
    return make_sc(cx, n, oil or small_oil(2), [dict(weathering_array_types)])


def fates(cx, n):
    from gnome.basic_types import fate, oil_status
    out = []
    for i in range(n):
        k = cx.choice('state%d' % i, ['floating', 'beached', 'below', 'skimmed'])
        out.append((k, {'floating': (fate.surface_weather, oil_status.in_water, 0.0),
                        'beached': (fate.non_weather, oil_status.on_land, 0.0),
                        'below': (fate.subsurf_weather, oil_status.in_water, 5.0),
                        'skimmed': (fate.skim, oil_status.in_water, 0.0)}[k]))
    return out


def state(cx, sc, n):
    st = fates(cx, n)
    for i, s in enumerate(st):
        sc['fate_status'][i] = s[1][0]
        sc['status_codes'][i] = s[1][1]
        sc['positions'][i, 2] = s[1][2]
    return [s[0] for s in st]


def density(cx, ns=(1, 2)):
    from gnome.ops.density import recalc_density
    n = cx.choice('n', list(ns))
    # with a heavy component: without the light one, the oil is heavier than water
    oil = small_oil(2, component_density=[800.0, 1200.0])
    sc = container(cx, n, oil)
    st = state(cx, sc, n)
    comps, tot = sym_masses(cx, sc, n, 2, lo=1e-3, hi=1e5)
    fw = [cx.real('fw%d' % i, 0, 0.99) for i in range(n)]
    old = [cx.real('rho%d' % i, 700, 1025) for i in range(n)]
    set_array(sc, 'frac_water', fw)
    set_array(sc, 'density', old)
    temp = cx.choice('temp', [None, 275.15, 303.15])
    rho_w = 1025.0 if temp is None else cx.real('rho_w', 990, 1030)
    sc.reset_fate_dataview()
    recalc_density(sc, None if temp is None else AnyWater(temp, rho_w), aggregate=cx.flag('aggregate'))
    rho0 = oil.density_at_temp(288.15 if temp is None else temp)
    cd = [float(x) for x in oil.component_density]
    mf = [float(x) for x in oil.mass_fraction]
    k = rho0 / (cd[0] * mf[0] + cd[1] * mf[1])
    for i in range(n):
        if st[i] == 'floating':
            rho = k * (cd[0] * comps[i][0] + cd[1] * comps[i][1]) / tot[i]
            e = fw[i] * rho_w + (1 - fw[i]) * rho
            cx.prove(cx.close(sc['density'][i], cx.mn(e, rho_w), 1e-6), 'density: of the emulsion, up to that of water')
            cx.prove(cx.close(sc['oil_density'][i], rho, 1e-6), 'density: of the oil, from its composition')
        else:
            cx.prove(cx.close(sc['density'][i], old[i], 1e-9), 'density: oil that is not on the surface keeps it')
        cx.prove(sc['density'][i] <= cx.mx(rho_w * (1 + 1e-9), old[i]), 'density: not above water')
        cx.prove(cx.close(sc['mass'][i], tot[i]), 'density: masses are as before')
        cx.observe('d%d' % i, sc['density'][i])


def viscosity(cx):
    from gnome.ops.viscosity import recalc_viscosity
    sc = container(cx, 2)
    state(cx, sc, 1)
    fw = [cx.real('fw%d' % i, 0, 0.9) for i in range(2)]
    fe = [cx.real('fe%d' % i, 0, 1) for i in range(2)]
    same = cx.choice('same', ['evap', 'water', 'none'])
    if same == 'evap':
        fe[1] = fe[0]
    elif same == 'water':
        fw[1] = fw[0]
    else:
        fw[0] = 0.0
    set_array(sc, 'frac_water', fw)
    set_array(sc, 'frac_evap', fe)
    temp = cx.choice('temp', [None, 275.15])
    recalc_viscosity(sc, None if temp is None else AnyWater(temp, 1020.0), aggregate=False)
    v0 = small_oil(2).kvis_at_temp(288.15 if temp is None else temp)
    v, o = sc['viscosity'], sc['oil_viscosity']
    for i in range(2):
        cx.prove(o[i] >= v0 * (1 - 1e-9), 'viscosity: evaporation does not thin oil')
        cx.prove(v[i] >= o[i] * (1 - 1e-9), 'viscosity: water does not thin oil')
    if same == 'evap':
        cx.prove(cx.implies(fw[0] <= fw[1], v[0] <= v[1] * (1 + 1e-9)), 'viscosity: grows with the water content')
        cx.prove(cx.close(o[0], o[1], 1e-9), 'viscosity: of the oil, does not depend on water')
    elif same == 'water':
        cx.prove(cx.implies(fe[0] <= fe[1], v[0] <= v[1] * (1 + 1e-9)), 'viscosity: grows with evaporation')
    else:
        cx.prove(cx.close(v[0], o[0], 1e-9), 'viscosity: without water that of the oil')
        cx.prove(cx.implies(cx.all([fe[0] == 0]), cx.close(v[0], v0, 1e-9)), 'viscosity: fresh oil')


def bulk(cx):
    from gnome.ops.aggregated_data import aggregate
    from gnome.basic_types import fate, oil_status
    n = cx.choice('n', [0, 1, 2, 3])
    sc = container(cx, 3)
    from gnome.basic_types import fate
    set_array(sc, 'fate_status', [fate.surface_weather] * 3)
    if n == 0:
        set_array(sc, 'mass', [0.0] * 3)
        aggregate(sc)
        cx.prove(cx.close(sc.mass_balance['floating'], 0.0), 'bulk: no oil')
        return
    st = state(cx, sc, min(n, 2)) + (['floating'] if n > 2 else [])
    m = [cx.real('m%d' % i, 0, 1e4) for i in range(n)] + [0.0] * (3 - n)
    d = [cx.real('d%d' % i, 700, 1030) for i in range(n)] + [900.0] * (3 - n)
    set_array(sc, 'mass', m)
    set_array(sc, 'density', d)
    set_array(sc, 'viscosity', d)
    before = sc.mass_balance.get('amount_released', 0.0)
    before = cx.real('released', 0, 1e5) if cx.flag('more') else before
    sc.mass_balance['amount_released'] = before
    new = cx.choice('new', [0, 1, 3])
    aggregate(sc, new)
    M = total(m)
    mb = sc.mass_balance
    cx.prove(cx.close(mb['amount_released'], before + (total(m[3 - new:]) if new else 0.0), 1e-6),
             'bulk: amount released grows by the mass of the new elements')
    cx.prove(cx.close(mb['floating'], total([x for x, s in zip(m, st) if s in ('floating', 'skimmed')]), 1e-6),
             'bulk: floating oil is what is in the water at the surface')
    cx.prove(cx.close(mb['non_weathering'], total([x for x, s in zip(m, st) if s == 'beached']), 1e-6),
             'bulk: non-weathering oil')
    if bool(M > 0):
        for key in ('avg_density', 'avg_viscosity'):
            cx.prove(cx.close(mb[key] * M, total([x * y for x, y in zip(m, d)]), 1e-6),
                     'bulk: averages weighted by mass')
    cx.observe('floating', mb['floating'])


def fresh(cx):
    """oil as it is released"""
    from gnome.ops.density import init_density
    from gnome.ops.viscosity import init_viscosity
    n, new = 3, cx.choice('new', [1, 2, 3])
    sc = container(cx, n)
    old = [cx.real('rho%d' % i, 700, 1025) for i in range(n)]
    set_array(sc, 'density', old)
    set_array(sc, 'viscosity', [x / 1e6 for x in old])
    set_array(sc, 'mass', [cx.real('m%d' % i, 1, 100) for i in range(n)])
    temp = cx.choice('temp', [None, 275.15, 303.15])
    rho_w = 1025.0 if temp is None else cx.real('rho_w', 800, 1030)
    water = None if temp is None else AnyWater(temp, rho_w)
    oil = small_oil(2)
    init_density(sc, new, water, aggregate=False)
    init_viscosity(sc, new, water, aggregate=cx.flag('aggregate'))
    T = 288.15 if temp is None else temp
    for i in range(n):
        if i >= n - new:
            cx.prove(cx.close(sc['density'][i], cx.mn(oil.density_at_temp(T), rho_w), 1e-9),
                     'fresh: density at the water temperature, up to that of water')
            cx.prove(cx.close(sc['viscosity'][i], oil.kvis_at_temp(T), 1e-12, 1e-9),
                     'fresh: viscosity at the water temperature')
        else:
            cx.prove(cx.close(sc['density'][i], old[i], 1e-9), 'fresh: other elements keep theirs')
            cx.prove(cx.close(sc['viscosity'][i], old[i] / 1e6, 1e-12), 'fresh: other elements keep theirs')


PROP = Property('C30', [
    Case('density', density), Case('viscosity', viscosity), Case('bulk', bulk), Case('fresh', fresh),
    Case('density-3', density, dict(ns=(3,)), tier='thorough', budget=900),
])
